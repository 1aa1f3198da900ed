// Mechanical exporter: dumps every function (with body) defined under a root
// directory, as resolved by clang (template instantiations included), to JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
static std::string Root, OutPath;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  json::Array Funcs, Records; json::Object Globals;
  std::set<const void*> SeenF, SeenR;
  std::map<const ValueDecl*, int> Ids; int NextId = 1;
  std::map<std::string,int> TypeIdx; json::Array Types;

  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), MC(c.createMangleContext()) {
    PP.FullyQualifiedName = true; PP.SuppressScope = false; PP.Bool = true; PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef f = P.getFilename();
    if (!f.starts_with(Root)) return false;
    return true;
  }
  std::string fileOf(SourceLocation L) { auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid()? P.getFilename():""; }
  int lineOf(SourceLocation L) { auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid()? (int)P.getLine():0; }

  int idOf(const ValueDecl *D) { auto it = Ids.find(D); if (it != Ids.end()) return it->second; return Ids[D] = NextId++; }

  // ---- types
  json::Value typeObj(QualType T) {
    T = T.getCanonicalType();
    bool isConst = T.isConstQualified();
    const Type *t = T.getTypePtr();
    json::Object o;
    if (isConst) o["const"] = true;
    if (auto *p = dyn_cast<PointerType>(t)) { o["k"]="ptr"; o["to"]=typeId(p->getPointeeType()); }
    else if (auto *r = dyn_cast<ReferenceType>(t)) { o["k"]= isa<RValueReferenceType>(r)?"rref":"ref"; o["to"]=typeId(r->getPointeeType()); }
    else if (auto *a = dyn_cast<ConstantArrayType>(t)) { o["k"]="arr"; o["to"]=typeId(a->getElementType()); o["n"]=(int64_t)a->getSize().getLimitedValue(1ull<<40); }
    else if (auto *a = dyn_cast<ArrayType>(t)) { o["k"]="arr"; o["to"]=typeId(a->getElementType()); o["n"]=-1; }
    else if (auto *e = dyn_cast<EnumType>(t)) { o["k"]="enum"; o["n"]=T.getUnqualifiedType().getAsString(PP);
       QualType u = e->getDecl()->getIntegerType(); if(!u.isNull()){ o["bits"]=(int64_t)C.getTypeSize(u); o["signed"]=u->isSignedIntegerType(); } }
    else if (auto *r = dyn_cast<RecordType>(t)) { o["k"]="rec"; o["n"]=T.getUnqualifiedType().getAsString(PP);
       const RecordDecl *rd = r->getDecl();
       o["short"]=rd->getQualifiedNameAsString();
       if (auto *cts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
         json::Array ta; for (auto &A : cts->getTemplateArgs().asArray()) { if (A.getKind()==TemplateArgument::Type) ta.push_back(typeId(A.getAsType())); else if (A.getKind()==TemplateArgument::Integral) ta.push_back(json::Object{{"int",(int64_t)A.getAsIntegral().extOrTrunc(64).getSExtValue()}}); else ta.push_back(nullptr);} o["targs"]=std::move(ta); }
       if (inRoot(rd->getLocation())) if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) record(cr->getDefinition()); }
    else if (auto *b = dyn_cast<BuiltinType>(t)) { o["k"]="builtin"; o["n"]=T.getUnqualifiedType().getAsString(PP);
       if (b->isInteger()) { o["bits"]=(int64_t)C.getTypeSize(T); o["signed"]=b->isSignedInteger(); o["int"]=true; }
       if (b->isFloatingPoint()) { o["float"]=true; o["bits"]=(int64_t)C.getTypeSize(T);} }
    else if (auto *f = dyn_cast<FunctionProtoType>(t)) { o["k"]="func"; o["ret"]=typeId(f->getReturnType()); o["n"]=T.getAsString(PP);}
    else { o["k"]="other"; o["n"]=T.getAsString(PP); o["cls"]=t->getTypeClassName(); }
    return o;
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string key = T.getAsString(PP);
    auto it = TypeIdx.find(key);
    if (it != TypeIdx.end()) return it->second;
    int id = (int)Types.size(); TypeIdx[key]=id; Types.push_back(nullptr);
    json::Value v = typeObj(T);
    if (auto *o = v.getAsObject()) (*o)["s"]=key;
    Types[id]=std::move(v);
    return id;
  }
  // ---- functions refs
  std::string mangle(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    return os.str();
  }
  std::string qname(const FunctionDecl *F) {
    std::string s;
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) s = C.getRecordType(m->getParent()).getAsString(PP) + "::";
    else { std::string n; llvm::raw_string_ostream os(n); F->printQualifiedName(os, PP); os.flush(); 
      s = n; 
      if (auto *ta = F->getTemplateSpecializationArgs()) { s += "<"; bool first=true; for (auto &A: ta->asArray()) { if(!first) s+=","; first=false; std::string b; llvm::raw_string_ostream o2(b); A.print(PP,o2,true); s+=o2.str(); } s += ">"; }
      return s; }
    std::string nm;
    if (isa<CXXConstructorDecl>(F)) nm = "(ctor)"; else if (isa<CXXDestructorDecl>(F)) nm="(dtor)"; else if (isa<CXXConversionDecl>(F)) nm="(conv)"; else nm = F->getNameAsString();
    s += nm;
    if (auto *ta = F->getTemplateSpecializationArgs()) { s += "<"; bool first=true; for (auto &A: ta->asArray()) { if(!first) s+=","; first=false; std::string b; llvm::raw_string_ostream o2(b); A.print(PP,o2,true); s+=o2.str(); } s += ">"; }
    return s;
  }
  json::Value fref(const FunctionDecl *F) {
    json::Object o; o["n"]=qname(F); o["m"]=mangle(F);
    json::Array ps; for (auto *p : F->parameters()) ps.push_back(typeId(p->getType())); o["p"]=std::move(ps);
    o["ret"]=typeId(F->getReturnType());
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) { o["cls"]=typeId(C.getRecordType(m->getParent())); if (m->isVirtual()) o["virt"]=true; if (m->isStatic()) o["static"]=true; if (m->isConst()) o["cm"]=true;
      if (m->isCopyAssignmentOperator()||m->isMoveAssignmentOperator()) o["copyassign"]=true; }
    const FunctionDecl *Def=nullptr;
    o["inroot"]= inRoot(F->getLocation());
    return o;
  }
  // ---- expressions & statements
  json::Object node(const char *k, const Stmt *S) { json::Object o; o["k"]=k; o["l"]=lineOf(S->getBeginLoc()); return o; }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *x = dyn_cast<ExprWithCleanups>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) { return expr(x->getExpr()); }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { return expr(x->getExpr()); }
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
      auto o = node("NTTP", E); o["t"]=typeId(E->getType()); o["n"]=x->getParameter()->getNameAsString(); o["e"]=expr(x->getReplacement()); return o; }
    json::Object o = node(E->getStmtClassName(), E);
    o["t"]=typeId(E->getType());
    if (E->isGLValue()) o["lv"]=true;
    if (auto *x = dyn_cast<IntegerLiteral>(E)) { o["k"]="Int"; llvm::SmallString<32> s; x->getValue().toString(s,10,E->getType()->isSignedIntegerType()); o["v"]=s.str().str(); }
    else if (auto *x = dyn_cast<CharacterLiteral>(E)) { o["k"]="Int"; int64_t v = x->getValue(); if (x->getKind()==CharacterLiteralKind::Ascii && E->getType()->isCharType()) v=(int64_t)(signed char)v; o["v"]=std::to_string(v); }
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"]="Bool"; o["v"]=x->getValue(); }
    else if (isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)) { o["k"]="Null"; }
    else if (auto *x = dyn_cast<FloatingLiteral>(E)) { o["k"]="Float"; llvm::SmallString<32> s; x->getValue().toString(s); o["v"]=s.str().str(); }
    else if (auto *x = dyn_cast<StringLiteral>(E)) { o["k"]="Str"; json::Array a; for (unsigned i=0;i<x->getLength();++i) { int64_t v=x->getCodeUnit(i); if (x->getCharByteWidth()==1) v=(int64_t)(signed char)v; a.push_back(v);} o["v"]=std::move(a); }
    else if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl(); o["k"]="Ref"; o["n"]=D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"]=fref(F); }
      else if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { o["k"]="Int"; o["enum"]=ec->getNameAsString(); llvm::SmallString<32> s; ec->getInitVal().toString(s,10); o["v"]=s.str().str(); }
      else { o["id"]=idOf(D);
        if (auto *v = dyn_cast<VarDecl>(D)) if (!v->isLocalVarDeclOrParm()) { o["global"]=v->getQualifiedNameAsString(); global(v); } 
        if (auto *v = dyn_cast<VarDecl>(D)) if (v->isStaticLocal()) o["slocal"]=true; } }
    else if (auto *x = dyn_cast<MemberExpr>(E)) {
      o["k"]="Member"; o["n"]=x->getMemberDecl()->getNameAsString(); o["arrow"]=x->isArrow(); o["b"]=expr(x->getBase());
      if (auto *F = dyn_cast<FunctionDecl>(x->getMemberDecl())) o["fn"]=fref(F);
      else if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["cls"]=typeId(C.getRecordType(fd->getParent()));
      else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["global"]=v->getQualifiedNameAsString(); global(v);} }
    else if (isa<CXXThisExpr>(E)) o["k"]="This";
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) { o["k"]="MCall"; 
      const CXXMethodDecl *M = x->getMethodDecl();
      if (M) o["fn"]=fref(M);
      const Expr *cal = x->getCallee()->IgnoreParens();
      if (auto *me = dyn_cast<MemberExpr>(cal)) { o["arrow"]=me->isArrow(); o["b"]=expr(me->getBase()); if (me->hasQualifier()) o["qual"]=true; }
      args(o, x->arguments()); }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) { o["k"]="OCall"; o["op"]=getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) { o["fn"]=fref(F); } args(o, x->arguments()); }
    else if (auto *x = dyn_cast<CallExpr>(E)) { o["k"]="Call"; if (auto *F = x->getDirectCallee()) o["fn"]=fref(F); else o["ce"]=expr(x->getCallee()); args(o, x->arguments()); }
    else if (auto *x = dyn_cast<CXXConstructExpr>(E)) { o["k"]="Construct"; o["fn"]=fref(x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"]=true; if (x->getConstructor()->isDefaultConstructor()) o["default"]=true;
      if (x->requiresZeroInitialization()) o["zero"]=true;
      args(o, x->arguments()); }
    else if (auto *x = dyn_cast<CXXNewExpr>(E)) { o["k"]="New"; o["at"]=typeId(x->getAllocatedType()); if (x->isArray()) { o["array"]=true; if (auto s = x->getArraySize()) o["size"]=expr(*s); o["init"]=expr(x->getInitializer()); } else { o["init"]=expr(x->getInitializer()); } }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { o["k"]="Delete"; o["array"]=x->isArrayForm(); o["e"]=expr(x->getArgument()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) { o["k"]="Index"; o["b"]=expr(x->getBase()); o["i"]=expr(x->getIdx()); }
    else if (auto *x = dyn_cast<CompoundAssignOperator>(E)) { o["k"]="CAssign"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); o["ct"]=typeId(x->getComputationResultType()); o["clt"]=typeId(x->getComputationLHSType()); }
    else if (auto *x = dyn_cast<BinaryOperator>(E)) { o["k"]= x->isAssignmentOp()?"Assign":"Bin"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); }
    else if (auto *x = dyn_cast<UnaryOperator>(E)) { o["k"]="Un"; std::string op=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["op"]=op; if (x->isIncrementDecrementOp()) o["post"]=x->isPostfix(); o["e"]=expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<ConditionalOperator>(E)) { o["k"]="Cond"; o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<CastExpr>(E)) { 
      o["k"]="Cast"; o["ck"]=x->getCastKindName(); o["style"]=E->getStmtClassName(); o["e"]=expr(x->getSubExpr());
      if (x->getCastKind()==CK_UserDefinedConversion || x->getCastKind()==CK_ConstructorConversion) {}
    }
    else if (auto *x = dyn_cast<CXXThrowExpr>(E)) { o["k"]="Throw"; o["e"]=expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<InitListExpr>(E)) { o["k"]="InitList"; json::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"]=std::move(a); }
    else if (isa<ImplicitValueInitExpr>(E)||isa<CXXScalarValueInitExpr>(E)) { o["k"]="ValueInit"; }
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"]="Sizeof"; Expr::EvalResult R; if (E->EvaluateAsInt(R,C)) o["v"]=llvm::toString(R.Val.getInt(),10); }
    else if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { o["k"]="Typeid"; if(!x->isTypeOperand()) o["e"]=expr(x->getExprOperand()); }
    else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"]="StdInitList"; o["e"]=expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<LambdaExpr>(E)) { o["k"]="Lambda"; }
    else { o["k"]="Unsupported"; o["cls"]=E->getStmtClassName(); }
    return o;
  }
  template<class R> void args(json::Object &o, R rng) { json::Array a; for (auto *x : rng) a.push_back(expr(x)); o["args"]=std::move(a); }

  json::Value varDecl(const VarDecl *V) {
    json::Object o; o["n"]=V->getNameAsString(); o["id"]=idOf(V); o["t"]=typeId(V->getType());
    if (V->isStaticLocal()) o["static"]=true;
    if (V->getInit()) { o["init"]=expr(V->getInit()); }
    if (auto *va = C.getAsVariableArrayType(V->getType())) o["vla"]=expr(va->getSizeExpr());
    o["l"]=lineOf(V->getLocation());
    return o;
  }
  void global(const VarDecl *V) {
    std::string q = V->getQualifiedNameAsString();
    if (Globals.get(q)) return;
    Globals[q]=nullptr;
    json::Object o; o["t"]=typeId(V->getType());
    const VarDecl *D=nullptr; if (auto *I = V->getAnyInitializer(D)) {
      if (!I->isValueDependent()) { Expr::EvalResult R; if (V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified() && I->EvaluateAsInt(R,C)) o["v"]=llvm::toString(R.Val.getInt(),10); }
    }
    Globals[q]=std::move(o);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto o = node("Expr", S); o["e"]=expr(E); return o; }
    json::Object o = node(S->getStmtClassName(), S);
    if (auto *x = dyn_cast<CompoundStmt>(S)) { o["k"]="Block"; json::Array a; for (auto *c : x->body()) a.push_back(stmt(c)); o["s"]=std::move(a); o["le"]=lineOf(x->getRBracLoc()); }
    else if (auto *x = dyn_cast<DeclStmt>(S)) { o["k"]="Decl"; json::Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); o["d"]=std::move(a); }
    else if (auto *x = dyn_cast<IfStmt>(S)) { o["k"]="If"; if (x->getInit()) o["init"]=stmt(x->getInit()); if (x->getConditionVariable()) o["cv"]=varDecl(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); }
    else if (auto *x = dyn_cast<WhileStmt>(S)) { o["k"]="While"; if (x->getConditionVariable()) o["cv"]=varDecl(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["s"]=stmt(x->getBody()); }
    else if (auto *x = dyn_cast<DoStmt>(S)) { o["k"]="Do"; o["c"]=expr(x->getCond()); o["s"]=stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ForStmt>(S)) { o["k"]="For"; o["i"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["s"]=stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(S)) { o["k"]="RangeFor"; o["v"]=varDecl(x->getLoopVariable()); o["range"]=expr(x->getRangeInit()); o["s"]=stmt(x->getBody()); 
      // does the loop variable initialisation convert/copy?
    }
    else if (auto *x = dyn_cast<ReturnStmt>(S)) { o["k"]="Return"; o["e"]=expr(x->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"]="Break";
    else if (isa<ContinueStmt>(S)) o["k"]="Continue";
    else if (isa<NullStmt>(S)) o["k"]="Nop";
    else if (auto *x = dyn_cast<CXXTryStmt>(S)) { o["k"]="Try"; o["s"]=stmt(x->getTryBlock()); json::Array a; for (unsigned i=0;i<x->getNumHandlers();++i) { auto *h=x->getHandler(i); json::Object ho; if (h->getExceptionDecl()) ho["v"]=varDecl(h->getExceptionDecl()); if (!h->getCaughtType().isNull()) ho["t"]=typeId(h->getCaughtType()); ho["s"]=stmt(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"]=std::move(a); }
    else if (auto *x = dyn_cast<SwitchStmt>(S)) { o["k"]="Switch"; o["c"]=expr(x->getCond()); o["s"]=stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CaseStmt>(S)) { o["k"]="Case"; o["e"]=expr(x->getLHS()); o["s"]=stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<DefaultStmt>(S)) { o["k"]="Default"; o["s"]=stmt(x->getSubStmt()); }
    else { o["k"]="Unsupported"; o["cls"]=S->getStmtClassName(); }
    return o;
  }
  void record(const CXXRecordDecl *R) {
    if (!R || !R->isCompleteDefinition() || R->isDependentContext()) return;
    if (!SeenR.insert(R).second) return;
    json::Object o; o["n"]=C.getRecordType(R).getAsString(PP); o["t"]=typeId(C.getRecordType(R)); o["file"]=fileOf(R->getLocation());
    json::Array bs; for (auto &b : R->bases()) bs.push_back(typeId(b.getType())); o["bases"]=std::move(bs);
    json::Array fs; for (auto *f : R->fields()) { json::Object fo; fo["n"]=f->getNameAsString(); fo["t"]=typeId(f->getType()); fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    json::Array ms; for (auto *m : R->methods()) { json::Object mo; mo["f"]=fref(m); if (m->isPureVirtual()) mo["pure"]=true; json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(mangle(b)); mo["over"]=std::move(ov); if (m->isImplicit()) mo["implicit"]=true; ms.push_back(std::move(mo)); } o["methods"]=std::move(ms);
    if (R->isPolymorphic()) o["poly"]=true; if (R->isAbstract()) o["abstract"]=true;
    Records.push_back(std::move(o));
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (inRoot(R->getLocation())) record(R->getDefinition()); return true; }
  bool VisitVarDecl(VarDecl *V) { if (!V->isLocalVarDeclOrParm() && inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext()) global(V); return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || !inRoot(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    if (isa<CXXDeductionGuideDecl>(F)) return true;
    if (F->isDefaulted() && !F->isUserProvided()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) if (m->getParent()->isLambda()) return true;
    if (!SeenF.insert(F->getCanonicalDecl()).second) return true;
    json::Object o; o["f"]=fref(F); o["file"]=fileOf(F->getLocation()); o["line"]=lineOf(F->getBeginLoc());
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) { o["const"]=m->isConst(); record(m->getParent()); json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(mangle(b)); o["over"]=std::move(ov); }
    json::Array ps; for (auto *p : F->parameters()) { json::Object po; po["n"]=p->getNameAsString(); po["id"]=idOf(p); po["t"]=typeId(p->getType()); ps.push_back(std::move(po)); } o["params"]=std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"]=true; json::Array is; for (auto *i : c->inits()) { json::Object io; if (i->isAnyMemberInitializer()) io["m"]=i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) io["base"]=typeId(QualType(i->getBaseClass(),0)); io["e"]=expr(i->getInit()); io["written"]=i->isWritten(); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
    if (isa<CXXDestructorDecl>(F)) o["dtor"]=true;
    o["body"]=stmt(F->getBody());
    Funcs.push_back(std::move(o));
    return true;
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override {
  Exporter X(C); X.TraverseDecl(C.getTranslationUnitDecl());
  std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
  json::Object top; top["funcs"]=std::move(X.Funcs); top["records"]=std::move(X.Records); top["globals"]=std::move(X.Globals); top["types"]=std::move(X.Types); top["errors"]=C.getDiagnostics().hasErrorOccurred();
  os << json::Value(std::move(top)); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutPath = argv[2]; std::string src = argv[3];
  std::vector<std::string> cmd{"clang++"}; for (int i=4;i<argc;++i) cmd.push_back(argv[i]);
  cmd.push_back("-fsyntax-only"); cmd.push_back(src);
  llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Act>(), fm.get());
  return inv.run()?0:1;
}
