"""Contract files: parser for /verif/contracts/*.ct"""
import re, os

def strlits(text):
    """s"..." stands for the sequence of the characters"""
    def f(m):
        v = eval('"' + m.group(1) + '"')
        return 'seq![%s]' % ', '.join('%dint' % ord(c) for c in v) if v else 'Seq::<int>::empty()'
    return re.sub(r'(?<!\w)s"((?:[^"\\]|\\.)*)"', f, text)

class Clause:
    __slots__ = ('text', 'tags', 'src')
    def __init__(self, text, tags, src): self.text = text; self.tags = tags; self.src = src
class Loop:
    def __init__(self): self.inv = []; self.dec = None; self.hints = {}; self.label = None
class Contract:
    def __init__(self):
        self.name = None; self.arity = None; self.const = None; self.props = []
        self.params = None; self.requires = []; self.ensures = []; self.throws = []; self.maythrow = False
        self.modifies = []; self.loops = {}; self.hints = []; self.measure = None; self.trusted = None
        self.src = None; self.inline = []; self.this = None; self.reads = []; self.overrides = None; self.bounded = None
        self.exits = []; self.opts = {}; self.reveal = []; self.ghosts = []; self.hide = []
    def loop(self, k):
        return self.loops.setdefault(k, Loop())

KW = ('fn', 'props', 'params', 'requires', 'ensures', 'throws', 'modifies', 'loop', 'inv', 'dec', 'hint', 'measure', 'trusted', 'use', 'inline',
      'sym', 'opt', 'optr', 'ghost', 'hide')
def parse(path):
    """returns (contracts, uses, syms)"""
    out = []; uses = []; syms = {}
    cur = None; loop = None
    text = open(path).read()
    for k, v in reversed(re.findall(r'^mac (\w+) (.*)$', text, re.M)): text = re.sub(r'@%s\b' % k, lambda m: v, text)
    text = re.sub(r'^mac .*$', '', text, flags=re.M)
    # fn NAME<{t1=v1|t2=v2}> ...: the contract is given once for several instances of a template; @T is the value
    def many(m):
        r = ''
        for a in m.group(3).split('|'): n, _, v = a.partition('='); r += m.group(2) + n + re.sub(r'@T\b', lambda _: v, m.group(4)) + '\n'
        return m.group(1) + r
    text = re.sub(r'(^|\n)(fn [^\n{]*)\{([^}\n]*)\}((?:(?!\nfn ).|\n(?!fn ))*)', many, text)
    lines = strlits(text).split('\n')
    # join continuation lines: a line whose first word is not a keyword belongs to the previous clause
    items = []
    for n, l in enumerate(lines, 1):
        s = l.rstrip()
        if not s.strip() or s.strip().startswith('#'): continue
        w = re.match(r'\s*([a-z]+)\b', s)
        ind = len(s) - len(s.lstrip())
        if w and w.group(1) in KW and ((ind <= 4) and (ind == 0 or re.match(r'\s*(fn|props|params|requires|ensures|throws|modifies|loop|inv|dec|hint|measure|trusted|use|inline|sym|opt|ghost|hide)\b(?!\s*=)', s))):
            items.append([n, w.group(1), s.strip()[len(w.group(1)):].strip()])
        else:
            if not items: raise Exception('%s:%d: stray line' % (path, n))
            items[-1][2] += '\n' + s.strip()
    def clause(t, n):
        m = re.match(r'\[([A-Z0-9 ,]+)\]\s*', t)
        tags = []
        if m: tags = re.split(r'[ ,]+', m.group(1).strip()); t = t[m.end():]
        return Clause(t.strip(), tags, '%s:%d' % (os.path.basename(path), n))
    for n, kw, rest in items:
        if kw == 'use': uses += rest.split(); continue
        if kw == 'sym':
            a, b = rest.split(None, 1); syms[a] = b; continue
        if kw == 'fn':
            cur = Contract(); loop = None; out.append(cur)
            m = re.match(r'(.*?)(?:\s*\[([A-Z0-9 ,]*)\])?$', rest)
            nm = m.group(1).strip()
            if m.group(2): cur.props = re.split(r'[ ,]+', m.group(2).strip())
            mm = re.match(r'(.*)/(\d+)(const)?$', nm)
            if mm: cur.name, cur.arity, cur.const = mm.group(1), int(mm.group(2)), mm.group(3)
            else: cur.name = nm
            cur.src = '%s:%d' % (os.path.basename(path), n)
        elif kw == 'props': cur.props = rest.split()
        elif kw == 'params': cur.params = rest.split()
        elif kw == 'requires': cur.requires.append(clause(rest, n))
        elif kw == 'ensures': cur.ensures.append(clause(rest, n))
        elif kw == 'throws':
            cur.maythrow = True; cur.throws.append(clause(rest, n))
        elif kw == 'modifies': cur.modifies += [x for x in re.split(r'[,\s]+', rest) if x]
        elif kw == 'measure': cur.measure = rest
        elif kw == 'hide': cur.hide += rest.split()
        elif kw == 'ghost': cur.ghosts.append(tuple(x.strip() for x in rest.split(':', 1)))
        elif kw == 'trusted': cur.trusted = rest or 'trusted'
        elif kw == 'inline': cur.inline += rest.split()
        elif kw == 'opt':
            for x in rest.split():
                k, _, v = x.partition('='); cur.opts[k] = v or True
        elif kw == 'loop':
            m = re.match(r'(\d+)$', rest); loop = cur.loop(int(m.group(1)))
        elif kw == 'inv': loop.inv.append(clause(rest, n))
        elif kw == 'dec': loop.dec = clause(rest, n)
        elif kw == 'hint':
            where, _, code = rest.partition(':')
            cur.hints.append((where.strip(), code.strip(), '%s:%d' % (os.path.basename(path), n)))
    return out, uses, syms
