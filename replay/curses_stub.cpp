// a terminal that is only memory: what the curses functions the program uses do to a grid of cells
#include <curses.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <deque>
#include <vector>
#include <set>
#include "curses_stub.hh"
#undef getmaxx
#undef getmaxy
#undef getbegx
#undef getbegy
#undef wattron
#undef wattroff
#undef attron
#undef attroff
#undef wborder
#undef wtimeout
#undef box
#undef clear
#undef move
#undef refresh
struct _win_st { int h, w, y, x, cy = 0, cx = 0; bool rev = false; std::vector<std::string> rows; std::vector<std::string> revs; };
static WINDOW *mk(int h, int w, int y, int x) { WINDOW *r = new WINDOW; r->h = h; r->w = w; r->y = y; r->x = x; r->rows.assign(h > 0 ? h : 0, std::string(w > 0 ? w : 0, ' ')); r->revs = r->rows; return r; }
namespace term { int H = 24, W = 80; std::deque<int> keys; std::vector<std::string> rows(WINDOW *w) { return w->rows; } std::vector<std::string> revs(WINDOW *w) { return w->revs; } std::set<WINDOW *> live;
std::vector<Write> writes; }
using namespace term;
static void put(WINDOW *w, const char *s) {
  if (!w) return;
  writes.push_back({w, w->cy, w->cx, s, w->rev});
  for (; *s; ++s) { unsigned char c = *s; if (c == '\n') { w->cy++; w->cx = 0; continue; } if ((c & 0xC0) == 0x80) continue;
    if (w->cx >= w->w) { w->cx = 0; w->cy++; } if (w->cy >= 0 && w->cy < w->h && w->cx >= 0 && w->cx < w->w) { w->rows[w->cy][w->cx] = c; w->revs[w->cy][w->cx] = w->rev ? 'R' : ' '; } w->cx++; } }
static void vput(WINDOW *w, const char *f, va_list a) { int n; va_list b; va_copy(b, a); n = vsnprintf(0, 0, f, b); va_end(b); if (n < 0) return; std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, a); put(w, s.c_str()); }
extern "C" {
WINDOW *stdscr; static int scr;
SCREEN *newterm(const char *, FILE *, FILE *) { if (stdscr) delete stdscr; stdscr = mk(H, W, 0, 0); return (SCREEN *)&scr; }
WINDOW *newwin(int h, int w, int y, int x) { WINDOW *r = mk(h, w, y, x); live.insert(r); return r; }
int delwin(WINDOW *w) { if (!w || !live.count(w)) { if (w) { fprintf(stderr, "delwin of a window that does not exist\n"); abort(); } return ERR; } live.erase(w); delete w; return OK; }
int wresize(WINDOW *w, int h, int x) { w->h = h; w->w = x; w->rows.assign(h > 0 ? h : 0, std::string(x > 0 ? x : 0, ' ')); w->revs = w->rows; return OK; }
int mvwin(WINDOW *w, int y, int x) { w->y = y; w->x = x; return OK; }
int resize_term(int, int) { return OK; }
int getmaxx(const WINDOW *w) { return w->w; } int getmaxy(const WINDOW *w) { return w->h; } int getbegx(const WINDOW *w) { return w->x; } int getbegy(const WINDOW *w) { return w->y; }
int wclear(WINDOW *w) { if (!w) return ERR; w->rows.assign(w->h > 0 ? w->h : 0, std::string(w->w > 0 ? w->w : 0, ' ')); w->revs = w->rows; w->cy = w->cx = 0; return OK; }
int clear(void) { return wclear(stdscr); }
int wmove(WINDOW *w, int y, int x) { if (!w) return ERR; w->cy = y; w->cx = x; return OK; }
int move(int y, int x) { return wmove(stdscr, y, x); }
int wrefresh(WINDOW *) { return OK; } int refresh(void) { return OK; }
int mvprintw(int y, int x, const char *f, ...) { va_list a; va_start(a, f); wmove(stdscr, y, x); vput(stdscr, f, a); va_end(a); return OK; }
int mvwprintw(WINDOW *w, int y, int x, const char *f, ...) { va_list a; va_start(a, f); wmove(w, y, x); vput(w, f, a); va_end(a); return OK; }
int printw(const char *f, ...) { va_list a; va_start(a, f); vput(stdscr, f, a); va_end(a); return OK; }
int wprintw(WINDOW *w, const char *f, ...) { va_list a; va_start(a, f); vput(w, f, a); va_end(a); return OK; }
int wattr_on(WINDOW *w, attr_t t, void *) { if (w && (t & A_REVERSE)) w->rev = true; return OK; } int wattr_off(WINDOW *w, attr_t t, void *) { if (w && (t & A_REVERSE)) w->rev = false; return OK; }
int wattron(WINDOW *w, int t) { return wattr_on(w, t, 0); } int wattroff(WINDOW *w, int t) { return wattr_off(w, t, 0); }
int attron(int t) { return wattr_on(stdscr, t, 0); } int attroff(int t) { return wattr_off(stdscr, t, 0); }
int wborder(WINDOW *, chtype, chtype, chtype, chtype, chtype, chtype, chtype, chtype) { return OK; }
int box(WINDOW *, chtype, chtype) { return OK; }
int cbreak(void) { return OK; } int noecho(void) { return OK; } int curs_set(int) { return OK; } int keypad(WINDOW *, bool) { return OK; } int start_color(void) { return OK; } int init_pair(short, short, short) { return OK; }
void wtimeout(WINDOW *, int) { }
int endwin(void) { return OK; } void delscreen(SCREEN *) { }
int wgetch(WINDOW *) { if (keys.empty()) return 'q'; int k = keys.front(); keys.pop_front(); return k; }
const char *keyname(int c) { static char b[8]; switch (c) { case KEY_UP: return "KEY_UP"; case KEY_DOWN: return "KEY_DOWN"; case KEY_LEFT: return "KEY_LEFT"; case KEY_RIGHT: return "KEY_RIGHT"; case KEY_PPAGE: return "KEY_PPAGE"; case KEY_NPAGE: return "KEY_NPAGE"; }
  if (c < 32) { b[0] = '^'; b[1] = c + 64; b[2] = 0; } else { b[0] = c; b[1] = 0; } return b; }
int isatty(int) { return 1; }
}
