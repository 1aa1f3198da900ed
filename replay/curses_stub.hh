#pragma once
#include <curses.h>
#include <string>
#include <deque>
#include <vector>
#include <set>
namespace term { extern int H, W; extern std::deque<int> keys; std::vector<std::string> rows(WINDOW *w); std::vector<std::string> revs(WINDOW *w); extern std::set<WINDOW *> live;
struct Write { WINDOW *w; int y, x; std::string s; bool rev; }; extern std::vector<Write> writes; }
