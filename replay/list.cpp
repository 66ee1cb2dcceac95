// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "rh.h"
#include "containers/list.h"
#include "hal/malloc_ansi.h"
using namespace rh;
template<typename T> static int val(const T &x);
template<> int val<int>(const int &x) { return x; }
template<> int val<Obj>(const Obj &x) { x.chk(); return x.v; }
template<typename T> static void same(List<T> &l, const std::deque<int> &m, const char *w) {
  REQ(l.getLength() == m.size(), std::string(w) + ": length");
  Link<T> *p = l.getHead(), *q = nullptr; size_t i = 0;
  for (; p; q = p, p = p->next, ++i) { REQ(i < m.size(), std::string(w) + ": too many links"); REQ(p->prev == q, std::string(w) + ": prev link"); REQ(val<T>(p->data) == m[i], std::string(w) + ": value"); }
  REQ(i == m.size(), std::string(w) + ": too few links"); REQ(l.getTail() == q, std::string(w) + ": tail");
  i = 0; for (auto &x : l) { REQ(val<T>(x) == m[i], "iteration"); ++i; } REQ(i == m.size(), "iteration length");
  const List<T> &cl = l; i = 0; for (const auto &x : cl) { REQ(val<T>(x) == m[i], "const iteration"); ++i; } REQ(i == m.size(), "const iteration length");
  if (!m.empty()) { i = m.size(); auto it = typename List<T>::Iterator{l.getTail()}; for (; it != l.end(); --it) { --i; REQ(val<T>(*it) == m[i], "backward iteration"); } REQ(i == 0, "backward length"); }
}
template<typename T> static void one(int maxops) {
  long live0 = Obj::live;
  { List<T> a, b; std::deque<int> ma, mb; int n = 1 + rnd(maxops), ctr = 1;
    for (int k = 0; k < n; ++k) {
      List<T> &l = rnd(3) ? a : b; std::deque<int> &m = &l == &a ? ma : mb; List<T> &o = &l == &a ? b : a; std::deque<int> &mo = &l == &a ? mb : ma; const char *nm = &l == &a ? "a" : "b";
      switch (rnd(17)) {
      case 0: case 1: case 2: { T x(ctr); op("%s.pushBack(%d)", nm, ctr); T &r = l.pushBack(x); REQ(val<T>(r) == ctr && val<T>(x) == ctr, "pushBack result"); m.push_back(ctr++); break; }
      case 3: case 4: { T x(ctr); op("%s.pushFront(%d)", nm, ctr); T &r = l.pushFront(x); REQ(val<T>(r) == ctr && val<T>(x) == ctr, "pushFront result"); m.push_front(ctr++); break; }
      case 5: { T x(ctr), y(ctr + 1); op("%s.pushBack(%d,%d)", nm, ctr, ctr + 1); l.pushBack(x, y); REQ(val<T>(x) == ctr && val<T>(y) == ctr + 1, "arguments of variadic pushBack changed"); m.push_back(ctr++); m.push_back(ctr++); break; }
      case 6: { T x(ctr), y(ctr + 1); op("%s.pushFront(%d,%d)", nm, ctr, ctr + 1); l.pushFront(x, y); REQ(val<T>(x) == ctr && val<T>(y) == ctr + 1, "arguments of variadic pushFront changed"); m.push_front(ctr++); m.push_front(ctr++); break; }
      case 7: op("%s.removeBack", nm); REQ(l.removeBack() == !m.empty(), "removeBack result"); if (!m.empty()) m.pop_back(); break;
      case 8: op("%s.removeFront", nm); REQ(l.removeFront() == !m.empty(), "removeFront result"); if (!m.empty()) m.pop_front(); break;
      case 9: { T x(-1); op("%s.popBack", nm); bool r = l.popBack(x); REQ(r == !m.empty(), "popBack result"); if (r) { REQ(val<T>(x) == m.back(), "popBack value"); m.pop_back(); } else REQ(val<T>(x) == -1, "popBack touched out"); break; }
      case 10: { T x(-1); op("%s.popFront", nm); bool r = l.popFront(x); REQ(r == !m.empty(), "popFront result"); if (r) { REQ(val<T>(x) == m.front(), "popFront value"); m.pop_front(); } else REQ(val<T>(x) == -1, "popFront touched out"); break; }
      case 11: case 12: if (!m.empty()) { unsigned i = rnd(m.size()); op("%s.remove(#%u)", nm, i); Link<T> *p = l.getHead(); for (unsigned j = 0; j < i; ++j) p = p->next; if (rnd(2)) l.remove(p); else l.remove(typename List<T>::Iterator{p}); m.erase(m.begin() + i); } break;
      case 13: op("%s.copyAssign", nm); { List<T> &r = (l = o); REQ(&r == &l, "assignment result"); } m = mo; break;
      case 14: op("%s.moveAssign", nm); { List<T> &r = (l = static_cast<List<T>&&>(o)); REQ(&r == &l, "move assignment result"); } m = mo; mo.clear(); break;
      case 15: op("copy/move construct of %s", nm); { List<T> c(l); same(c, m, "copy"); List<T> d(static_cast<List<T>&&>(c)); same(d, m, "moved"); same(c, std::deque<int>(), "moved-from"); c.pushBack(T(5)); REQ(c.getLength() == 1, "moved-from usable"); same(d, m, "moved"); } break;
      case 16: if (rnd(3) == 0) { op("%s.empty", nm); l.empty(); m.clear(); } else { op("self assign %s", nm); List<T> &r = l; l = r; } break;
      }
      same(a, ma, "a"); same(b, mb, "b");
      if (sizeof(T) == sizeof(Obj)) REQ(Obj::live - live0 == (long)(ma.size() + mb.size()), "number of live elements");
    }
  }
  REQ(Obj::live == live0, "elements leaked or destroyed twice");
}
int main(int c, char **v) { init(c, v); long lim = 400000;
  for (int sz = 3; more() && cases < lim; sz = sz < 24 ? sz + 1 : 3) for (int i = 0; i < 200 && more(); ++i) { begin("List<int>"); one<int>(sz); begin("List<Obj>"); one<Obj>(sz); }
  return done("random operation sequences of up to 24 operations on two lists"); }
