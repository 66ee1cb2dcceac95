#include "rh.h"
#include <new>
#include "templates/optional.h"
using namespace rh;
template<class T> static int val(const T &t); template<> int val(const int &t) { return t; } template<> int val(const Obj &t) { t.chk(); return t.v; }
struct Str { std::string s; Str(int v) : s(std::to_string(v) + " is a value long enough to be on the heap") {} }; template<> int val(const Str &t) { return atoi(t.s.c_str()); }
template<class T> static void run(const char *nm) { begin(nm); long l0 = Obj::live; { const int K = 3; typedef Optional<T> O; alignas(O) char raw[K][sizeof(O)]; O *o[K] = {}; int m[K]; bool e[K]; 
  for (int k = 0; k < K; ++k) { memset(raw[k], 0xab, sizeof(O)); o[k] = new (raw[k]) O(); e[k] = false; m[k] = 0; }
  int steps = 3 + rnd(14); const int ANY = -999999;
  for (int q = 0; q < steps; ++q) { int a = rnd(K), b = rnd(K); int x = 1 + rnd(100);
    switch (rnd(17)) {
    case 0: op("o%d = value %d", a, x); { T t(x); O &r = (*o[a] = t); REQ(&r == o[a], "returns itself"); REQ(val<T>(t) == x, "source of a copy changed"); } e[a] = true; m[a] = x; break;
    case 1: op("o%d = rvalue %d", a, x); { T t(x); O &r = (*o[a] = static_cast<T&&>(t)); REQ(&r == o[a], "returns itself"); } e[a] = true; m[a] = x; break;
    case 2: op("o%d.reset", a); o[a]->reset(); e[a] = false; break;
    case 3: op("o%d.emplace %d", a, x); o[a]->emplace(T(x)); e[a] = true; m[a] = x; break;
    case 4: case 5: op("o%d = o%d", a, b); { const O &s = *o[b]; O &r = (*o[a] = s); REQ(&r == o[a], "returns itself"); } e[a] = e[b]; m[a] = m[b]; break;
    case 6: case 7: if (a != b) { op("o%d = move o%d", a, b); O &r = (*o[a] = static_cast<O&&>(*o[b])); REQ(&r == o[a], "returns itself"); bool eb = e[b]; e[a] = eb; m[a] = m[b]; REQ(!o[b]->hasValue(), "moved-away optional still has a value"); e[b] = false; } break;
    case 8: case 9: if (a != b) { op("destroy o%d, copy construct from o%d", a, b); o[a]->~O(); memset(raw[a], 0xcd, sizeof(O)); const O &s = *o[b]; if (rnd(2)) o[a] = new (raw[a]) O(s); else o[a] = new (raw[a]) O(*o[b]); e[a] = e[b]; m[a] = m[b]; } break;
    case 10: case 11: if (a != b) { op("destroy o%d, move construct from o%d", a, b); o[a]->~O(); memset(raw[a], 0xcd, sizeof(O)); o[a] = new (raw[a]) O(static_cast<O&&>(*o[b])); e[a] = e[b]; m[a] = m[b]; if (e[b] && o[b]->hasValue()) m[b] = ANY; else e[b] = false; } break;
    case 12: op("destroy o%d, construct from value %d", a, x); o[a]->~O(); memset(raw[a], 0xcd, sizeof(O)); { T t(x); if (rnd(2)) o[a] = new (raw[a]) O(t); else o[a] = new (raw[a]) O(static_cast<T&&>(t)); } e[a] = true; m[a] = x; break;
    case 13: op("destroy o%d, default construct", a); o[a]->~O(); memset(raw[a], 0xcd, sizeof(O)); o[a] = new (raw[a]) O(); e[a] = false; break;
    case 14: op("self copy o%d", a); { const O &s = *o[a]; *o[a] = s; } break;
    case 15: if (e[a]) { op("take o%d", a); T t(*static_cast<O&&>(*o[a])); if (m[a] != ANY) REQ(val<T>(t) == m[a], "value taken"); m[a] = ANY; REQ(o[a]->hasValue(), "taking the value does not disengage"); } break;
    case 16: if (e[a]) { op("write o%d", a); **o[a] = T(x); m[a] = x; } break; }
    long eng = 0; for (int k = 0; k < K; ++k) { REQ(o[k]->hasValue() == e[k] && (bool)*o[k] == e[k], "hasValue"); if (e[k]) { ++eng; if (m[k] != ANY) { const O &c = *o[k]; REQ(val<T>(**o[k]) == m[k] && val<T>(*c) == m[k] && val<T>(*o[k]->operator->()) == m[k] && val<T>(*c.operator->()) == m[k], "value"); } } }
    if (std::is_same<T, Obj>::value) REQ(Obj::live == l0 + eng, "number of live values differs from the engaged optionals"); }
  for (int k = 0; k < K; ++k) o[k]->~O(); }
  REQ(Obj::live == l0, "values leaked or destroyed twice"); }
int main(int c, char **v) { init(c, v); while (more() && cases < 300000) { run<Obj>("Optional<Obj>"); run<int>("Optional<int>"); run<Str>("Optional<Str>"); } return done("random sequences of at most 16 operations on three optionals"); }
