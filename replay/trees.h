#pragma once
// Independent check of a red-black tree: order, balance, links, threads.  Values are (key, tag).
#include "rh.h"
#include "containers/tree.h"
#include "hal/malloc_ansi.h"
using namespace rh;
template<class N, class K> static int walk(N *n, N *par, std::vector<N *> &out, K cmp, const char *w) {
  if (!n) return 0;
  REQ(n->parent == par, std::string(w) + ": parent link");
  REQ(out.size() < 100000, std::string(w) + ": cyclic");
  if (n->color == BinaryNodeColor::RED) { REQ(par && par->color == BinaryNodeColor::BLACK, std::string(w) + ": red node with a red parent, or red root"); }
  int a = walk(n->left, n, out, cmp, w); out.push_back(n); int b = walk(n->right, n, out, cmp, w);
  REQ(a == b, std::string(w) + ": black heights differ");
  return a + (n->color == BinaryNodeColor::BLACK);
}
template<class T, class K> static std::vector<typename T::NodeT *> checkTree(T &t, K cmp, const char *w) {
  using N = typename T::NodeT; std::vector<N *> v; walk<N, K>(t.root, nullptr, v, cmp, w);
  REQ(v.size() == t.getNumNodes(), std::string(w) + ": number of nodes");
  for (size_t i = 0; i < v.size(); ++i) {
    REQ(v[i]->prev == (i ? v[i - 1] : nullptr), std::string(w) + ": previous link"); REQ(v[i]->next == (i + 1 < v.size() ? v[i + 1] : nullptr), std::string(w) + ": next link");
    if (i) REQ(cmp(v[i - 1], v[i]) <= 0, std::string(w) + ": order"); }
  size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) REQ(i < v.size() && &*it == &v[i]->data, std::string(w) + ": iteration"); REQ(i == v.size(), std::string(w) + ": iteration length");
  const T &ct = t; i = 0; for (auto it = ct.begin(); it != ct.end(); it++, ++i) REQ(i < v.size() && &*it == &v[i]->data, std::string(w) + ": const iteration"); REQ(i == v.size(), std::string(w) + ": const iteration length");
  REQ(t.getMin() == (v.empty() ? nullptr : v[0]) && t.getMax() == (v.empty() ? nullptr : v.back()), std::string(w) + ": getMin, getMax");
  return v;
}
