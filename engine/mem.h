// Objects, persistent address map (treap with per-state ownership), symbolic state.
#pragma once
#include "expr.h"
#include <vector>
#include <memory>
struct Val { u64 c; E e; };
inline Val V(u64 c) { return Val{c, nullptr}; }

enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_NEW, OK_NEWARR, OK_EXTERN };
struct Obj {
  u64 base, size; u32 refs; u64 owner; bool ro; ObjKind kind; u8 fill; E symSize; const char* what;
  std::vector<u8> d;   // may be shorter than size: bytes beyond are 'fill'
  std::vector<E> sym;  // empty when fully concrete; otherwise same length as d
  void need(u64 n) { if (d.size() < n) { u64 t = n; if (n > 256) { t = n * 2; if (t > size) t = size; } d.resize(t, fill); if (!sym.empty()) sym.resize(t, nullptr); } }
  u8 conc(u64 o) const { return o < d.size() ? d[o] : fill; }
  E symAt(u64 o) const { return o < sym.size() ? sym[o] : nullptr; }
};
struct Node { u64 key; u32 prio; u32 refs; u64 owner; Obj* o; Node *l, *r; };
inline void dropObj(Obj* o) { if (--o->refs == 0) delete o; }
inline void dropNode(Node* n) { while (n && --n->refs == 0) { dropNode(n->l); Node* r = n->r; dropObj(n->o); delete n; n = r; } }
inline u32 prioOf(u64 k) { k ^= k >> 31; k *= 0x9E3779B97F4A7C15ull; k ^= k >> 29; k *= 0xBF58476D1CE4E5B9ull; return (u32)(k >> 32); }

class AddrMap {
 public:
  Node* root = nullptr; u64 key = 0;  // ownership key
  static u64 nextKey;
  AddrMap() { key = ++nextKey; }
  AddrMap(AddrMap& o) : root(o.root) { if (root) root->refs++; key = ++nextKey; o.key = ++nextKey; }
  AddrMap(const AddrMap&) = delete;
  AddrMap& operator=(const AddrMap&) = delete;
  ~AddrMap() { dropNode(root); }
  Obj* floor(u64 a) const { Node* n = root; Obj* b = nullptr; while (n) { if (n->key <= a) { b = n->o; n = n->r; } else n = n->l; } return b; }
  Node* own(Node* n) { // returns a node this state may mutate (consumes one reference of n)
    if (n->owner == key && n->refs == 1) return n;
    Node* c = new Node(*n); c->owner = key; c->refs = 1; c->o->refs++; if (c->l) c->l->refs++; if (c->r) c->r->refs++;
    dropNode(n); return c;
  }
  void insert(Obj* o) { Node* x = new Node{o->base, prioOf(o->base), 1, key, o, nullptr, nullptr}; root = ins(root, x); }
  void erase(u64 k) { root = del(root, k); }
  Obj* writable(Obj* o) {
    if (o->owner == key) return o;
    // copy the path
    Node** p = &root; u64 k = o->base;
    while (true) { *p = own(*p); Node* n = *p; if (n->key == k) { Obj* c = new Obj(*o); c->owner = key; c->refs = 1; dropObj(n->o); n->o = c; return c; } p = k < n->key ? &n->l : &n->r; }
  }
 private:
  void split(Node* n, u64 k, Node*& l, Node*& r) { if (!n) { l = r = nullptr; return; } n = own(n); if (n->key < k) { Node* t; split(n->r, k, t, r); n->r = t; l = n; } else { Node* t; split(n->l, k, l, t); n->l = t; r = n; } }
  Node* ins(Node* n, Node* x) {
    if (!n) return x;
    if (x->prio > n->prio) { split(n, x->key, x->l, x->r); return x; }
    n = own(n); if (x->key < n->key) n->l = ins(n->l, x); else n->r = ins(n->r, x); return n;
  }
  Node* merge(Node* a, Node* b) { if (!a) return b; if (!b) return a; if (a->prio > b->prio) { a = own(a); a->r = merge(a->r, b); return a; } b = own(b); b->l = merge(a, b->l); return b; }
  Node* del(Node* n, u64 k) {
    if (!n) return n;
    n = own(n);
    if (n->key == k) { Node *l = n->l, *r = n->r; n->l = n->r = nullptr; dropNode(n); return merge(l, r); }
    if (k < n->key) n->l = del(n->l, k); else n->r = del(n->r, k); return n;
  }
};
