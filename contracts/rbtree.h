// Reference bodies (assumed contracts) of libstdc++'s ordered-tree primitives behind std::set and std::map, used by the
// verifier in place of the external functions: a search tree without rebalancing; natively the real ones run.
#pragma once
#ifndef V_NATIVE
#include <bits/stl_tree.h>
extern "C" {
typedef std::_Rb_tree_node_base __vm_nb;
__attribute__((used)) inline __vm_nb * __vm__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(__vm_nb * x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } __vm_nb * y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
__attribute__((used)) inline const __vm_nb * __vm__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const __vm_nb * x) { return __vm__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(const_cast<__vm_nb *>(x)); }
__attribute__((used)) inline __vm_nb * __vm__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(__vm_nb * x) { if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; } __vm_nb * y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
__attribute__((used)) inline const __vm_nb * __vm__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const __vm_nb * x) { return __vm__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(const_cast<__vm_nb *>(x)); }
__attribute__((used)) inline void __vm__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, __vm_nb * x, __vm_nb * p, __vm_nb & h) {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = p == &h ? std::_S_black : std::_S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
__attribute__((used)) inline __vm_nb * __vm__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(__vm_nb * z, __vm_nb & h) {
  if (h._M_left == z) h._M_left = z->_M_right ? __vm__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(z) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? __vm__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(z) : z->_M_parent;
  __vm_nb * r; if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left; else { r = z->_M_right; while (r->_M_left) r = r->_M_left; if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; } r->_M_left = z->_M_left; z->_M_left->_M_parent = r; }
  __vm_nb * q = z->_M_parent; if (h._M_parent == z) { h._M_parent = r; if (r) r->_M_color = std::_S_black; } else if (q->_M_left == z) q->_M_left = r; else q->_M_right = r; if (r) r->_M_parent = q; return z; }
}
#endif
