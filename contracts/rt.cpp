// Runtime model: the out-of-line red-black-tree functions of libstdc++ (the search-tree part; the
// colouring only affects balance). Linked into modules that use std::set / std::map.
#include <bits/stl_tree.h>
namespace std {
using B = _Rb_tree_node_base;
B* _Rb_tree_increment(B* x) throw() {
  if (x->_M_right != nullptr) {
    x = x->_M_right;
    while (x->_M_left != nullptr) x = x->_M_left;
    return x;
  }
  B* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y) x = y;
  return x;
}
const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left != nullptr) {
    B* y = x->_M_left;
    while (y->_M_right != nullptr) y = y->_M_right;
    return y;
  }
  B* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& header) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black; // only the header is red
  if (left) {
    p->_M_left = x; // also sets leftmost when p is the header
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& header) throw() {
  B* y = z;
  B* x = nullptr;
  B* xp = nullptr;
  if (y->_M_left == nullptr) {
    x = y->_M_right;
  } else if (y->_M_right == nullptr) {
    x = y->_M_left;
  } else {
    y = y->_M_right;
    while (y->_M_left != nullptr) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x != nullptr) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else {
      xp = y;
    }
    if (header._M_parent == z) {
      header._M_parent = y;
    } else if (z->_M_parent->_M_left == z) {
      z->_M_parent->_M_left = y;
    } else {
      z->_M_parent->_M_right = y;
    }
    y->_M_parent = z->_M_parent;
  } else {
    xp = y->_M_parent;
    if (x != nullptr) x->_M_parent = y->_M_parent;
    if (header._M_parent == z) {
      header._M_parent = x;
    } else if (z->_M_parent->_M_left == z) {
      z->_M_parent->_M_left = x;
    } else {
      z->_M_parent->_M_right = x;
    }
    if (header._M_left == z) {
      if (z->_M_right == nullptr) {
        header._M_left = z->_M_parent;
      } else {
        header._M_left = B::_S_minimum(x);
      }
    }
    if (header._M_right == z) {
      if (z->_M_left == nullptr) {
        header._M_right = z->_M_parent;
      } else {
        header._M_right = B::_S_maximum(x);
      }
    }
  }
  return z;
}
} // namespace std
