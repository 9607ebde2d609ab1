// Reference definitions of the out-of-line parts of libstdc++ (verifier only).
#ifndef VP_STD_MODEL
#define VP_STD_MODEL
#ifndef VP_NATIVE
#include <map>
#include <list>
#include <unordered_map>
namespace std
{
// ordered containers: a binary search tree, not rebalanced (balance is not observable)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
{
   x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
   if (left)
   {
      p->_M_left = x;
      if (p == &header) { header._M_parent = x; header._M_right = x; }
      else if (p == header._M_left) { header._M_left = x; }
   }
   else
   {
      p->_M_right = x;
      if (p == header._M_right) { header._M_right = x; }
   }
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
   if (x->_M_right != 0)
   {
      x = x->_M_right;
      while (x->_M_left != 0) { x = x->_M_left; }
   }
   else
   {
      _Rb_tree_node_base *y = x->_M_parent;
      while (x == y->_M_right) { x = y; y = y->_M_parent; }
      if (x->_M_right != y) { x = y; }
   }
   return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
   if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) { return x->_M_right; }
   if (x->_M_left != 0)
   {
      _Rb_tree_node_base *y = x->_M_left;
      while (y->_M_right != 0) { y = y->_M_right; }
      return y;
   }
   _Rb_tree_node_base *y = x->_M_parent;
   while (x == y->_M_left) { x = y; y = y->_M_parent; }
   return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
{
   _Rb_tree_node_base *&root = header._M_parent;
   if (header._M_left == z) { header._M_left = z->_M_right ? z->_M_right : z->_M_parent; if (z->_M_right) { while (header._M_left->_M_left) { header._M_left = header._M_left->_M_left; } } }
   if (header._M_right == z) { header._M_right = z->_M_left ? z->_M_left : z->_M_parent; if (z->_M_left) { while (header._M_right->_M_right) { header._M_right = header._M_right->_M_right; } } }
   _Rb_tree_node_base *r;
   if (z->_M_left == 0) { r = z->_M_right; }
   else if (z->_M_right == 0) { r = z->_M_left; }
   else
   {
      _Rb_tree_node_base *y = z->_M_right;
      while (y->_M_left != 0) { y = y->_M_left; }
      if (y != z->_M_right)
      {
         y->_M_parent->_M_left = y->_M_right;
         if (y->_M_right) { y->_M_right->_M_parent = y->_M_parent; }
         y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
      }
      y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
      r = y;
   }
   if (r) { r->_M_parent = z->_M_parent; }
   if (root == z) { root = r; }
   else if (z->_M_parent->_M_left == z) { z->_M_parent->_M_left = r; }
   else { z->_M_parent->_M_right = r; }
   return z;
}
// lists
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
   this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
   _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
   if (this != last)
   {
      last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
      _List_node_base *const t = this->_M_prev;
      this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
   }
}
// hash tables: one fixed number of buckets
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
   if (n_bkt < 13) { return {true, 13}; }
   return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
   size_t h = seed;
   const unsigned char *c = (const unsigned char *)p;
   for (size_t i = 0; i < n; i++) { h = (h ^ c[i]) * 16777619u % 4294967291u; }
   return h;
}
}  // namespace std
#endif
#endif
