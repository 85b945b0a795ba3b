// Runtime pieces that libstdc++ ships only as binary code, for the symbolic build.
#define QKV_RT
#include "qkv_stream.h"
#include <map>
#include <vector>
#include <stdexcept>
template class std::basic_string<char>;
namespace std {
// in-order iteration is all std::map promises; no balancing is modelled
static _Rb_tree_node_base * inc(_Rb_tree_node_base * x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base * y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base * dec_(_Rb_tree_node_base * x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x && x->_M_parent->_M_color == _S_black && 0) return x->_M_right;
    // header: its parent's parent is itself and its colour is red (set at construction)
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        _Rb_tree_node_base * y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base * y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) throw() { return inc(x); }
const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) throw() { return dec_(x); }
const _Rb_tree_node_base * _Rb_tree_decrement(const _Rb_tree_node_base * x) throw() { return dec_(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h) throw()
{
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;   // only the header is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & h) throw()
{
    _Rb_tree_node_base * nl = z == h._M_left ? inc(z) : 0;
    _Rb_tree_node_base * nr = z == h._M_right ? dec_(z) : 0;
    _Rb_tree_node_base * r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else {
        // hang the left subtree under the leftmost of the right one
        r = z->_M_right;
        _Rb_tree_node_base * m = r;
        while (m->_M_left) m = m->_M_left;
        m->_M_left = z->_M_left;
        z->_M_left->_M_parent = m;
    }
    _Rb_tree_node_base * p = z->_M_parent;
    if (r) r->_M_parent = p;
    if (p == &h) h._M_parent = r;
    else if (p->_M_left == z) p->_M_left = r;
    else p->_M_right = r;
    if (nl) h._M_left = nl;
    if (nr) h._M_right = nr;
    return z;
}
}
