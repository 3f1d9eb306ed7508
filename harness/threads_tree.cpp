// C05: the functions of libstdc++ that walk and rebalance red-black trees, compiled
// here with instrumentation so that their accesses are seen (the library has them
// precompiled).
#include <map>
namespace std {
typedef _Rb_tree_node_base N;
static N *next_(N *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    N *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static N *prev_(N *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
N *_Rb_tree_increment(N *x) throw() { return next_(x); }
const N *_Rb_tree_increment(const N *x) throw() { return next_(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return prev_(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return prev_(const_cast<N *>(x)); }
static void rot(N *x, N *&root, bool left) {
    N *y = left ? x->_M_right : x->_M_left;
    N *&in = left ? y->_M_left : y->_M_right;
    (left ? x->_M_right : x->_M_left) = in;
    if (in) in->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    in = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &header) throw() {
    N *&root = header._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x;
    } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        N *const g = x->_M_parent->_M_parent;
        const bool l = x->_M_parent == g->_M_left;
        N *const u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else {
            if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rot(x, root, l); }
            x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rot(g, root, !l);
        }
    }
    root->_M_color = _S_black;
}
}
