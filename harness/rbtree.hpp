// std::map's out-of-line tree functions live in libstdc++.so, where the engine cannot see their memory
// accesses. These replace them in the harness library (by the linker's --wrap). The tree is not rebalanced,
// which changes no result.
#pragma once
#include <map>
extern "C"
{
#define RBH __attribute__((visibility("hidden")))
typedef std::_Rb_tree_node_base RbN;
RBH RbN *mc_rb_inc(RbN *x)
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    RbN *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
RBH RbN *mc_rb_dec(RbN *x)
{
    if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left)
    {
        RbN *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    RbN *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
RBH RbN *__wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RbN *x) { return mc_rb_inc(x); }
RBH const RbN *__wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const RbN *x) { return mc_rb_inc((RbN *)x); }
RBH RbN *__wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RbN *x) { return mc_rb_dec(x); }
RBH const RbN *__wrap__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const RbN *x) { return mc_rb_dec((RbN *)x); }
RBH void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RbN *x, RbN *p, RbN &h)
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = std::_S_black;
    if (left)
    {
        p->_M_left = x; // also the leftmost node when p is the header
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
RBH RbN *__wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbN *z, RbN &h)
{
    RbN *next = nullptr, *prev = nullptr;
    if (h._M_left == z) next = mc_rb_inc(z);
    if (h._M_right == z) prev = h._M_left == z ? &h : mc_rb_dec(z);
    if (next) h._M_left = next;
    if (prev) h._M_right = prev;
    auto put = [&](RbN *n)
    {
        if (h._M_parent == z) h._M_parent = n;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n;
        else z->_M_parent->_M_right = n;
        if (n) n->_M_parent = z->_M_parent;
    };
    if (!z->_M_left) put(z->_M_right);
    else if (!z->_M_right) put(z->_M_left);
    else
    {
        RbN *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right)
        {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
        put(y);
    }
    return z;
}
}
