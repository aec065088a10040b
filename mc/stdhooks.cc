// Parts of the C++ library that live in libstdc++.so, where their memory accesses are not
// instrumented, brought into the instrumented program (sched mode only).
#include <list>
#include <map>
#include <dlfcn.h>
#define NT __attribute__((no_sanitize("thread")))
namespace std _GLIBCXX_VISIBILITY(default) {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = this->_M_next; auto p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        auto t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
}
// The tree algorithms themselves stay in the library; what they write is marked as written.
static void touch(_Rb_tree_node_base* n) { if (!n) return; _Rb_tree_node_base* p = n->_M_parent; asm volatile("" : "+r"(p)); n->_M_parent = p; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    typedef void (*F)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
    static F real; if (!real) real = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    touch(&h); touch(p); real(left, x, p, h); touch(x);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    typedef _Rb_tree_node_base* (*F)(_Rb_tree_node_base*, _Rb_tree_node_base&);
    static F real; if (!real) real = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    touch(&h); touch(z); touch(z->_M_parent); return real(z, h);
}
}
