// What generated C++ code and its glue see before anything else. With SYM_IR the library's streams are replaced by
// small ones whose source is visible to the executor.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <istream>
#include <ostream>
#include <sstream>
#include <iostream>

extern "C" {
    struct Ctx { void *me; void (*shift)(void *, unsigned, unsigned); void (*reduce)(void *, unsigned); unsigned (*next)(void *); };
    struct LexCtx { void *me; const char *text; size_t len; bool (*out)(void *, unsigned, size_t, size_t); };
#ifdef SYM_IR
    unsigned __sym_try(unsigned (*f)(void *), void *x);
#else
    static unsigned __sym_try(unsigned (*f)(void *), void *x) {
        try { return f(x); } catch (const std::runtime_error &) { return 1; } catch (...) { return 2; }
    }
#endif
}
#if defined(SYM_IR) && defined(SYM_MAIN)
// the library's own definitions, as far as the executor needs them
template class std::basic_string<char>;
namespace std {
    inline __cow_string::__cow_string() {}
    runtime_error::runtime_error(const string &) {}
    runtime_error::runtime_error(const char *s) { (void)std::strlen(s); }
    runtime_error::~runtime_error() noexcept {}
    const char *runtime_error::what() const noexcept { return ""; }
    logic_error::logic_error(const string &) {}
    logic_error::logic_error(const char *s) { (void)std::strlen(s); }
    logic_error::~logic_error() noexcept {}
    const char *logic_error::what() const noexcept { return ""; }
    invalid_argument::invalid_argument(const string &s) : logic_error(s) {}
    invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
    invalid_argument::~invalid_argument() noexcept {}
    out_of_range::out_of_range(const string &s) : logic_error(s) {}
    out_of_range::out_of_range(const char *s) : logic_error(s) {}
    out_of_range::~out_of_range() noexcept {}
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : n | 1; }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b || b < 2) return {true, 2 * (e + i) + 13}; return {false, 0}; }
    }
    // an ordered tree that is never rebalanced
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
        if (&h == p) { h._M_parent = h._M_left = h._M_right = x; }
        else if (left) { p->_M_left = x; if (h._M_left == p) h._M_left = x; }
        else { p->_M_right = x; if (h._M_right == p) h._M_right = x; }
        h._M_color = _S_red;
    }
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
}
#endif
