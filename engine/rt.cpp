// Bitcode runtime: the parts of libstdc++ that live in the binary library, re-expressed in C++ so that they can be encoded.
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <system_error>
#include <map>
#include <list>
#include <unordered_map>
#include <string>
#include <cstring>
#include <cstdlib>
#include <variant>
#include <optional>
#include <future>
extern "C" { void* __dso_handle = nullptr; char __libc_single_threaded = 1; }
extern "C" { div_t div(int a, int b) { return {a / b, a % b}; } ldiv_t ldiv(long a, long b) { return {a / b, a % b}; } lldiv_t lldiv(long long a, long long b) { return {a / b, a % b}; } }
namespace std {
    exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
    type_info::~type_info() {}
    bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
    static char* dupstr(const char* s, size_t n) { char* r = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
    __cow_string::__cow_string() : _M_p(nullptr) { _M_p = dupstr("", 0); }
    __cow_string::__cow_string(const string& s) : _M_p(dupstr(s.data(), s.size())) {}
    __cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
    __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); return *this; }
    __cow_string::~__cow_string() {}
    __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
    __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); return *this; }
#define EXC(base) base::base(const string& s) : _M_msg(s) {} base::base(const char* s) : _M_msg(s, strlen(s)) {} base::~base() noexcept {} const char* base::what() const noexcept { return _M_msg._M_p; } \
    base::base(const base& o) noexcept : exception(), _M_msg(o._M_msg) {} base& base::operator=(const base& o) noexcept { _M_msg = o._M_msg; return *this; } base::base(base&& o) noexcept : _M_msg(o._M_msg) {} base& base::operator=(base&& o) noexcept { _M_msg = o._M_msg; return *this; }
    EXC(logic_error) EXC(runtime_error)
#define DER(T, base) T::T(const string& s) : base(s) {} T::T(const char* s) : base(s) {} T::~T() noexcept {}
    DER(domain_error, logic_error) DER(invalid_argument, logic_error) DER(length_error, logic_error) DER(out_of_range, logic_error)
    DER(range_error, runtime_error) DER(overflow_error, runtime_error) DER(underflow_error, runtime_error)
    void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }
    void __throw_future_error(int) { throw runtime_error("future_error"); }

    // ---- red-black tree
    static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) noexcept {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
        else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
    static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) noexcept {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
        else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
    static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
    static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
        _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red) {
            auto* xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left) { auto* y = xpp->_M_right;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
            else { auto* y = xpp->_M_left;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } }
        }
        root->_M_color = _S_black; }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
        _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
        if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
            if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
            if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
        else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
            if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
        if (y->_M_color != _S_red) {
            while (x != root && (!x || x->_M_color == _S_black))
                if (x == xp->_M_left) { auto* w = xp->_M_right;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                    if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
                else { auto* w = xp->_M_left;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                    if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
            if (x) x->_M_color = _S_black; }
        return y; }
    // ---- list
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
            if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
                else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
            else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
        // ---- hashing (bucket counts only influence iteration order)
        static const size_t primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return 1447153; }
        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
            if (ne + ni > _M_next_resize) { size_t mn = ne + ni; if (!_M_next_resize && mn < 11) mn = 11; size_t bk = (size_t)((double)mn / _M_max_load_factor);
                if (bk >= nb) { size_t want = bk + 1 > nb * 2 ? bk + 1 : nb * 2; return {true, _M_next_bkt(want)}; } _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; }
            return {false, 0}; }
    }
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 0x9E3779B97F4A7C15ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; } return h; }
}
