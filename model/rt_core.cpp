// Runtime support for the symbolic executor: the parts of libc/libstdc++ that
// are not available as IR.  Compiled with -fno-access-control; engine only.
#include <cctype>
#include <cerrno>
#include <climits>
#include <clocale>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cwchar>
#include <exception>
#include <functional>
#include <future>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdio>
#include <ios>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <cxxabi.h>

extern "C" {
void vp_unwind(void* obj, const void* tinfo) __attribute__((noreturn));
uint64_t vp_thread_spawn(void (*fn)(void*), void* arg);
void vp_thread_join(uint64_t id);
void vp_thread_detach(uint64_t id);
int vp_cond_wait(void* c, void* m);
int vp_cond_notify_one(void* c);
int vp_cond_notify_all(void* c);
int vp_cond_destroy(void* c);
void vp_model_error(const char*);
long vp_futex(void* a, int op, unsigned v, int timed);
long syscall(long nr, ...) noexcept
{
    va_list ap;
    va_start(ap, nr);
    if (nr != 202) { vp_model_error("system call"); return -1; }
    void* a = va_arg(ap, void*);
    int op = va_arg(ap, int);
    unsigned v = va_arg(ap, unsigned);
    const bool wait = (op & 0x7f) == 0 || (op & 0x7f) == 9;
    void* to = wait ? va_arg(ap, void*) : nullptr;
    va_end(ap);
    long r = vp_futex(a, op, v, to != nullptr);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
}

// ------------------------------------------------------------ exceptions ABI
namespace {
struct ExcHdr { // placed just before the thrown object
    const std::type_info* ti; // at obj-32 (read by the engine)
    void (*dtor)(void*);
    uint32_t refs, handlers;
    ExcHdr* next;             // caught stack
};
static_assert(sizeof(ExcHdr) == 32);
thread_local ExcHdr* caught = nullptr;
thread_local int uncaught = 0;
inline ExcHdr* hdr(void* o) { return (ExcHdr*)((char*)o - 32); }
inline void* obj(ExcHdr* h) { return (char*)h + 32; }
void release(ExcHdr* h)
{
    if (--h->refs == 0) {
        if (h->dtor) h->dtor(obj(h));
        free(h);
    }
}
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept
{
    char* p = (char*)malloc(n + 32);
    memset(p, 0, 32);
    return p + 32;
}
void __cxa_free_exception(void* o) noexcept { free((char*)o - 32); }
void* vp_init_exception(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept __asm__("__cxa_init_primary_exception");
void* vp_init_exception(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept
{
    ExcHdr* h = hdr(o);
    h->ti = ti; h->dtor = dtor; h->refs = 0; h->handlers = 0;
    return h;
}
void __cxa_throw(void* o, std::type_info* ti, void (*dtor)(void*))
{
    ExcHdr* h = hdr(o);
    h->ti = ti; h->dtor = dtor; h->refs = 1; h->handlers = 0;
    uncaught++;
    vp_unwind(o, ti);
}
void* __cxa_get_exception_ptr(void* o) noexcept { return o; }
void* __cxa_begin_catch(void* o) noexcept
{
    ExcHdr* h = hdr(o);
    if (h->handlers == 0 || caught != h) { h->next = caught; caught = h; }
    h->handlers++;
    uncaught--;
    return o;
}
void __cxa_end_catch()
{
    ExcHdr* h = caught;
    if (!h) return;
    uint32_t rethrown = h->handlers & 0x80000000u;
    uint32_t n = (h->handlers & 0x7fffffffu) - 1;
    h->handlers = n | rethrown;
    if (n == 0) {
        caught = h->next;
        if (rethrown) h->handlers = 0;
        else release(h);
    }
}
void __cxa_rethrow()
{
    ExcHdr* h = caught;
    if (!h) std::terminate();
    h->handlers |= 0x80000000u;
    uncaught++;
    vp_unwind(obj(h), h->ti);
}
void __cxa_bad_cast() { throw std::bad_cast(); }
void vp_no_memory() { throw std::bad_alloc(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __gxx_personality_v0() { return 0; }
void __cxa_call_unexpected(void*) { std::terminate(); }

extern const void* vp_si_vtable();
void* vp_dynamic_cast(const void* src, const void*, const void* dst, ptrdiff_t) __asm__("__dynamic_cast");
void* vp_dynamic_cast(const void* src, const void*, const void* dst, ptrdiff_t)
{
    const void* const* vt = *(const void* const* const*)src;
    ptrdiff_t top = ((const ptrdiff_t*)vt)[-2];
    const void* ti = vt[-1];
    // single inheritance chain; the complete object's type or one of its bases
    const void* full = (const char*)src + top;
    for (int i = 0; i < 20; i++) {
        if (ti == dst) return (void*)full;
        const void* kind = *(const void* const*)ti;
        if (kind != vp_si_vtable()) return nullptr;
        ti = ((const void* const*)ti)[2];
    }
    return nullptr;
}
}
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" const void* vp_si_vtable() { return _ZTVN10__cxxabiv120__si_class_type_infoE + 16; }

namespace std {
int uncaught_exceptions() noexcept { return uncaught; }
bool uncaught_exception() noexcept { return uncaught > 0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { release(hdr(_M_exception_object)); _M_exception_object = nullptr; } }
}
exception_ptr current_exception() noexcept { return caught ? exception_ptr(obj(caught)) : exception_ptr(); }
void rethrow_exception(exception_ptr p)
{
    ExcHdr* h = hdr(p._M_exception_object);
    h->refs++;
    uncaught++;
    vp_unwind(obj(h), h->ti);
}

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void**, unsigned) const { return this == t; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// reference-counted message strings of the standard exceptions
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
__cow_string::__cow_string(const char* s, size_t n)
{
    char* p = (char*)malloc(n + 1 + 8);
    *(uint64_t*)p = 1;
    memcpy(p + 8, s, n);
    p[8 + n] = 0;
    _M_p = p + 8;
}
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; if (_M_p) ++*(uint64_t*)(_M_p - 8); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    __cow_string t(o);
    const char* x = _M_p; _M_p = t._M_p; t._M_p = x;
    return *this;
}
__cow_string::~__cow_string() { if (_M_p && --*(uint64_t*)(_M_p - 8) == 0) free((void*)(_M_p - 8)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* x = _M_p; _M_p = o._M_p; o._M_p = x; return *this; }

#define EXC(T, B)                                                              \
    T::T(const string& s) : B(s) {}                                            \
    T::T(const char* s) : B(s) {}                                              \
    T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { std::terminate(); }

// error categories
namespace {
struct cat : error_category {
    const char* n;
    constexpr cat(const char* x) : n(x) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return "error"; }
};
const cat gen("generic"), sysc("system");
}
error_category::~error_category() {}
const error_category& _V2::generic_category() noexcept { return gen; }
const error_category& _V2::system_category() noexcept { return sysc; }
error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; }
bool error_category::equivalent(const error_code& c, int e) const noexcept { return *this == c.category() && c.value() == e; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}

// ------------------------------------------------------------ containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
        auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = { 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043 };
    for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n | 1;
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins > 11 || _M_next_resize ? elt + ins : 11;
        if (want >= bkt) return { true, _M_next_bkt(std::max(want + 1, bkt * 2)) };
        _M_next_resize = bkt;
    }
    return { false, 0 };
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    size_t h = seed ^ 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 0x100000001b3ULL;
    return h;
}

static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        auto* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        auto* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        auto* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    auto* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    auto* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto* g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            auto* y = g->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
            }
        } else {
            auto* y = g->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
    _Rb_tree_node_base*&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                auto* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotl(xp, root); break;
                }
            } else {
                auto* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotr(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

// ------------------------------------------------------------ threads
thread::_State::~_State() = default;
extern "C" void vp_thread_entry(void* p)
{
    unique_ptr<thread::_State> s((thread::_State*)p);
    s->_M_run();
}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((__gthread_t)vp_thread_spawn(vp_thread_entry, s.release())); }
void thread::join()
{
    if (_M_id == id()) __throw_system_error(EINVAL);
    vp_thread_join((uint64_t)_M_id._M_thread);
    _M_id = id();
}
void thread::detach()
{
    if (_M_id == id()) __throw_system_error(EINVAL);
    vp_thread_detach((uint64_t)_M_id._M_thread);
    _M_id = id();
}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { vp_cond_destroy(this); }
void condition_variable::wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vp_cond_notify_one(this); }
void condition_variable::notify_all() noexcept { vp_cond_notify_all(this); }
namespace __detail { }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __num_base::_S_format_float(const ios_base&, char* f, char) throw() { f[0] = '%'; f[1] = 'g'; f[2] = 0; }
void __throw_future_error(int e) { throw runtime_error("future error"); }
// call_once: the library's thread-local hand-over
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void) { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return vp_futex(a, 0, v, timed) != -110; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return vp_futex(a, 0, v, timed) != -110; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { vp_futex(a, 1, 0x7fffffff, 0); }

} // namespace std
extern "C" {
// 0: new, 1: running, 2: done
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    int* st = (int*)o;
    for (;;) {
        int z = 0;
        if (__atomic_compare_exchange_n(st, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) break;
        if (z == 2) return 0;
        vp_futex(st, 0, 1, 0);
    }
    try {
        f();
    } catch (...) {
        __atomic_store_n(st, 0, __ATOMIC_RELEASE);
        vp_futex(st, 1, 0x7fffffff, 0);
        throw;
    }
    __atomic_store_n(st, 2, __ATOMIC_RELEASE);
    vp_futex(st, 1, 0x7fffffff, 0);
    return 0;
}
// readers and writers: a mutex and a condition keyed by addresses inside the lock
static int* rw_state(pthread_rwlock_t* l) { return (int*)((char*)l + 40); }
static void* rw_cond(pthread_rwlock_t* l) { return (char*)l + 48; }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool w, bool block)
{
    pthread_mutex_lock((pthread_mutex_t*)l);
    while (w ? *rw_state(l) != 0 : *rw_state(l) < 0) {
        if (!block) {
            pthread_mutex_unlock((pthread_mutex_t*)l);
            return EBUSY;
        }
        vp_cond_wait(rw_cond(l), l);
    }
    *rw_state(l) += w ? -1 : 1;
    pthread_mutex_unlock((pthread_mutex_t*)l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    pthread_mutex_lock((pthread_mutex_t*)l);
    int& s = *rw_state(l);
    s += s < 0 ? 1 : -1;
    vp_cond_notify_all(rw_cond(l));
    pthread_mutex_unlock((pthread_mutex_t*)l);
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) { *(unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { __atomic_fetch_add((unsigned*)s, 1, __ATOMIC_RELEASE); vp_futex(s, 1, 0x7fffffff, 0); return 0; }
int sem_trywait(sem_t* s)
{
    unsigned v = __atomic_load_n((unsigned*)s, __ATOMIC_ACQUIRE);
    while (v)
        if (__atomic_compare_exchange_n((unsigned*)s, &v, v - 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return 0;
    errno = EAGAIN;
    return -1;
}
int sem_wait(sem_t* s)
{
    while (sem_trywait(s)) vp_futex(s, 0, 0, 0);
    return 0;
}
locale_t __uselocale(locale_t) noexcept { return (locale_t)0; }
locale_t uselocale(locale_t) noexcept { return (locale_t)0; }
// integers, characters and strings only
int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept
{
    size_t k = 0;
    auto put = [&](char c) { if (k + 1 < n) b[k] = c; ++k; };
    for (; *f; ++f) {
        if (*f != '%') { put(*f); continue; }
        ++f;
        if (*f == '%') { put('%'); continue; }
        bool left = false, zero = false, plus = false;
        for (;; ++f) {
            if (*f == '-') left = true;
            else if (*f == '0') zero = true;
            else if (*f == '+') plus = true;
            else if (*f != ' ' && *f != '#') break;
        }
        int width = 0, prec = -1, lng = 0;
        if (*f == '*') { width = va_arg(ap, int); ++f; }
        else for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + *f - '0';
        if (*f == '.') {
            prec = 0;
            ++f;
            if (*f == '*') { prec = va_arg(ap, int); ++f; }
            else for (; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + *f - '0';
        }
        for (;; ++f) {
            if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1;
            else if (*f != 'h') break;
        }
        char t[32];
        const char* s = t;
        int len = 0;
        if (*f == 's') {
            s = va_arg(ap, const char*);
            while ((prec < 0 || len < prec) && s[len]) ++len;
            zero = false;
        } else if (*f == 'c') {
            t[0] = (char)va_arg(ap, int);
            len = 1;
        } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') {
            uint64_t v;
            bool neg = false;
            if (*f == 'p') v = (uint64_t)va_arg(ap, void*);
            else if (*f == 'd' || *f == 'i') {
                int64_t x = lng ? va_arg(ap, int64_t) : va_arg(ap, int);
                neg = x < 0;
                v = neg ? 0 - (uint64_t)x : x;
            } else v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            unsigned base = *f == 'o' ? 8 : *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
            char* e = t + 32;
            do *--e = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base];
            while (v /= base);
            while (t + 32 - e < prec && e > t + 2) *--e = '0';
            if (neg) *--e = '-';
            else if (plus) *--e = '+';
            s = e;
            len = t + 32 - e;
        } else if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'F' || *f == 'G' || *f == 'E') {
            (void)va_arg(ap, double); // (the text of a real number is not modelled)
            s = "1.5";
            len = 3;
        } else {
            vp_model_error("vsnprintf: a conversion that is not modelled");
            break;
        }
        if (!left && !zero) for (int i = len; i < width; ++i) put(' ');
        if (!left && zero) {
            if (len && (*s == '-' || *s == '+')) { put(*s++); --len; --width; }
            for (int i = len; i < width; ++i) put('0');
        }
        for (int i = 0; i < len; ++i) put(s[i]);
        if (left) for (int i = len; i < width; ++i) put(' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char* b, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, SIZE_MAX / 2, f, ap);
    va_end(ap);
    return r;
}
}

unsigned vp_hw_threads = 4;
unsigned std::thread::hardware_concurrency() noexcept { return vp_hw_threads; }

// ------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
void* vp_memchr(const void* p, int c, size_t n) { auto* s = (const unsigned char*)p; for (; n; --n, ++s) if (*s == (unsigned char)c) return (void*)s; return nullptr; }
void* vp_f_memchr(const void* p, int c, size_t n) noexcept __asm__("memchr");
void* vp_f_memchr(const void* p, int c, size_t n) noexcept { return vp_memchr(p, c, n); }
char* vp_f_strchr(const char* s, int c) noexcept __asm__("strchr");
char* vp_f_strchr(const char* s, int c) noexcept { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* vp_f_strrchr(const char* s, int c) noexcept __asm__("strrchr");
char* vp_f_strrchr(const char* s, int c) noexcept { char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* vp_f_strstr(const char* h, const char* n) noexcept __asm__("strstr");
char* vp_f_strstr(const char* h, const char* n) noexcept { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
size_t strnlen(const char* s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* strdup(const char* s) noexcept { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
int isspace(int c) noexcept { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) noexcept { return (c >= '0') & (c <= '9'); }
int isalpha(int c) noexcept { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) noexcept { return isdigit(c) | isalpha(c); }
int isupper(int c) noexcept { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) noexcept { return (c >= 'a') & (c <= 'z'); }
int iscntrl(int c) noexcept { return ((c >= 0) & (c < 32)) | (c == 127); }
int isprint(int c) noexcept { return (c >= 32) & (c < 127); }
int isxdigit(int c) noexcept { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int ispunct(int c) noexcept { return isprint(c) & (c != ' ') & !isalnum(c); }
int isblank(int c) noexcept { return (c == ' ') | (c == '\t'); }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
static int vp_errno_;
int* __errno_location() noexcept { return &vp_errno_; }
char* strerror(int) noexcept { static char m[] = "error"; return m; }
struct lconv* localeconv() noexcept
{
    static struct lconv l;
    static char dot[] = ".", none[] = "";
    l.decimal_point = dot; l.thousands_sep = none; l.grouping = none;
    return &l;
}
static unsigned long long vp_strtou(const char* s, char** e, int base, bool* neg)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    *neg = false;
    if (*p == '-' || *p == '+') { *neg = *p == '-'; ++p; }
    if (base == 0) { base = 10; if (*p == '0') { base = 8; if (p[1] == 'x' || p[1] == 'X') { base = 16; p += 2; } } }
    unsigned long long v = 0;
    const char* st = p;
    for (;; ++p) {
        int d;
        if (*p >= '0' && *p <= '9') d = *p - '0';
        else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if (d >= base) break;
        unsigned long long nv;
        if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &v)) { vp_errno_ = ERANGE; v = ~0ULL; }
    }
    if (e) *e = (char*)(p == st ? s : p);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int b) noexcept { bool n; unsigned long long v = vp_strtou(s, e, b, &n); return n ? 0 - v : v; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return strtoull(s, e, b); }
long long strtoll(const char* s, char** e, int b) noexcept
{
    bool n; unsigned long long v = vp_strtou(s, e, b, &n);
    if (v > (unsigned long long)LLONG_MAX + n) { vp_errno_ = ERANGE; return n ? LLONG_MIN : LLONG_MAX; }
    return n ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int b) noexcept { return strtoll(s, e, b); }
long lround(double x) noexcept { return (long)__builtin_round(x); }
long long llround(double x) noexcept { return (long long)__builtin_round(x); }
long lrint(double x) noexcept { return (long)__builtin_rint(x); }
long long llrint(double x) noexcept { return (long long)__builtin_rint(x); }
int puts(const char*) { return 1; }
int printf(const char*, ...) { return 1; }
int fprintf(FILE*, const char*, ...) { return 1; }
int fputs(const char*, FILE*) { return 1; }
void qsort(void* b, size_t n, size_t w, int (*f)(const void*, const void*))
{
    char* p = (char*)b;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j && f(p + (j - 1) * w, p + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; }
}
long sysconf(int) noexcept { return 4096; }
char* getenv(const char*) noexcept { return nullptr; }
}

extern "C" void vp_cow_message() __asm__("_ZNKSt3_V214error_category10_M_messageB5cxx11Ei");
extern "C" void vp_cow_message() { vp_model_error("old-ABI error message"); }
#include <chrono>
#include <ctime>
// (time passes whenever it is asked for)
extern "C" void vp_env_enter();
extern "C" void vp_env_leave();
static long vp_tick()
{
    static long t;
    vp_env_enter();
    long r = t += 1'000'000;
    vp_env_leave();
    return r;
}
namespace std {
chrono::system_clock::time_point chrono::_V2::system_clock::now() noexcept { return time_point(duration(1'700'000'000'000'000'000 + vp_tick())); }
chrono::steady_clock::time_point chrono::_V2::steady_clock::now() noexcept { return time_point(duration(1'000'000'000 + vp_tick())); }
}
extern "C" time_t time(time_t* t) noexcept { time_t r = 1'700'000'000; if (t) *t = r; return r; }
extern "C" struct tm* localtime_r(const time_t*, struct tm* t) noexcept
{
    memset(t, 0, sizeof *t);
    t->tm_year = 123;
    t->tm_mday = 1;
    return t;
}
extern "C" struct tm* gmtime_r(const time_t* c, struct tm* t) noexcept { return localtime_r(c, t); }
