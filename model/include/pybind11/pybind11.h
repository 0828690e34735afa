// A model of the part of pybind11 that a binding uses: Python objects are
// reference-counted cells, a class is a table of constructors, methods and
// properties, and harness code plays the Python program.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>

typedef const char* PyObject_Exc;
inline PyObject_Exc PyExc_RuntimeError = "RuntimeError", PyExc_ValueError = "ValueError", PyExc_TypeError = "TypeError", PyExc_IndexError = "IndexError",
    PyExc_OSError = "OSError", PyExc_IOError = "OSError", PyExc_KeyError = "KeyError", PyExc_Exception = "Exception", PyExc_MemoryError = "MemoryError", PyExc_OverflowError = "OverflowError";

namespace pybind11 {
typedef ::ssize_t ssize_t;
typedef std::size_t size_t;
inline std::string err_type, err_text;
}
inline void PyErr_SetString(PyObject_Exc t, const char* m)
{
    pybind11::err_type = t;
    pybind11::err_text = m;
}
inline void* PyErr_Occurred() { return pybind11::err_type.empty() ? nullptr : (void*)&pybind11::err_type; }
inline void PyErr_Clear() { pybind11::err_type.clear(); }

namespace pybind11 {
struct error_already_set : std::exception {
    const char* what() const noexcept override { return "a Python exception is set"; }
};
inline void set_error(PyObject_Exc t, const char* m) { PyErr_SetString(t, m); }
struct builtin_exception : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct cast_error : builtin_exception {
    cast_error() : builtin_exception("Unable to cast") {}
    explicit cast_error(const std::string& s) : builtin_exception(s) {}
};
struct reference_cast_error : cast_error {
    using cast_error::cast_error;
};
#define VP_PY_EXC(n)                                 \
    struct n : builtin_exception {                   \
        explicit n(const std::string& s = "") : builtin_exception(s) {} \
    };
VP_PY_EXC(value_error)
VP_PY_EXC(type_error)
VP_PY_EXC(index_error)
VP_PY_EXC(key_error)
VP_PY_EXC(import_error)
VP_PY_EXC(attribute_error)
VP_PY_EXC(buffer_error)
VP_PY_EXC(stop_iteration)
#undef VP_PY_EXC

namespace detail {
template<class T>
struct tag {
    static inline char id;
};
template<class T>
struct is_opaque : std::false_type {};
template<class T>
struct is_vector : std::false_type {};
template<class T>
struct is_vector<std::vector<T>> : std::true_type {};
template<class T>
struct is_optional : std::false_type {};
template<class T>
struct is_optional<std::optional<T>> : std::true_type {};
} // namespace detail

enum class Kind { None, Bool, Int, Float, Str, Inst, List, Array, Flags, Call, Module };
struct Cell;
typedef std::shared_ptr<Cell> Ref;
struct Cell {
    Kind kind;
    long long i = 0;
    double f = 0;
    std::string s;
    void* tag = nullptr;                              // Inst: which class
    std::shared_ptr<void> inst;
    std::vector<Ref> list;                            // List
    std::map<std::string, Ref> extra;                 // attributes of a dynamic_attr object
    std::vector<ssize_t> shape, strides;              // Array
    ssize_t itemsize = 1;
    unsigned char* data = nullptr;
    std::shared_ptr<void> base;
    std::function<Ref(std::vector<Ref>)> call;
    explicit Cell(Kind k) : kind(k) {}
};
inline Ref none_cell() { return std::make_shared<Cell>(Kind::None); }
inline bool c_contiguous(const Cell& a)
{
    ssize_t want = a.itemsize;
    for (ssize_t e : a.shape)
        if (e == 0) return true;
    for (std::size_t k = a.shape.size(); k-- > 0;) {
        if (a.shape[k] != 1 && a.strides[k] != want) return false;
        want *= a.shape[k];
    }
    return true;
}
inline bool f_contiguous(const Cell& a)
{
    ssize_t want = a.itemsize;
    for (ssize_t e : a.shape)
        if (e == 0) return true;
    for (std::size_t k = 0; k < a.shape.size(); ++k) {
        if (a.shape[k] != 1 && a.strides[k] != want) return false;
        want *= a.shape[k];
    }
    return true;
}
// a copy with the elements in row-major (or column-major) order
inline Ref packed(const Cell& a, bool column_major = false)
{
    auto r = std::make_shared<Cell>(Kind::Array);
    r->shape = a.shape;
    r->strides.resize(a.shape.size());
    r->itemsize = a.itemsize;
    r->s = a.s;
    ssize_t n = a.itemsize;
    for (std::size_t j = 0; j < a.shape.size(); ++j) {
        const std::size_t k = column_major ? j : a.shape.size() - 1 - j;
        r->strides[k] = n;
        n *= a.shape[k];
    }
    std::shared_ptr<unsigned char> m((unsigned char*)::operator new(n ? n : 1), [](unsigned char* p) { ::operator delete(p); });
    r->data = m.get();
    r->base = m;
    std::vector<ssize_t> at(a.shape.size(), 0);
    for (ssize_t left = n / (a.itemsize ? a.itemsize : 1); left > 0; --left) {
        const unsigned char* from = a.data;
        unsigned char* to = r->data;
        for (std::size_t k = 0; k < at.size(); ++k) {
            from += at[k] * a.strides[k];
            to += at[k] * r->strides[k];
        }
        for (ssize_t b = 0; b < a.itemsize; ++b) to[b] = from[b];
        for (std::size_t k = at.size(); k-- > 0;) {
            if (++at[k] < a.shape[k]) break;
            at[k] = 0;
        }
    }
    return r;
}

class object;
struct attr_accessor;
class handle {
  public:
    Ref p;
    handle() = default;
    handle(std::nullptr_t) {}
    explicit handle(Ref r) : p(std::move(r)) {}
    bool is_none() const { return p && p->kind == Kind::None; }
    explicit operator bool() const { return (bool)p; }
    bool is(const handle& o) const { return p == o.p || (is_none() && o.is_none()); }
    template<class T>
    T cast() const;
    const handle& inc_ref() const { return *this; }
    const handle& dec_ref() const { return *this; }
    Cell* ptr() const { return p.get(); }
    inline attr_accessor attr(const char* n) const;
    template<class... A>
    object operator()(A&&... a) const;
};
class object : public handle {
  public:
    using handle::handle;
    object() = default;
    object(const handle& h) : handle(h) {}
    handle release()
    {
        handle h(p);
        p.reset();
        return h;
    }
};
template<class T>
T reinterpret_borrow(handle h)
{
    T t;
    t.p = h.p;
    return t;
}
template<class T>
T reinterpret_steal(handle h)
{
    return reinterpret_borrow<T>(h);
}
class none : public object {
  public:
    none() { p = none_cell(); }
};
class str : public object {
  public:
    str() : str("") {}
    str(const char* s) { p = std::make_shared<Cell>(Kind::Str), p->s = s; }
    str(const std::string& s) { p = std::make_shared<Cell>(Kind::Str), p->s = s; }
    operator std::string() const { return p->s; }
};
class bool_ : public object {
  public:
    bool_(bool b = false) { p = std::make_shared<Cell>(Kind::Bool), p->i = b; }
    operator bool() const { return p->i; }
};
class int_ : public object {
  public:
    int_(long long v = 0) { p = std::make_shared<Cell>(Kind::Int), p->i = v; }
};
class list : public object {
  public:
    list() { p = std::make_shared<Cell>(Kind::List); }
    template<class T>
    void append(T&& v);
    std::size_t size() const { return p->list.size(); }
    object operator[](std::size_t i) const { return object(p->list.at(i)); }
};
class array;

namespace detail {
template<class T, class = void>
struct conv {                                        // a registered class
    static T& load(const Ref& r)
    {
        if (!r || r->kind != Kind::Inst || r->tag != &tag<T>::id) throw cast_error();
        return *(T*)r->inst.get();
    }
    static Ref store(T v)
    {
        auto c = std::make_shared<Cell>(Kind::Inst);
        c->tag = &tag<T>::id;
        c->inst = std::make_shared<T>(std::move(v));
        return c;
    }
};
template<>
struct conv<bool> {
    static bool load(const Ref& r)
    {
        if (!r) throw cast_error();
        if (r->kind == Kind::Bool || r->kind == Kind::Int) return r->i != 0;
        if (r->kind == Kind::None) return false;
        throw cast_error();
    }
    static Ref store(bool v) { return bool_(v).p; }
};
template<class T>
struct conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static T load(const Ref& r)
    {
        if (!r || (r->kind != Kind::Int && r->kind != Kind::Bool)) throw cast_error();
        const long long v = r->i;
        if constexpr (std::is_unsigned_v<T>) {
            if (v < 0) throw cast_error();
            if constexpr (sizeof(T) < 8)
                if (v > (long long)(T)~(T)0) throw cast_error();
        } else if constexpr (sizeof(T) < 8) {
            if (v != (long long)(T)v) throw cast_error();
        }
        return (T)v;
    }
    static Ref store(T v) { return int_((long long)v).p; }
};
template<class T>
struct conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static T load(const Ref& r)
    {
        if (!r || (r->kind != Kind::Int && r->kind != Kind::Float)) throw cast_error();
        return r->kind == Kind::Int ? (T)r->i : (T)r->f;
    }
    static Ref store(T v)
    {
        auto c = std::make_shared<Cell>(Kind::Float);
        c->f = v;
        return c;
    }
};
template<>
struct conv<std::string> {
    static std::string load(const Ref& r)
    {
        if (!r || r->kind != Kind::Str) throw cast_error();
        return r->s;
    }
    static Ref store(const std::string& v) { return str(v).p; }
};
template<>
struct conv<std::string_view> {
    static std::string_view load(const Ref& r)
    {
        if (!r || r->kind != Kind::Str) throw cast_error();
        return r->s;
    }
    static Ref store(std::string_view v) { return str(std::string(v)).p; }
};
template<>
struct conv<const char*> {
    static const char* load(const Ref& r)
    {
        if (!r || (r->kind != Kind::Str && r->kind != Kind::None)) throw cast_error();
        return r->kind == Kind::None ? nullptr : r->s.c_str();
    }
    static Ref store(const char* v) { return v ? str(v).p : none_cell(); }
};
template<class U>
struct conv<std::optional<U>> {
    static std::optional<U> load(const Ref& r)
    {
        if (!r) throw cast_error();
        if (r->kind == Kind::None) return std::nullopt;
        return conv<U>::load(r);
    }
    static Ref store(const std::optional<U>& v) { return v ? conv<U>::store(*v) : none_cell(); }
};
template<class U>
struct conv<std::vector<U>, std::enable_if_t<!is_opaque<std::vector<U>>::value>> {
    static std::vector<U> load(const Ref& r)
    {
        if (!r || r->kind != Kind::List) throw cast_error();
        std::vector<U> v;
        for (auto& e : r->list) v.push_back(conv<U>::load(e));
        return v;
    }
    static Ref store(const std::vector<U>& v)
    {
        auto c = std::make_shared<Cell>(Kind::List);
        for (auto& e : v) c->list.push_back(conv<U>::store(e));
        return c;
    }
};
template<class T>
struct conv<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
    static T load(const Ref& r);
    static Ref store(const T& v) { return v.p ? v.p : none_cell(); }
};
template<class T>
inline bool accepts(const Ref&) { return true; }
template<class T>
T conv<T, std::enable_if_t<std::is_base_of_v<handle, T>>>::load(const Ref& r)
{
    if (!r) throw cast_error();
    if constexpr (requires(T t, const Ref& x) { T::vp_accept(x); }) {
        T t = T::vp_accept(r);
        if (!t.p) throw cast_error();
        return t;
    } else {
        T t;
        t.p = r;
        return t;
    }
}
template<class T>
using plain = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;
template<class T>
using value_of = std::conditional_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<T>>, const char*>, const char*, std::remove_cv_t<std::remove_reference_t<T>>>;
// an argument on its way into a function
template<class A, bool ByPtr = std::is_pointer_v<std::remove_reference_t<A>> && !std::is_same_v<value_of<A>, const char*>>
struct arg_in {
    typedef value_of<A> T;
    typedef decltype(conv<T>::load(std::declval<const Ref&>())) L;
    L v;
    explicit arg_in(const Ref& r) : v(conv<T>::load(r)) {}
    decltype(auto) get()
    {
        if constexpr (std::is_reference_v<L>) {
            if constexpr (std::is_reference_v<A>) return (v);
            else return T(v);
        } else if constexpr (std::is_lvalue_reference_v<A>) return (v);
        else return std::move(v);
    }
};
template<class A>
struct arg_in<A, true> {
    plain<A>* v;
    explicit arg_in(const Ref& r) : v(r && r->kind == Kind::None ? nullptr : &conv<plain<A>>::load(r)) {}
    plain<A>* get() { return v; }
};
template<class R>
Ref result(R&& v)
{
    typedef std::remove_cv_t<std::remove_reference_t<R>> T;
    if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) return conv<const char*>::store(v);
    else return conv<T>::store(std::forward<R>(v));
}
} // namespace detail

template<class T>
T handle::cast() const
{
    return detail::conv<std::remove_cv_t<std::remove_reference_t<T>>>::load(p);
}
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template<class T>
object cast(T&& v, return_value_policy = return_value_policy::automatic)
{
    if constexpr (std::is_array_v<std::remove_reference_t<T>>) return str(v);
    else return object(detail::result(std::forward<T>(v)));
}
template<class T>
    requires(!std::is_base_of_v<handle, T>)
T cast(const handle& h)
{
    return h.cast<T>();
}
template<class T>
void list::append(T&& v)
{
    p->list.push_back(pybind11::cast(std::forward<T>(v)).p);
}
template<class T>
bool isinstance(const handle& h)
{
    if constexpr (std::is_same_v<T, none>) return h.is_none();
    else if constexpr (std::is_same_v<T, str>) return h.p && h.p->kind == Kind::Str;
    else if constexpr (std::is_same_v<T, int_>) return h.p && (h.p->kind == Kind::Int || h.p->kind == Kind::Bool);
    else if constexpr (std::is_same_v<T, bool_>) return h.p && h.p->kind == Kind::Bool;
    else if constexpr (std::is_same_v<T, list>) return h.p && h.p->kind == Kind::List;
    else if constexpr (std::is_base_of_v<handle, T>) return h.p && h.p->kind == Kind::Array;
    else return h.p && h.p->kind == Kind::Inst && h.p->tag == &detail::tag<T>::id;
}

// arguments ----------------------------------------------------------------
struct arg_v;
struct arg {
    const char* name;
    constexpr explicit arg(const char* n = nullptr) : name(n) {}
    template<class T>
    arg_v operator=(T&& v) const;
    arg& noconvert(bool = true) { return *this; }
    arg& none(bool = true) { return *this; }
};
struct arg_v : arg {
    Ref value;
    arg_v(arg a, Ref r) : arg(a), value(std::move(r)) {}
};
template<class T>
arg_v arg::operator=(T&& v) const
{
    return arg_v(*this, pybind11::cast(std::forward<T>(v)).p);
}
inline namespace literals {
inline arg operator"" _a(const char* s, std::size_t) { return arg(s); }
}
struct kw_only {};
struct pos_only {};
class dict : public object {
  public:
    std::shared_ptr<std::map<std::string, Ref>> m = std::make_shared<std::map<std::string, Ref>>();
    dict() { p = std::make_shared<Cell>(Kind::List); }
    template<class K>
    bool contains(K&& k) const { return m->count(std::string(k)) != 0; }
    std::size_t size() const { return m->size(); }
    bool empty() const { return m->empty(); }
    object operator[](const char* k) const
    {
        auto i = m->find(k);
        if (i == m->end()) {
            PyErr_SetString(PyExc_KeyError, k);
            throw error_already_set();
        }
        return object(i->second);
    }
    object operator[](const std::string& k) const { return (*this)[k.c_str()]; }
    std::vector<std::pair<object, object>> items() const
    {
        std::vector<std::pair<object, object>> v;
        for (auto& e : *m) v.push_back({ str(e.first), object(e.second) });
        return v;
    }
    auto begin() const { return Iter{ m->begin() }; }
    auto end() const { return Iter{ m->end() }; }
    struct Iter {
        std::map<std::string, Ref>::const_iterator i;
        std::pair<object, object> operator*() const { return { str(i->first), object(i->second) }; }
        Iter& operator++()
        {
            ++i;
            return *this;
        }
        bool operator!=(const Iter& o) const { return i != o.i; }
    };
};
class kwargs : public dict {};
class args : public list {};

typedef std::vector<Ref> Pos;
typedef std::map<std::string, Ref> Kw;
typedef std::function<Ref(const Pos&, const Kw&)> Fn;
namespace detail {
struct extras {
    std::vector<arg_v> names;
    void add(const arg& a) { names.push_back(arg_v(a, nullptr)); }
    void add(const arg_v& a) { names.push_back(a); }
    template<class T>
    void add(const T&) {}
};
template<class A>
constexpr bool takes_kwargs = std::is_same_v<value_of<A>, kwargs>;
template<class A>
constexpr bool takes_args = std::is_same_v<value_of<A>, args>;
// bind Python arguments to the parameters of a C++ function
template<class... A>
std::vector<Ref> vp_bind(const extras& x, std::size_t skip, const Pos& pos, const Kw& kw, Kw& left)
{
    constexpr std::size_t special = (0 + ... + (takes_kwargs<A> || takes_args<A> ? 1 : 0));
    constexpr bool anykw = (false || ... || takes_kwargs<A>);
    const std::size_t n = sizeof...(A) - special;
    left = kw;
    std::vector<Ref> v;
    if (pos.size() > n && !(false || ... || takes_args<A>)) throw type_error("too many arguments");
    for (std::size_t i = 0; i < n; ++i) {
        if (i < pos.size()) {
            v.push_back(pos[i]);
            continue;
        }
        Ref r;
        if (i >= skip && i - skip < x.names.size()) {
            auto& a = x.names[i - skip];
            auto it = a.name ? left.find(a.name) : left.end();
            if (it != left.end()) {
                r = it->second;
                left.erase(it);
            } else r = a.value;
        }
        if (!r) throw type_error("missing argument");
        v.push_back(r);
    }
    if (!anykw && !left.empty()) throw type_error("unexpected keyword argument");
    return v;
}
template<class F, class... A>
Ref vp_invoke(F& f, const std::vector<Ref>& v, const Kw& left)
{
    std::size_t i = 0;
    auto next = [&]<class X>(std::type_identity<X>) {
        if constexpr (takes_kwargs<X>) {
            auto c = std::make_shared<Cell>(Kind::List);
            return c;
        } else return v[i++];
    };
    return [&]<std::size_t... I>(std::index_sequence<I...>) -> Ref {
        std::vector<Ref> in{ next(std::type_identity<A>())... };
        auto load = [&]<class X>(std::type_identity<X>, const Ref& r) {
            if constexpr (takes_kwargs<X>) {
                struct K {
                    kwargs k;
                    kwargs get() { return k; }
                };
                K k;
                *k.k.m = left;
                return k;
            } else return arg_in<X>(r);
        };
        auto t = std::tuple{ load(std::type_identity<A>(), in[I])... };
        typedef decltype(f(std::get<I>(t).get()...)) R;
        if constexpr (std::is_void_v<R>) {
            f(std::get<I>(t).get()...);
            return none_cell();
        } else return result(f(std::get<I>(t).get()...));
    }(std::index_sequence_for<A...>());
}
template<class F, class R, class... A>
Fn make(F f, std::type_identity<R(A...)>, extras x, std::size_t skip)
{
    return [f, x, skip](const Pos& pos, const Kw& kw) mutable -> Ref {
        Kw left;
        auto v = vp_bind<A...>(x, skip, pos, kw, left);
        return vp_invoke<F, A...>(f, v, left);
    };
}
template<class T>
struct sig;
template<class C, class R, class... A>
struct sig<R (C::*)(A...) const> {
    typedef R type(A...);
    typedef R self(const C&, A...);
};
template<class C, class R, class... A>
struct sig<R (C::*)(A...)> {
    typedef R type(A...);
    typedef R self(C&, A...);
};
template<class C, class R, class... A>
struct sig<R (C::*)(A...) const noexcept> : sig<R (C::*)(A...) const> {};
template<class C, class R, class... A>
struct sig<R (C::*)(A...) noexcept> : sig<R (C::*)(A...)> {};
template<class R, class... A>
struct sig<R (*)(A...)> {
    typedef R type(A...);
};
template<class F>
auto wrap_self(F f)
{
    // a member function as a function of its object
    return [f]<class S, class... A>(S& s, A&&... a) -> decltype(auto) { return (s.*f)(std::forward<A>(a)...); };
}
template<class F>
Fn function(F f, const extras& x, std::size_t skip)
{
    if constexpr (std::is_member_function_pointer_v<F>) return make(wrap_self(f), std::type_identity<typename sig<F>::self>(), x, skip);
    else if constexpr (std::is_pointer_v<F>) return make(f, std::type_identity<typename sig<F>::type>(), x, skip);
    else return make(f, std::type_identity<typename sig<decltype(&F::operator())>::type>(), x, skip);
}
struct Class {
    std::string name;
    std::vector<Fn> ctors;
    std::map<std::string, Fn> methods, getters, setters;
    bool dynamic = false;
};
} // namespace detail
typedef std::map<void*, std::shared_ptr<detail::Class>> Classes;
inline Classes& classes()
{
    static Classes* c = new Classes;
    return *c;
}

// what a binding declares -----------------------------------------------------
struct dynamic_attr {};
struct module_local {};
struct is_method {};
struct arithmetic {};
struct doc {
    const char* s;
    explicit doc(const char* t) : s(t) {}
};
struct gil_scoped_release {
    gil_scoped_release() {}
    ~gil_scoped_release() {}
};
struct gil_scoped_acquire {
    gil_scoped_acquire() {}
    ~gil_scoped_acquire() {}
};
template<class... T>
struct call_guard {};
template<int N, int M>
struct keep_alive {};
class module_ : public object {
  public:
    struct Data {
        std::string text;
        std::map<std::string, Fn> functions;
        std::map<std::string, std::shared_ptr<detail::Class>> classes;
        std::map<std::string, std::map<std::string, Ref>> enums;
        std::map<std::string, Ref> values;
    };
    std::shared_ptr<Data> d = std::make_shared<Data>();
    module_() { p = std::make_shared<Cell>(Kind::Module); }
    std::string& doc() { return d->text; }
    template<class F, class... X>
    module_& def(const char* n, F&& f, const X&... x)
    {
        detail::extras e;
        (e.add(x), ...);
        d->functions[n] = detail::function(std::decay_t<F>(std::forward<F>(f)), e, 0);
        return *this;
    }
    static module_ import(const char* n)
    {
        module_ m;
        m.p->s = n;
        return m;
    }
};
typedef module_ module;

template<class T>
class enum_ : public object {
  public:
    std::shared_ptr<module_::Data> d;
    std::string name;
    template<class... X>
    enum_(module_& m, const char* n, const X&...) : d(m.d), name(n)
    {
        d->enums[name];
    }
    enum_& value(const char* n, T v, const char* = nullptr)
    {
        if (d->enums[name].count(n)) throw value_error("the enumeration has the name already");
        d->enums[name][n] = detail::conv<T>::store(v);
        return *this;
    }
    enum_& export_values()
    {
        for (auto& e : d->enums[name]) d->values[e.first] = e.second;
        return *this;
    }
    template<class F, class... X>
    enum_& def(const char*, F&&, const X&...)
    {
        return *this;
    }
};
namespace detail {
template<class F>
struct factory {
    F f;
};
template<class... A>
struct constructor {};
}
template<class... A>
detail::constructor<A...> init()
{
    return {};
}
template<class F>
detail::factory<std::decay_t<F>> init(F&& f)
{
    return { std::forward<F>(f) };
}
template<class T, class... Options>
class class_ : public object {
  public:
    std::shared_ptr<detail::Class> c = std::make_shared<detail::Class>();
    template<class... X>
    class_(module_& m, const char* n, const X&... x)
    {
        c->name = n;
        c->dynamic = (false || ... || std::is_same_v<X, dynamic_attr>);
        m.d->classes[n] = c;
        classes()[&detail::tag<T>::id] = c;
    }
    template<class F, class... X>
    class_& def(const char* n, F&& f, const X&... x)
    {
        detail::extras e;
        (e.add(x), ...);
        c->methods[n] = detail::function(std::decay_t<F>(std::forward<F>(f)), e, 1);
        return *this;
    }
    template<class F, class... X>
    class_& def_static(const char* n, F&& f, const X&... x)
    {
        detail::extras e;
        (e.add(x), ...);
        c->methods[n] = detail::function(std::decay_t<F>(std::forward<F>(f)), e, 0);
        return *this;
    }
    template<class... A, class... X>
    class_& def(detail::constructor<A...>, const X&... x)
    {
        detail::extras e;
        (e.add(x), ...);
        auto f = [](A... a) -> Ref {
            auto r = std::make_shared<Cell>(Kind::Inst);
            r->tag = &detail::tag<T>::id;
            r->inst = std::shared_ptr<T>(new T(std::forward<A>(a)...));
            return r;
        };
        add_ctor(f, std::type_identity<Ref(A...)>(), e);
        return *this;
    }
    template<class F, class... X>
    class_& def(detail::factory<F> f, const X&... x)
    {
        detail::extras e;
        (e.add(x), ...);
        add_factory(f.f, std::type_identity<typename detail::sig<decltype(&F::operator())>::type>(), e);
        return *this;
    }
    template<class G, class S, class... X>
    class_& def_property(const char* n, G&& g, S&& s, const X&...)
    {
        c->getters[n] = detail::function(std::decay_t<G>(std::forward<G>(g)), {}, 1);
        if constexpr (!std::is_same_v<std::decay_t<S>, std::nullptr_t>) c->setters[n] = detail::function(std::decay_t<S>(std::forward<S>(s)), {}, 1);
        return *this;
    }
    template<class G, class... X>
    class_& def_property_readonly(const char* n, G&& g, const X&...)
    {
        c->getters[n] = detail::function(std::decay_t<G>(std::forward<G>(g)), {}, 1);
        return *this;
    }
    template<class C, class D, class... X>
    class_& def_readwrite(const char* n, D C::* m, const X&... x)
    {
        def_readonly(n, m, x...);
        c->setters[n] = [m](const Pos& a, const Kw&) -> Ref {
            detail::conv<T>::load(a.at(0)).*m = detail::conv<D>::load(a.at(1));
            return none_cell();
        };
        return *this;
    }
    template<class C, class D, class... X>
    class_& def_readonly(const char* n, D C::* m, const X&...)
    {
        c->getters[n] = [m](const Pos& a, const Kw&) -> Ref {
            T& t = detail::conv<T>::load(a.at(0));
            if constexpr (requires(D& x) { detail::conv<D>::load(std::declval<const Ref&>()) = x; } && std::is_reference_v<decltype(detail::conv<D>::load(std::declval<const Ref&>()))> && !std::is_enum_v<D>) {
                auto r = std::make_shared<Cell>(Kind::Inst);      // a reference into the object
                r->tag = &detail::tag<D>::id;
                r->inst = std::shared_ptr<void>(a[0], &(t.*m));
                return r;
            } else return detail::result(t.*m);
        };
        return *this;
    }

  private:
    template<class F, class... A>
    void add_ctor(F f, std::type_identity<Ref(A...)>, const detail::extras& e)
    {
        c->ctors.push_back([f, e](const Pos& pos, const Kw& kw) mutable -> Ref {
            Kw left;
            auto v = detail::vp_bind<A...>(e, 0, pos, kw, left);
            Ref out;
            auto g = [&](A... a) { out = f(std::forward<A>(a)...); };
            detail::vp_invoke<decltype(g), A...>(g, v, left);
            return out;
        });
    }
    template<class F, class R, class... A>
    void add_factory(F f, std::type_identity<R(A...)>, const detail::extras& e)
    {
        auto g = [f](A... a) mutable -> Ref {
            auto r = std::make_shared<Cell>(Kind::Inst);
            r->tag = &detail::tag<T>::id;
            if constexpr (std::is_same_v<std::remove_cv_t<R>, T>) r->inst = std::make_shared<T>(f(std::forward<A>(a)...));
            else if constexpr (std::is_pointer_v<R>) r->inst = std::shared_ptr<T>(f(std::forward<A>(a)...));
            else r->inst = std::shared_ptr<T>(f(std::forward<A>(a)...));
            return r;
        };
        add_ctor(g, std::type_identity<Ref(A...)>(), e);
    }
};

// attributes of the objects a binding may look at itself
struct attr_accessor : object {
    std::string name;
    Ref owner;
    template<class... A>
    object operator()(A&&... a) const
    {
        if (!p || p->kind != Kind::Call) throw type_error("the object is not callable");
        return object(p->call({ pybind11::cast(std::forward<A>(a)).p... }));
    }
    bool has() const { return (bool)p; }
};
inline attr_accessor handle::attr(const char* n) const
{
    attr_accessor a;
    a.name = n;
    a.owner = p;
    const std::string s = n;
    auto callable = [&](std::function<Ref(std::vector<Ref>)> f) {
        a.p = std::make_shared<Cell>(Kind::Call);
        a.p->call = std::move(f);
    };
    auto self = p;
    if (p && p->kind == Kind::Array) {
        if (s == "flags") {
            a.p = std::make_shared<Cell>(Kind::Flags);
            a.p->base = p;
        } else if (s == "copy") callable([self](std::vector<Ref>) { return packed(*self); });
        else if (s == "nbytes" || s == "size" || s == "itemsize" || s == "ndim") {
            long long v = s == "nbytes" ? self->itemsize : 1;
            for (auto e : self->shape) v *= e;
            a.p = int_(s == "itemsize" ? self->itemsize : s == "ndim" ? (long long)self->shape.size() : v).p;
        }
    } else if (p && p->kind == Kind::Flags) {
        const Cell& c = *(Cell*)p->base.get();
        if (s == "c_contiguous") a.p = bool_(c_contiguous(c)).p;
        if (s == "f_contiguous") a.p = bool_(f_contiguous(c)).p;
    } else if (p && p->kind == Kind::Module && p->s == "numpy") {
        if (s == "ascontiguousarray")
            callable([](std::vector<Ref> v) {
                if (v.size() < 1 || v[0]->kind != Kind::Array) throw cast_error();
                return c_contiguous(*v[0]) ? v[0] : packed(*v[0]);
            });
    }
    if (!a.p) throw attribute_error(s);
    return a;
}
template<class... A>
object handle::operator()(A&&... a) const
{
    if (!p || p->kind != Kind::Call) throw type_error("the object is not callable");
    return object(p->call({ pybind11::cast(std::forward<A>(a)).p... }));
}
template<class... A>
void print(A&&...)
{
}

// the Python program ---------------------------------------------------------
namespace program {
struct Value : object {
    bool raised = false;
    std::string error, text;
};
template<class F>
Value guarded(F f)
{
    Value v;
    err_type.clear();
    auto fail = [&](const char* t, const char* m) {
        v.raised = true;
        v.error = t;
        v.text = m;
    };
    try {
        v.p = f();
    } catch (error_already_set&) {
        fail(err_type.empty() ? "SystemError" : err_type.c_str(), err_text.c_str());
    } catch (cast_error& e) {
        fail("TypeError", e.what());
    } catch (type_error& e) {
        fail("TypeError", e.what());
    } catch (value_error& e) {
        fail("ValueError", e.what());
    } catch (index_error& e) {
        fail("IndexError", e.what());
    } catch (key_error& e) {
        fail("KeyError", e.what());
    } catch (attribute_error& e) {
        fail("AttributeError", e.what());
    } catch (import_error& e) {
        fail("ImportError", e.what());
    } catch (std::bad_alloc& e) {
        fail("MemoryError", e.what());
    } catch (std::domain_error& e) {
        fail("ValueError", e.what());
    } catch (std::invalid_argument& e) {
        fail("ValueError", e.what());
    } catch (std::length_error& e) {
        fail("ValueError", e.what());
    } catch (std::out_of_range& e) {
        fail("IndexError", e.what());
    } catch (std::exception& e) {
        fail("RuntimeError", e.what());
    } catch (...) {
        fail("RuntimeError", "unknown");
    }
    err_type.clear();
    return v;
}
inline Value make(module_& m, const char* cls, Pos pos = {}, Kw kw = {})
{
    return guarded([&]() -> Ref {
        auto i = m.d->classes.find(cls);
        if (i == m.d->classes.end()) throw attribute_error(cls);
        for (std::size_t k = 0;; ++k) {
            if (k + 1 >= i->second->ctors.size()) {
                if (i->second->ctors.empty()) throw type_error("no constructor");
                return i->second->ctors[k](pos, kw);
            }
            try {
                return i->second->ctors[k](pos, kw);
            } catch (type_error&) {
            } catch (cast_error&) {
            }
        }
    });
}
inline detail::Class& class_of(const object& o)
{
    if (!o.p || o.p->kind != Kind::Inst || !classes().count(o.p->tag)) throw attribute_error("no such attribute");
    return *classes()[o.p->tag];
}
inline Value get(const object& o, const char* n)
{
    return guarded([&]() -> Ref {
        auto& c = class_of(o);
        auto g = c.getters.find(n);
        if (g != c.getters.end()) return g->second({ o.p }, {});
        auto x = o.p->extra.find(n);
        if (x == o.p->extra.end()) throw attribute_error(n);
        return x->second;
    });
}
inline Value set(const object& o, const char* n, const object& v)
{
    return guarded([&]() -> Ref {
        auto& c = class_of(o);
        auto s = c.setters.find(n);
        if (s != c.setters.end()) return s->second({ o.p, v.p }, {});
        if (c.getters.count(n) || !c.dynamic) throw attribute_error(n);
        o.p->extra[n] = v.p;
        return none_cell();
    });
}
inline Value call(const object& o, const char* n, Pos pos = {}, Kw kw = {})
{
    return guarded([&]() -> Ref {
        if (o.p && o.p->kind == Kind::List && std::string(n) == "append") {
            o.p->list.push_back(pos.at(0));
            return none_cell();
        }
        auto& c = class_of(o);
        auto m = c.methods.find(n);
        if (m == c.methods.end()) throw attribute_error(n);
        pos.insert(pos.begin(), o.p);
        return m->second(pos, kw);
    });
}
inline Value call(module_& m, const char* n, Pos pos = {}, Kw kw = {})
{
    return guarded([&]() -> Ref {
        auto f = m.d->functions.find(n);
        if (f == m.d->functions.end()) throw attribute_error(n);
        return f->second(pos, kw);
    });
}
inline Value enumerator(module_& m, const char* e, const char* n)
{
    return guarded([&]() -> Ref {
        auto i = m.d->enums.find(e);
        if (i == m.d->enums.end()) throw attribute_error(e);
        auto k = i->second.find(n);
        if (k == i->second.end()) throw attribute_error(n);
        return k->second;
    });
}
} // namespace program
} // namespace pybind11

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_MAKE_OPAQUE(...)                                  \
    namespace pybind11::detail {                                   \
    template<>                                                     \
    struct is_opaque<__VA_ARGS__> : std::true_type {};             \
    }
#define PYBIND11_MODULE(name, var, ...)                            \
    const char* const vp_python_module = #name;                    \
    void vp_python_import(::pybind11::module_& var)
