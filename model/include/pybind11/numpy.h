// Arrays: a pointer, an element size, and an extent and a stride per axis.
#pragma once
#include <pybind11/pybind11.h>
namespace pybind11 {
struct buffer_info {
    void* ptr = nullptr;
    ssize_t itemsize = 0;
    ssize_t size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
};
class dtype : public object {
  public:
    ssize_t size = 1;
    std::string what;
    ssize_t itemsize() const { return size; }
    char kind() const { return what.empty() ? 'u' : what[0]; }
    char byteorder() const { return '='; }
};
class buffer : public object {
  public:
    using object::object;
    buffer_info request(bool = false) const
    {
        buffer_info b;
        b.ptr = p->data;
        b.itemsize = p->itemsize;
        b.ndim = (ssize_t)p->shape.size();
        b.shape = p->shape;
        b.strides = p->strides;
        b.format = p->s;
        b.size = 1;
        for (auto e : p->shape) b.size *= e;
        return b;
    }
};
class array : public buffer {
  public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    array() = default;
    array(const object& o) { *this = vp_accept(o.p); }
    static array vp_accept(const Ref& r)
    {
        array a;
        if (r && r->kind == Kind::Array) a.p = r;
        return a;
    }
    static array ensure(const handle& h, int flags = 0)
    {
        array a;
        if (!h.p || h.p->kind != Kind::Array) return a;
        a.p = h.p;
        if ((flags & c_style) && !c_contiguous(*a.p)) a.p = packed(*a.p);
        else if ((flags & f_style) && !f_contiguous(*a.p)) a.p = packed(*a.p, true);
        return a;
    }
    int flags() const { return (c_contiguous(*p) ? c_style : 0) | (f_contiguous(*p) ? f_style : 0); }
    ssize_t itemsize() const { return p->itemsize; }
    ssize_t ndim() const { return (ssize_t)p->shape.size(); }
    ssize_t size() const
    {
        ssize_t n = 1;
        for (auto e : p->shape) n *= e;
        return n;
    }
    ssize_t nbytes() const { return size() * itemsize(); }
    const ssize_t* shape() const { return p->shape.data(); }
    const ssize_t* strides() const { return p->strides.data(); }
    ssize_t shape(ssize_t i) const
    {
        if (i < 0 || i >= ndim()) throw index_error("no such axis");
        return p->shape[i];
    }
    ssize_t strides(ssize_t i) const
    {
        if (i < 0 || i >= ndim()) throw index_error("no such axis");
        return p->strides[i];
    }
    template<class... I>
    const void* data(I... i) const { return p->data + offset(i...); }
    template<class... I>
    void* mutable_data(I... i) { return p->data + offset(i...); }
    bool writeable() const { return true; }
    bool owndata() const { return true; }
    pybind11::dtype dtype() const
    {
        pybind11::dtype d;
        d.size = p->itemsize;
        d.what = p->s;
        return d;
    }

  protected:
    template<class... I>
    ssize_t offset(I... i) const
    {
        ssize_t at = 0;
        std::size_t k = 0;
        ((at += (ssize_t)i * p->strides[k++]), ...);
        return at;
    }
};
template<class T, int Flags = array::forcecast>
class array_t : public array {
  public:
    array_t() = default;
    array_t(const object& o) { *this = vp_accept(o.p); }
    static array_t vp_accept(const Ref& r)
    {
        array_t t;
        // (elements of another type would be converted, which this model does not do)
        if (!r || r->kind != Kind::Array || r->itemsize != (ssize_t)sizeof(T)) return t;
        t.p = array::ensure(handle(r), Flags).p;
        return t;
    }
    static array_t ensure(const handle& h) { return vp_accept(h.p); }
    const T* data() const { return (const T*)p->data; }
};
} // namespace pybind11
