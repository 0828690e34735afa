#pragma once
#include <pybind11/stl.h>
namespace pybind11 {
template<class V, class... X>
class_<V> bind_vector(module_& m, const char* n, const X&...)
{
    typedef typename V::value_type T;
    class_<V> c(m, n);
    c.def(init<>());
    c.def("append", [](V& v, const T& x) { v.push_back(x); });
    c.def("__len__", [](const V& v) { return v.size(); });
    c.def("clear", [](V& v) { v.clear(); });
    // an element is a reference into the vector
    c.c->methods["__getitem__"] = [](const Pos& a, const Kw&) -> Ref {
        V& v = detail::conv<V>::load(a.at(0));
        long long i = detail::conv<long long>::load(a.at(1));
        if (i < 0) i += (long long)v.size();
        if (i < 0 || i >= (long long)v.size()) throw index_error();
        auto r = std::make_shared<Cell>(Kind::Inst);
        r->tag = &detail::tag<T>::id;
        r->inst = std::shared_ptr<void>(a[0], &v[i]);
        return r;
    };
    c.def("extend", [](V& v, const V& o) {
        const V copy = o;
        v.insert(v.end(), copy.begin(), copy.end());
    });
    c.c->methods["extend_list"] = [](const Pos& a, const Kw&) -> Ref {
        V& v = detail::conv<V>::load(a.at(0));
        for (auto& e : a.at(1)->list) v.push_back(detail::conv<T>::load(e));
        return none_cell();
    };
    return c;
}
} // namespace pybind11
