// Runtime support for the symbolic executor: locales, stream bases and the
// console.  Everything templated comes from the real headers.
#define _GLIBCXX_NO_IOSTREAM_INIT 1
#include <bits/locale_classes.h>
#include <clocale>
#include <cstring>
#include <ctime>
#include <iomanip>
#include <ios>
#include <istream>
#include <locale>
#include <ostream>
#include <string>
#include <system_error>
#include <sched.h>
#include <vpcon.hpp>

namespace {
template<typename T>
struct Raw // static storage, constructed by hand and never destroyed
{
    alignas(16) unsigned char b[sizeof(T)];
};
const std::locale::facet* facets_[64];
const std::locale::facet* caches_[64];
Raw<std::locale::_Impl> impl_;
size_t ids_ = 0;
std::ctype_base::mask table_[256];
Raw<std::ctype<char>> ctype_;
Raw<std::numpunct<char>> numpunct_;
Raw<std::num_put<char>> num_put_;
Raw<std::num_get<char>> num_get_;
Raw<std::time_put<char>> time_put_;
Raw<std::__timepunct<char>> timepunct_;
char zero_ = 0;
char newline_[] = "";
}

namespace std {
size_t locale::id::_M_id() const throw()
{
    if (!_M_index) const_cast<size_t&>(_M_index) = ++ids_;
    return _M_index - 1;
}
locale::id ctype<char>::id;

locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) throw() { return nullptr; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
const char* locale::facet::_S_get_c_name() throw() { return "C"; }

locale::locale() throw() { _M_impl = (_Impl*)&impl_; }
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw()
{
    _M_impl = o._M_impl;
    return *this;
}
const locale& locale::classic()
{
    static Raw<locale> l;
    *(void**)&l = &impl_;
    return (const locale&)l;
}
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
void locale::_Impl::_M_install_cache(const facet* f, size_t i) { _M_caches[i] = f; }

ctype<char>::ctype(const mask*, bool, size_t refs)
  : facet(refs)
{
    _M_table = table_;
    _M_del = false;
    _M_widen_ok = 0;
    _M_narrow_ok = 0;
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_toupper(char* a, const char* e) const
{
    for (; a < e; ++a) *a = do_toupper(*a);
    return e;
}
const char* ctype<char>::do_tolower(char* a, const char* e) const
{
    for (; a < e; ++a) *a = do_tolower(*a);
    return e;
}
void ctype<char>::_M_widen_init() const
{
    for (int i = 0; i < 256; ++i) const_cast<ctype*>(this)->_M_widen[i] = (char)i;
    _M_widen_ok = 1;
}
void ctype<char>::_M_narrow_init() const
{
    for (int i = 0; i < 256; ++i) const_cast<ctype*>(this)->_M_narrow[i] = (char)i;
    _M_narrow_ok = 1;
}
template<>
void numpunct<char>::_M_initialize_numpunct(__c_locale)
{
    _M_data = new __numpunct_cache<char>;
    _M_data->_M_grouping = "";
    _M_data->_M_grouping_size = 0;
    _M_data->_M_use_grouping = false;
    _M_data->_M_decimal_point = '.';
    _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data->_M_truename = "true";
    _M_data->_M_truename_size = 4;
    _M_data->_M_falsename = "false";
    _M_data->_M_falsename_size = 5;
}
template<>
numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";

template<>
void __timepunct<char>::_M_initialize_timepunct(__c_locale) {}
template<>
__timepunct<char>::~__timepunct() {}
template<>
void __timepunct<char>::_M_put(char* s, size_t n, const char* fmt, const tm*) const throw()
{
    if (n > 2) { s[0] = fmt[1]; s[1] = 0; } // %Y -> Y
}

ios_base::ios_base() throw()
{
    _M_precision = 0;
    _M_width = 0;
    _M_flags = fmtflags();
    _M_exception = goodbit;
    _M_streambuf_state = goodbit;
    _M_callbacks = nullptr;
    _M_word_size = _S_local_word_size;
    _M_word = _M_local_word;
}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
    _M_ios_locale = locale();
}
void ios_base::_M_move(ios_base& o) noexcept
{
    _M_precision = o._M_precision;
    _M_width = o._M_width;
    _M_flags = o._M_flags;
    _M_exception = o._M_exception;
    _M_streambuf_state = o._M_streambuf_state;
}
void ios_base::_M_swap(ios_base& o) noexcept
{
    std::swap(_M_precision, o._M_precision);
    std::swap(_M_width, o._M_width);
    std::swap(_M_flags, o._M_flags);
    std::swap(_M_exception, o._M_exception);
    std::swap(_M_streambuf_state, o._M_streambuf_state);
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw()
{
    locale o = _M_ios_locale;
    _M_ios_locale = l;
    return o;
}
ios_base::failure::failure(const string& s) : system_error(make_error_code(io_errc::stream), s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return "basic_ios::clear"; }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s, error_code(5, generic_category())); }
void __throw_ios_failure(const char* s, int) { __throw_ios_failure(s); }
const error_category& iostream_category() noexcept { return generic_category(); }
void ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
} // namespace std

// ------------------------------------------------------------------ console
namespace vpcon {
std::vector<Piece>* pieces = nullptr;
unsigned flushes = 0;
}
namespace {
struct Console : std::streambuf
{
    int which;
    unsigned probe = 0;
    explicit Console(int w) : which(w) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        ++probe;
        sched_yield(); // another thread may come in between
        vpenv::Guard g;
        vpcon::pieces->push_back({ which, std::string(s, n) });
        return n;
    }
    int overflow(int c) override
    {
        ++probe;
        if (c == EOF) return 0;
        char ch = (char)c;
        xsputn(&ch, 1);
        return c;
    }
    int sync() override { ++probe; return 0; }
};
Raw<Console> conb_[2];
}
namespace std {
typedef char fake_ostream[sizeof(ostream)] __attribute__((aligned(16)));
}
extern "C" {
std::fake_ostream vp_cout __asm__("_ZSt4cout");
std::fake_ostream vp_cerr __asm__("_ZSt4cerr");
std::fake_ostream vp_clog __asm__("_ZSt4clog");
}

__attribute__((constructor(101))) static void vp_ios_start()
{
    using namespace std;
    for (int c = 0; c < 128; ++c) {
        unsigned m = 0;
        if (c >= 'A' && c <= 'Z') m |= ctype_base::upper | ctype_base::alpha | ctype_base::graph | ctype_base::print;
        if (c >= 'a' && c <= 'z') m |= ctype_base::lower | ctype_base::alpha | ctype_base::graph | ctype_base::print;
        if (c >= '0' && c <= '9') m |= ctype_base::digit | ctype_base::xdigit | ctype_base::graph | ctype_base::print;
        if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) m |= ctype_base::xdigit;
        if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
        if (c == ' ') m |= ctype_base::print;
        if (c < 32 || c == 127) m |= ctype_base::cntrl;
        table_[c] = (ctype_base::mask)m;
    }
    locale::_Impl* im = (locale::_Impl*)&impl_;
    im->_M_facets = facets_;
    im->_M_facets_size = 64;
    im->_M_caches = caches_;
    im->_M_refcount = 1;
    facets_[ctype<char>::id._M_id()] = new (&ctype_) ctype<char>(nullptr, false, 1);
    facets_[numpunct<char>::id._M_id()] = new (&numpunct_) numpunct<char>((size_t)1);
    facets_[num_put<char>::id._M_id()] = new (&num_put_) num_put<char>(1);
    facets_[num_get<char>::id._M_id()] = new (&num_get_) num_get<char>(1);
    facets_[time_put<char>::id._M_id()] = new (&time_put_) time_put<char>(1);
    facets_[__timepunct<char>::id._M_id()] = new (&timepunct_) __timepunct<char>((size_t)1);
    vpcon::pieces = new vector<vpcon::Piece>;
    new (&conb_[0]) Console(1);
    new (&conb_[1]) Console(2);
    new (&vp_cout) ostream((streambuf*)&conb_[0]);
    new (&vp_cerr) ostream((streambuf*)&conb_[1]);
    new (&vp_clog) ostream((streambuf*)&conb_[1]);
}
