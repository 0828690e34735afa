// The environment model: see vpenv.hpp.  Compiled both for the executor and for
// the native replay.
#include "vp.h"
#include <vpenv.hpp>
#include <vps3.hpp>
#include <vpblosc.hpp>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>

namespace vpenv {
unsigned fault_mask, fault_budget, faults_hit, faults_kind;
std::vector<Node*> nodes;
unsigned open_handles, files_created, dirs_created, removals;
uint64_t direct_limit = 1024, buffer_cap = 8190;

bool fault(unsigned kind)
{
    if (!(fault_mask & kind) || faults_hit >= fault_budget) return false;
    const char* n = kind == F_OPEN ? "fault_open" : kind == F_WRITE ? "fault_write" : kind == F_MKDIR ? "fault_mkdir" : kind == F_S3 ? "fault_s3" : kind == F_BLOSC ? "fault_blosc" : "fault_remove";
    if (!(fault_mask & F_ALWAYS) && !vp_concretize(vp_sym(n, 1))) return false;
    ++faults_hit;
    faults_kind |= kind;
    return true;
}

bool crash_armed, crashed;
bool lost()
{
    if (crash_armed && !crashed && vp_concretize(vp_sym("crash", 1))) crashed = true;
    return crashed;
}

struct Handle
{
    Node* n = nullptr;
    int flags = 0;
    uint64_t pos = 0;
    bool open = false;
};
static std::vector<Handle> handles;
static const int H0 = 1000;

std::string norm(const char* p, size_t n)
{
    std::string r;
    r.reserve(n + 2);
    size_t i = 0;
    if (n && p[0] == '/') { r += '/'; }
    while (i < n) {
        while (i < n && p[i] == '/') ++i;
        size_t j = i;
        while (j < n && p[j] != '/') ++j;
        if (j == i) break;
        if (j - i == 1 && p[i] == '.') { i = j; continue; }
        if (!r.empty() && r.back() != '/') r += '/';
        r.append(p + i, j - i);
        i = j;
    }
    return r;
}
static Node* lookup(const std::string& k)
{
    for (Node* n : nodes)
        if (n->path.size() == k.size() && memcmp(n->path.data(), k.data(), k.size()) == 0) return n;
    return nullptr;
}
static void init()
{
    if (!nodes.empty()) return;
    for (const char* r : { "", "/" }) {
        Node* n = new Node;
        n->path = r;
        n->dir = true;
        nodes.push_back(n);
    }
}
Node* find(const char* p, size_t n)
{
    Guard g;
    init();
    if (!n) return nullptr;
    return lookup(norm(p, n));
}
bool is_dir(const char* p, size_t n)
{
    Node* d = find(p, n);
    return d && d->dir;
}
bool exists(const char* p, size_t n) { return find(p, n) != nullptr; }
static std::string parent(const std::string& k)
{
    size_t i = k.size();
    while (i > 0 && k[i - 1] != '/') --i;
    if (i == 0) return "";
    if (i == 1) return "/";
    return k.substr(0, i - 1);
}
static Node* add(const std::string& k, bool dir)
{
    Node* n = new Node;
    n->path = k;
    n->dir = dir;
    nodes.push_back(n);
    (dir ? dirs_created : files_created)++;
    return n;
}
int make_dir(const char* p, size_t n)
{
    Guard g;
    init();
    std::string k = norm(p, n);
    if (Node* d = lookup(k)) return d->dir ? 1 : 3;
    Node* q = lookup(parent(k));
    if (!q || !q->dir) return 3;
    if (fault(F_MKDIR)) return 2;
    if (lost()) return 0;
    add(k, true);
    return 0;
}
int make_dirs(const char* p, size_t n)
{
    Guard g;
    init();
    std::string k = norm(p, n);
    if (Node* d = lookup(k)) return d->dir ? 1 : 3;
    if (fault(F_MKDIR)) return 2;
    if (lost()) return 0;
    std::vector<std::string> missing;
    while (true) {
        Node* q = lookup(k);
        if (q) {
            if (!q->dir) return 3;
            break;
        }
        missing.push_back(k);
        k = parent(k);
    }
    for (size_t i = missing.size(); i-- > 0;) add(missing[i], true);
    return 0;
}
int rename(const char* p, size_t n, const char* q, size_t m)
{
    Guard g;
    init();
    const std::string from = norm(p, n), to = norm(q, m);
    Node* a = lookup(from);
    if (!a) return 2;
    Node* up = lookup(parent(to));
    if (!up || !up->dir) return up ? 20 : 2;
    if (fault(F_REMOVE)) return 5;
    if (lost()) return 0;
    if (Node* b = lookup(to)) {
        if (a == b) return 0;
        if (b->dir != a->dir) return b->dir ? 21 : 20;
        for (Node* d : nodes)
            if (b->dir && d->path.size() > to.size() && memcmp(d->path.data(), to.data(), to.size()) == 0 && d->path[to.size()] == '/') return 39;
        std::vector<Node*> keep;
        for (Node* d : nodes)
            if (d != b) keep.push_back(d);
        nodes = keep;
        ++removals;
    }
    for (Node* d : nodes)
        if (d->path.size() > from.size() && memcmp(d->path.data(), from.data(), from.size()) == 0 && d->path[from.size()] == '/') d->path = to + d->path.substr(from.size());
    a->path = to;
    return 0;
}
uint64_t remove_all(const char* p, size_t n, bool& ok)
{
    Guard g;
    init();
    std::string k = norm(p, n);
    ok = true;
    if (!lookup(k)) return 0;
    if (fault(F_REMOVE)) {
        ok = false;
        return 0;
    }
    if (lost()) return 1;
    ++removals;
    uint64_t c = 0;
    std::vector<Node*> keep;
    for (Node* d : nodes) {
        bool in = d->path.size() >= k.size() && memcmp(d->path.data(), k.data(), k.size()) == 0 && (d->path.size() == k.size() || k.empty() || k.back() == '/' || d->path[k.size()] == '/');
        if (in && d->path.size() && d->path != "/") ++c; // (nodes stay allocated: a handle may still refer to them)
        else keep.push_back(d);
    }
    nodes = keep;
    return c;
}
Node* add_dir(const std::string& p, unsigned perm)
{
    Guard g;
    init();
    std::string k = norm(p.data(), p.size());
    Node* d = lookup(k);
    if (!d) d = add(k, true);
    d->perm = perm;
    return d;
}
Node* add_file(const std::string& p)
{
    Guard g;
    init();
    std::string k = norm(p.data(), p.size());
    Node* d = lookup(k);
    return d ? d : add(k, false);
}
int open_file(const char* p, size_t n, int flags)
{
    Guard g;
    init();
    if (!n || p[n - 1] == '/') return -1;
    std::string k = norm(p, n);
    Node* d = lookup(k);
    if (d && d->dir) return -1;
    if (d && (flags & O_excl)) return -1;
    if (!d && !(flags & O_creat)) return -1;
    if (!d) {
        Node* q = lookup(parent(k));
        if (!q || !q->dir) return -1;
    }
    if (fault(F_OPEN)) return -1;
    const bool gone = (!d || (flags & O_trunc)) && lost();
    if (gone) { // a file of its own that nobody finds
        d = new Node;
        d->path = k;
    }
    if (!d) d = add(k, false);
    d->opens++;
    if ((flags & O_trunc) && !gone) {
        d->log.clear();
        d->size = 0;
        d->truncations++;
    }
    Handle h;
    h.n = d;
    h.flags = flags;
    h.open = true;
    handles.push_back(h);
    ++open_handles;
    return H0 + (int)handles.size() - 1;
}
bool valid_handle(int h) { return h >= H0 && (size_t)(h - H0) < handles.size() && handles[h - H0].open; }
static Handle* get(int h)
{
    if (!valid_handle(h)) return nullptr;
    return &handles[h - H0];
}
void close_file(int h)
{
    Guard g;
    Handle* x = get(h);
    vp_assert(x != nullptr, "a file is closed that is not open");
    x->open = false;
    --open_handles;
}
Node* node_of(int h)
{
    Guard g;
    Handle* x = get(h);
    return x ? x->n : nullptr;
}
bool is_append(int h)
{
    Guard g;
    Handle* x = get(h);
    return x && (x->flags & O_append);
}
uint64_t file_size(int h)
{
    Guard g;
    Handle* x = get(h);
    return x ? x->n->size : 0;
}
bool write_record(Node* nd, uint64_t off, unsigned char* copy, uint64_t n)
{
    Write w;
    w.off = off;
    w.data = copy;
    w.n = n;
    nd->log.push_back(w);
    if (off + n > nd->size) nd->size = off + n;
    return true;
}
static unsigned char* own_copy(const void* data, uint64_t n)
{
    unsigned char* c;
    {
        Guard g;
        c = new unsigned char[n ? n : 1];
    }
    memcpy(c, data, n); // the caller's bytes are read like any other access
    return c;
}
static bool in_file_range(uint64_t off, uint64_t n) { return off <= (uint64_t)INT64_MAX && n <= (uint64_t)INT64_MAX - off; }
int64_t write_at(int h, uint64_t off, const void* data, uint64_t n)
{
    unsigned char* c = own_copy(data, n);
    Guard g;
    Handle* x = get(h);
    if (!x || !(x->flags & (O_write | O_append))) {
        errno = EBADF;
        delete[] c;
        return -1;
    }
    if (!in_file_range(off, n)) {
        errno = EFBIG;
        delete[] c;
        return -1;
    }
    if (fault(F_WRITE)) {
        errno = ENOSPC;
        x->n->missed++;
        delete[] c;
        return -1;
    }
    if (lost()) {
        delete[] c;
        return (int64_t)n;
    }
    write_record(x->n, off, c, n);
    return (int64_t)n;
}
int64_t read_at(int h, uint64_t off, void* buf, uint64_t n)
{
    Guard g;
    Handle* x = get(h);
    if (!x) return -1;
    if (off >= x->n->size) return 0;
    if (n > x->n->size - off) n = x->n->size - off;
    for (uint64_t i = 0; i < n; i++) ((unsigned char*)buf)[i] = byte_at(x->n, off + i);
    return (int64_t)n;
}
unsigned char byte_at(const Node* nd, uint64_t pos)
{
    for (size_t i = nd->log.size(); i-- > 0;) {
        const Write& w = nd->log[i];
        if (pos - w.off < w.n) return w.data[pos - w.off];
    }
    return 0;
}
unsigned char byte_sel(const Node* nd, uint64_t pos)
{
    unsigned v = 0;
    for (const Write& w : nd->log)
        for (uint64_t k = 0; k < w.n; k++) {
            unsigned hit = -(unsigned)(pos == w.off + k);
            v = (v & ~hit) | (w.data[k] & hit);
        }
    return (unsigned char)v;
}
unsigned coverage(const Node* nd, uint64_t pos)
{
    unsigned c = 0;
    for (const Write& w : nd->log) c += pos - w.off < w.n;
    return c;
}
std::string content(const Node* nd)
{
    std::string s(nd->size, '\0');
    for (const Write& w : nd->log) memcpy(s.data() + w.off, w.data, w.n);
    return s;
}
void reset()
{
    Guard g;
    nodes.clear();
    handles.clear();
    fault_mask = fault_budget = faults_hit = faults_kind = 0;
    crash_armed = crashed = false;
    open_handles = files_created = dirs_created = removals = 0;
    direct_limit = 1024;
    buffer_cap = 8190;
}
} // namespace vpenv

// ------------------------------------------------------------ POSIX
using namespace vpenv;
extern "C" {
int vp_os_open(const char* p, int fl, ...)
{
    int f = 0;
    int acc = fl & O_ACCMODE;
    if (acc == O_WRONLY) f |= O_write;
    else if (acc == O_RDWR) f |= O_write | O_read;
    else f |= O_read;
    if (fl & O_CREAT) f |= O_creat;
    if (fl & O_TRUNC) f |= O_trunc;
    if (fl & O_APPEND) f |= vpenv::O_append;
    if (fl & O_EXCL) f |= O_excl;
    int h = open_file(p, strlen(p), f);
    if (h < 0) errno = ENOENT;
    return h;
}
int vp_os_close(int h)
{
    Guard g;
    if (!valid_handle(h)) {
        errno = EBADF;
        return -1;
    }
    close_file(h);
    return 0;
}
// a gathered write may be cut short after any byte
unsigned vp_short_writes; // 1: gathered writes may be short
ssize_t vp_os_pwritev(int h, const struct iovec* v, int cnt, off_t off)
{
    if (cnt < 0 || cnt > 1024) {
        errno = EINVAL;
        return -1;
    }
    if (off < 0) {
        errno = EINVAL;
        return -1;
    }
    uint64_t total = 0;
    for (int i = 0; i < cnt; i++) total += v[i].iov_len;
    unsigned char* c;
    {
        Guard g;
        c = new unsigned char[total ? total : 1];
    }
    uint64_t at = 0;
    for (int i = 0; i < cnt; i++) {
        if (v[i].iov_len) memcpy(c + at, v[i].iov_base, v[i].iov_len);
        at += v[i].iov_len;
    }
    Guard g;
    if (!valid_handle(h) || !(handles[h - H0].flags & O_write)) {
        errno = EBADF;
        return -1;
    }
    if (!in_file_range((uint64_t)off, total)) {
        errno = EFBIG;
        return -1;
    }
    if (fault(F_WRITE)) {
        errno = ENOSPC;
        if (vp_short_writes && total > 0) {
            uint64_t k = vp_choose("short_write", 0, total - 1);
            if (k > 0) {
                write_record(handles[h - H0].n, (uint64_t)off, c, k);
                return (ssize_t)k;
            }
        }
        handles[h - H0].n->missed++;
        return -1;
    }
    if (total && !lost()) write_record(handles[h - H0].n, (uint64_t)off, c, total);
    return (ssize_t)total;
}
ssize_t vp_os_pwrite(int h, const void* p, size_t n, off_t off)
{
    struct iovec v = { const_cast<void*>(p), n };
    return vp_os_pwritev(h, &v, 1, off);
}
ssize_t vp_os_write(int h, const void* p, size_t n)
{
    if (!valid_handle(h)) {
        errno = EBADF;
        return -1;
    }
    uint64_t off = handles[h - H0].flags & vpenv::O_append ? vpenv::file_size(h) : handles[h - H0].pos;
    ssize_t r = vp_os_pwrite(h, p, n, (off_t)off);
    if (r > 0) handles[h - H0].pos = off + r;
    return r;
}
ssize_t vp_os_writev(int h, const struct iovec* v, int cnt)
{
    if (!valid_handle(h)) {
        errno = EBADF;
        return -1;
    }
    uint64_t off = handles[h - H0].flags & vpenv::O_append ? vpenv::file_size(h) : handles[h - H0].pos;
    ssize_t r = vp_os_pwritev(h, v, cnt, (off_t)off);
    if (r > 0) handles[h - H0].pos = off + r;
    return r;
}
off_t vp_os_lseek(int h, off_t o, int wh)
{
    if (!valid_handle(h)) {
        errno = EBADF;
        return -1;
    }
    off_t b = wh == 0 ? 0 : wh == 1 ? (off_t)handles[h - H0].pos : (off_t)vpenv::file_size(h);
    if (b + o < 0) {
        errno = EINVAL;
        return -1;
    }
    handles[h - H0].pos = b + o;
    return b + o;
}
int vp_os_ftruncate(int h, off_t n)
{
    Guard g;
    if (!valid_handle(h) || !(handles[h - H0].flags & O_write) || n < 0) {
        errno = EINVAL;
        return -1;
    }
    if (lost()) return 0;
    vpenv::Node* nd = vpenv::node_of(h);
    for (size_t i = nd->log.size(); i-- > 0;) {
        vpenv::Write& w = nd->log[i];
        if (w.off >= (uint64_t)n) nd->log.erase(nd->log.begin() + i);
        else if (w.off + w.n > (uint64_t)n) w.n = (uint64_t)n - w.off;
    }
    nd->size = n;
    return 0;
}
int vp_os_stat(const char* p, struct stat* st)
{
    vpenv::Node* nd = vpenv::find(p, strlen(p));
    if (!nd) {
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = (nd->dir ? S_IFDIR : S_IFREG) | nd->perm;
    st->st_size = nd->dir ? 4096 : (off_t)nd->size;
    st->st_nlink = 1;
    return 0;
}
int vp_os_access(const char* p, int)
{
    if (vpenv::exists(p, strlen(p))) return 0;
    errno = ENOENT;
    return -1;
}
int vp_os_mkdir(const char* p, mode_t)
{
    int r = vpenv::make_dir(p, strlen(p));
    if (r) errno = r == 1 ? EEXIST : EACCES;
    return r ? -1 : 0;
}
int vp_os_fdatasync(int h) { return valid_handle(h) ? 0 : -1; }
int vp_os_fsync(int h) { return valid_handle(h) ? 0 : -1; }
}

// ------------------------------------------------------------ object store
namespace vps3 {
std::vector<std::string> buckets;
std::vector<Object*> objects;
std::vector<Upload*> uploads;
unsigned clients, live_clients, requests, invalid_connections;
bool reachable = true;
std::string expected;
unsigned strangers;
void reset()
{
    Guard g;
    buckets.clear();
    objects.clear();
    uploads.clear();
    requests = clients = live_clients = invalid_connections = strangers = 0;
    expected.clear();
    reachable = true;
}
bool has_bucket(const std::string& b)
{
    for (auto& x : buckets)
        if (x == b) return true;
    return false;
}
Object* find(const std::string& b, const std::string& k)
{
    for (auto* o : objects)
        if (o->bucket == b && o->key == k) return o;
    return nullptr;
}
Upload* upload(const std::string& id)
{
    for (auto* u : uploads)
        if (u->id == id) return u;
    return nullptr;
}
}

// ------------------------------------------------------------ compressor
namespace vpblosc {
std::vector<Call*> calls;
unsigned lengths;
bool verbatim;
void reset()
{
    Guard g;
    calls.clear();
    lengths = 0;
    verbatim = false;
}
const Call* decode(const unsigned char* p, uint64_t n)
{
    if (n < 16 || p[0] != 0xB7) return nullptr;
    uint32_t i;
    memcpy(&i, p + 1, 4);
    if (i >= calls.size() || calls[i]->out_len != n) return nullptr;
    return calls[i];
}
}
extern "C" int blosc_compress_ctx(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize, const char* compressor, size_t blocksize, int numinternalthreads)
{
    (void)blocksize;
    (void)numinternalthreads;
    vp_assert(nbytes == 0 || src != nullptr, "the compressor is given a source");
    unsigned char* copy;
    {
        Guard g;
        copy = new unsigned char[nbytes ? nbytes : 1];
    }
    memcpy(copy, src, nbytes);
    bool known = !strcmp(compressor, "blosclz") || !strcmp(compressor, "lz4") || !strcmp(compressor, "lz4hc") || !strcmp(compressor, "zlib") || !strcmp(compressor, "zstd");
    uint64_t len;
    uint32_t idx;
    {
        Guard g;
        if (!known || clevel < 0 || clevel > 9 || doshuffle < 0 || doshuffle > 2) return known ? -10 : -5;
        if (fault(F_BLOSC)) return -1;
        if (vpblosc::verbatim) {
            if (destsize < nbytes + 16) return 0;
            unsigned char* d = (unsigned char*)dest;
            d[0] = 0xB8;
            d[1] = (unsigned char)clevel;
            d[2] = (unsigned char)doshuffle;
            d[3] = (unsigned char)typesize;
            for (unsigned i = 0; i < 4; ++i) d[4 + i] = (unsigned char)(nbytes >> 8 * i);
            const size_t k = strlen(compressor);
            for (unsigned i = 0; i < 8; ++i) d[8 + i] = (unsigned char)(i < k ? compressor[i] : 0);
            memcpy(d + 16, copy, nbytes);
            delete[] copy;
            return (int)nbytes + 16;
        }
        idx = (uint32_t)vpblosc::calls.size();
        len = 16 + (idx * 3u) % 7u; // compressed lengths differ
        if (vpblosc::lengths) { // the shortest, the longest (incompressible data), that of the chunk, and some in between
            const uint64_t l[] = { 16, nbytes + 16, nbytes < 16 ? 17 : nbytes, 16 + nbytes / 2 };
            len = l[vp_choose("blosc_len", 0, vpblosc::lengths - 1)];
        }
        if (len > nbytes + 16) len = nbytes + 16;
        if (len > destsize) return 0;
        auto* c = new vpblosc::Call;
        c->clevel = clevel;
        c->shuffle = doshuffle;
        c->typesize = typesize;
        c->nbytes = nbytes;
        c->codec = compressor;
        c->src = copy;
        c->out_len = len;
        vpblosc::calls.push_back(c);
    }
    unsigned char* d = (unsigned char*)dest;
    d[0] = 0xB7;
    memcpy(d + 1, &idx, 4);
    for (uint64_t i = 5; i < len; i++) d[i] = (unsigned char)(0xC0 + i);
    return (int)len;
}
#ifdef VP_ENGINE
#include "logger.hh"
// the logger's formatting is replaced (except where it is the subject): the
// result is empty exactly when the message is suppressed
extern "C" void vp_model_log(std::string* ret, int level)
{
    int cur = (int)Logger::get_log_level();
    new (ret) std::string(level < cur ? "" : "(log)");
}
#endif
