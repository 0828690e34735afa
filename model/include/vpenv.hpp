// Model of the operating system, the object store and the compressor.  Used by
// the symbolic executor and, unchanged, by the native replay build; nothing in
// it ever touches the real file system or network.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
void vp_env_enter();
void vp_env_leave();
}

namespace vpenv {
struct Guard // the model's own data: not subject to race detection or scheduling
{
    Guard() { vp_env_enter(); }
    ~Guard() { vp_env_leave(); }
    Guard(const Guard&) = delete;
};

// ------------------------------------------------------------ faults
enum : unsigned
{
    F_OPEN = 1,    // a file cannot be opened
    F_WRITE = 2,   // the OS refuses a write
    F_MKDIR = 4,   // a directory cannot be created
    F_S3 = 8,      // a request to the object store fails
    F_BLOSC = 16,  // the compressor fails
    F_REMOVE = 32, // something cannot be removed
    F_ALWAYS = 64, // the operations named do fail, as often as the budget says
};
extern unsigned fault_mask;   // which operations may fail
extern unsigned fault_budget; // how many of them at most
extern unsigned faults_hit;   // how many did (of any kind)
extern unsigned faults_kind;  // which kinds did
bool fault(unsigned kind);    // does this operation fail?
// The crash: once it has happened nothing reaches the store any more, while the
// program, which has not noticed, still runs on.
extern bool crash_armed;      // it may happen at any operation from now on
extern bool crashed;
bool lost();                  // is the effect of this operation lost?

// ------------------------------------------------------------ file system
struct Write
{
    uint64_t off;
    unsigned char* data;
    uint64_t n;
};
struct Node
{
    std::string path;
    bool dir = false;
    unsigned perm = 0755;
    uint64_t size = 0;
    std::vector<Write> log; // all writes since the last truncation
    unsigned truncations = 0;
    unsigned opens = 0;
    unsigned missed = 0;    // writes refused by fault injection
};
extern std::vector<Node*> nodes;
extern unsigned open_handles;
extern unsigned files_created, dirs_created, removals;
extern uint64_t direct_limit; // writes of at least this size are not buffered
extern uint64_t buffer_cap;
extern bool seekable_limit;

std::string norm(const char* p, size_t n);
Node* find(const char* p, size_t n);
inline Node* find(const std::string& s) { return find(s.data(), s.size()); }
bool is_dir(const char* p, size_t n);
bool exists(const char* p, size_t n);
// 0 created, 1 was there already, 2 refused
int make_dir(const char* p, size_t n);
int make_dirs(const char* p, size_t n);
int rename(const char* p, size_t n, const char* q, size_t m); // 0 or an error number
uint64_t remove_all(const char* p, size_t n, bool& ok);
Node* add_dir(const std::string& p, unsigned perm = 0755);
Node* add_file(const std::string& p);

enum : int { O_write = 1, O_creat = 2, O_trunc = 4, O_append = 8, O_read = 16, O_excl = 32 };
int open_file(const char* p, size_t n, int flags); // handle or -1
void close_file(int h);
bool valid_handle(int h);
// number of bytes written, or -1; partial writes only if allowed
int64_t write_at(int h, uint64_t off, const void* data, uint64_t n);
bool write_record(Node* nd, uint64_t off, unsigned char* copy, uint64_t n);
uint64_t file_size(int h);
Node* node_of(int h);
bool is_append(int h);
int64_t read_at(int h, uint64_t off, void* buf, uint64_t n);

// the byte at a position: 0 in holes and behind the end
unsigned char byte_at(const Node* nd, uint64_t pos);
// the same without a branch on the position
unsigned char byte_sel(const Node* nd, uint64_t pos);
// number of writes that covered a position since the last truncation
unsigned coverage(const Node* nd, uint64_t pos);
std::string content(const Node* nd); // concrete sizes only
void reset();
} // namespace vpenv
