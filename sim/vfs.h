// Simulated file system, clock and descriptor table.  Every file-related libc
// call made by the library (or by libstdc++ on its behalf) lands here: the real
// file system is never reached from inside the system under test.
#pragma once
#include "core.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>

namespace sim { namespace vfs {

struct Node
{
    enum Type { FILE_, DIR_, LINK_, PIPE_ } type = FILE_;
    std::string data;                 // contents, or link target
    std::map<std::string, std::shared_ptr<Node>> kids;
    mode_t mode = 0644;
    ino_t ino = 0;
    int nlink = 1;
    struct timespec atime{}, mtime{};
};
typedef std::shared_ptr<Node> NodeP;

// Decisions about faults.  Everything defaults to "no fault".
struct Policy
{
    // Called for each operation that can fail: returns the errno to inject, or 0.
    std::function<int(const char* call, const std::string& path)> fail;
    // Maximum bytes to transfer in this read/write (>= 1), given what was asked
    std::function<size_t(const char* call, const std::string& path, size_t asked)> shorten;
    // Called before each operation (scheduling point)
    std::function<void(const char* call, const std::string& path)> before;
    // Called after each operation that changed the tree or file contents
    std::function<void(const char* call, const std::string& path)> changed;
    // Seed for the order of directory listings; 0: sorted by name
    uint64_t dir_order = 0;
    bool unknown_dtype = false;
    int64_t space = -1;               // free bytes on the device; -1: unlimited
};
extern Policy policy;
// Bad spot on the medium: returns the offset at which reading that file fails
// (data before it can be read), or -1
void set_read_error(const std::function<ssize_t(const std::string& path, off_t pos)>& f);

void reset();                         // empty file system, no descriptors
// Host-side access (no faults)
void put(const std::string& path, const std::string& data, mode_t mode = 0644);
void mkdirs(const std::string& path);
void put_link(const std::string& path, const std::string& target);
NodeP find(const std::string& path, bool follow = true);
bool exists(const std::string& path);
std::string get(const std::string& path);          // contents ("" if missing)
void del(const std::string& path);
std::vector<std::string> list(const std::string& dir);
std::vector<std::string> list_tree(const std::string& dir);
void load_real_dir(const std::string& real, const std::string& virt, const std::function<bool(const std::string&)>& want = nullptr);

// Descriptor accounting
unsigned open_fds();
unsigned bad_closes();                // close() of a descriptor that is not open
std::string describe_fds();
std::set<int> fd_set_();

mode_t current_umask();
unsigned open_maps();                 // mappings not yet unmapped

// Locks on ranges of files.  Open file description locks belong to the
// description, the traditional ones to the process (which never excludes itself).
struct Lock { const void* owner; const Node* node; int64_t start, end; short type; };   // end is exclusive
std::vector<Lock> locks();
// Called while a request to wait for a lock cannot be granted; returns the errno to fail with, or 0
extern std::function<int(const std::string& path)> lock_wait;

// Simulated clock
void set_clock(int64_t us);
int64_t clock_us();
void advance(int64_t us);

// pipes made by the SUT
struct PipeInfo { int rd, wr; };

// Used by the process seam
bool is_virtual(int fd);
void set_fd_base(int first);          // 0: the simulated process has descriptors 0, 1, 2...; reset() restores the default
void place(int fd, const std::string& path, int flags);
const void* identity(int fd);         // the open file description
std::string path_of(int fd);
int dup2_(int fd, int to);
std::string cwd_path();
unsigned wrong_closes();              // like bad_closes, without negative descriptors
int dup_to(int fd, int minimum);
void close_quiet(int fd);
std::vector<int> all_fds();
int make_pipe(int fds[2]);
NodeP node_of(int fd);
int flags_of(int fd);
}}
