// Shared by the scenarios about files: outcomes, injected faults, contents.
#pragma once
#include "lib.h"
#include "vfs.h"
#include <wreport/utils/sys.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <system_error>
#include <algorithm>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#pragma GCC diagnostic ignored "-Wunused-function"

using namespace sim;
namespace ws = wreport::sys;

namespace {

void prepare_files() { vfs::reset(); }

// Outcome of a call, with the errno carried by the exception
struct Res { bool ok = true; bool sys = false; int err = 0; bool alloc = false; std::string msg; };
template<typename F> Res go(F&& f)
{
    Res r;
    try { Sut s; f(); }
    catch (std::bad_alloc& e) { sut_depth = 0; r.ok = false; r.alloc = true; r.msg = "bad_alloc"; }
    catch (std::system_error& e) { sut_depth = 0; r.ok = false; r.sys = true; r.err = e.code().value(); r.msg = e.what(); }
    catch (std::exception& e) { sut_depth = 0; r.ok = false; r.msg = e.what(); }
    return r;
}

// ---------------------------------------------------------------- faults

struct Faults
{
    unsigned num = 0;                // out of 40 calls fail
    std::map<int, std::vector<std::pair<std::string, int>>> fired;   // by task
    std::vector<std::string> only;   // when not empty: calls that may fail
    std::vector<std::string> never;
    unsigned total = 0;
    std::set<std::string> ever;      // calls that failed at some point
    bool was(int task, int err) const
    {
        auto it = fired.find(task);
        if (it == fired.end()) return false;
        for (auto& f: it->second) if (f.second == err) return true;
        return false;
    }
    bool any(int task) const { auto it = fired.find(task); return it != fired.end() && !it->second.empty(); }
    bool call(int task, const char* c) const
    {
        auto it = fired.find(task);
        if (it == fired.end()) return false;
        for (auto& f: it->second) if (f.first == c) return true;
        return false;
    }
    void clear(int task) { fired[task].clear(); }
};
Faults faults;

struct FaultKind { const char* call; const char* name; std::vector<int> e; };
const FaultKind* kind_of(const char* call)
{
#define K(c, ...) {c, "fault." c "_failure", {__VA_ARGS__}}
    static const std::vector<FaultKind> tab = {
        K("open", EACCES, EMFILE, EIO, EINTR, ENOSPC, ENFILE, ENOMEM, EROFS, EPERM, EOVERFLOW),
        K("read", EINTR, EIO, EAGAIN, ENOMEM), K("pread", EINTR, EIO, EAGAIN),
        K("write", EINTR, EIO, ENOSPC, EDQUOT, EFBIG, EAGAIN, EPERM), K("pwrite", EINTR, EIO, ENOSPC, EDQUOT, EFBIG),
        K("close", EIO, ENOSPC, EINTR, EDQUOT),
        K("rename", EIO, EACCES, ENOSPC, EXDEV, EPERM, EROFS, EBUSY, EDQUOT), K("fchmod", EIO, EPERM, EROFS), K("fstat", EIO, ENOMEM, EOVERFLOW), K("mmap", ENOMEM, ENODEV, EACCES, EAGAIN),
        K("unlink", EIO, EACCES, EBUSY, EPERM, EROFS), K("rmdir", EIO, EACCES, EBUSY, EPERM, EROFS), K("mkdir", EACCES, ENOSPC, EDQUOT, EROFS, EMLINK),
        K("readdir", EIO, EOVERFLOW), K("fdopendir", EMFILE, ENOMEM), K("stat", EIO, EACCES, ENOMEM), K("dup", EMFILE), K("fcntl", EINVAL), K("lock", ENOLCK, EIO, EINTR, EDEADLK), K("utime", EPERM, EACCES, EIO), K("access", EACCES, EIO, ENOMEM), K("clock_gettime", EINVAL), K("chdir", EACCES, EIO),
        K("ftruncate", EIO, EPERM, EFBIG), K("futimens", EPERM, EIO, EROFS), K("fsync", EIO, ENOSPC, EDQUOT), K("fdatasync", EIO, ENOSPC, EDQUOT), K("lseek", EIO),
        K("symlink", ENOSPC, EACCES, EDQUOT, EROFS), K("readlink", EIO, EACCES, ENOMEM), K("setrlimit", EPERM), K("getrlimit", EFAULT),
    };
#undef K
    for (auto& t: tab) if (strcmp(t.call, call) == 0) return &t;
    return nullptr;
}

void install_faults(unsigned num, unsigned shorten)
{
    faults = Faults();
    faults.num = num;
    vfs::policy.fail = [](const char* c, const std::string& p) -> int {
        if (!faults.num) return 0;
        for (auto& n: faults.never) if (n == c) return 0;
        if (!faults.only.empty() && std::find(faults.only.begin(), faults.only.end(), c) == faults.only.end()) return 0;
        if (!chance(faults.num, 40, "fail")) return 0;
        const FaultKind* k = kind_of(c);
        if (!k) return 0;
        int e = k->e[draw(k->e.size(), "errno")];
        fault(k->name);
        faults.fired[in_tasks() ? task_id() : 0].emplace_back(c, e);
        ++faults.total;
        faults.ever.insert(c);
        return e;
    };
    if (shorten)
        vfs::policy.shorten = [](const char* c, const std::string&, size_t n) -> size_t {
            if (!chance(1, 2, "short")) return n;
            if (strstr(c, "write") && chance(1, 8, "empty")) return 0;
            return 1 + draw(n, "short-len");
        };
}

std::string body(unsigned id)
{
    unsigned n;
    switch (draw(5, "size")) { case 0: n = 0; break; case 1: n = 1 + draw(20, "len"); break; case 2: n = 4096; break; default: n = draw(9000, "len"); break; }
    std::string r = "v" + std::to_string(id) + ":";
    uint64_t s = id * 2654435761u + 12345;
    while (r.size() < n) { s = s * 6364136223846793005ull + 1442695040888963407ull; r += (char)(s >> 57); }
    return r;
}

std::string snapshot(const std::string& except)
{
    std::string r;
    for (auto& p: vfs::list_tree(""))
    {
        if (!except.empty() && (p == except || p.compare(0, except.size() + 1, except + "/") == 0)) continue;
        vfs::NodeP n = vfs::find(p, false);
        r += p + " " + std::to_string(n->type) + " " + std::to_string(n->mode) + " " + std::to_string(n->type == vfs::Node::DIR_ ? 0 : fnv(n->data)) + "\n";
    }
    return r;
}
std::string first_difference(const std::string& a, const std::string& b)
{
    size_t p = 0, l = 0;
    while (p < a.size() && p < b.size() && a[p] == b[p]) { if (a[p] == '\n') l = p + 1; ++p; }
    return "\"" + a.substr(l, a.find('\n', l) - l) + "\" became \"" + b.substr(l, b.find('\n', l) - l) + "\"";
}
}
