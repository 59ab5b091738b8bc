#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <utime.h>

namespace sim { namespace vfs {

Policy policy;
static std::function<ssize_t(const std::string&, off_t)> read_error;
void set_read_error(const std::function<ssize_t(const std::string&, off_t)>& f) { read_error = f; }
std::function<int(const std::string&)> lock_wait;

namespace {
constexpr int FD_BASE = 1000;
int fd_base = FD_BASE;
unsigned n_wrong_closes = 0;

struct Open
{
    NodeP node;
    std::string path;
    off_t pos = 0;
    int flags = 0;
    int ends = 0;                      // pipe: 1 read end, 2 write end
};
struct Fd { std::shared_ptr<Open> o; bool cloexec = false; };
struct Held { std::weak_ptr<Open> o; bool process; NodeP node; int64_t start, end; short type; };
std::vector<Held> held_locks;
void drop_stale() { held_locks.erase(std::remove_if(held_locks.begin(), held_locks.end(), [](const Held& l) { return !l.process && l.o.expired(); }), held_locks.end()); }

NodeP root;
std::map<int, Fd> fds;
std::string cwd = "/sim";
mode_t cur_umask = 022;
ino_t next_ino = 1;
unsigned n_bad_closes = 0;
bool empty_write = false;   // a write may take nothing at all, though not twice in a row
unsigned temp_seq = 0;
int64_t now_us = 1700000000ll * 1000000;
std::map<FILE*, int> files;
std::map<void*, size_t> maps;

struct Dir { std::shared_ptr<Open> o; int fd; std::vector<std::pair<std::string, NodeP>> ents; size_t pos = 0; struct dirent ent; };
std::set<Dir*> dirs;

struct timespec ts_now() { struct timespec t; t.tv_sec = now_us / 1000000; t.tv_nsec = now_us % 1000000 * 1000; return t; }

NodeP new_node(Node::Type t, mode_t mode)
{
    NodeP n = std::make_shared<Node>();
    n->type = t; n->mode = mode; n->ino = next_ino++;
    n->atime = n->mtime = ts_now();
    return n;
}

std::vector<std::string> split(const std::string& p)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (i < p.size())
    {
        size_t e = p.find('/', i);
        if (e == std::string::npos) e = p.size();
        if (e > i) r.push_back(p.substr(i, e - i));
        i = e + 1;
    }
    return r;
}

// Result of walking a path: the parent directory, the last name, the node (may be null)
struct Walk { NodeP parent; std::string name; NodeP node; int err = 0; std::string full; };

Walk walk(NodeP start, const std::string& path, bool follow, int depth = 0)
{
    Walk w;
    if (depth > 20) { w.err = ELOOP; return w; }
    if (path.empty()) { w.err = ENOENT; return w; }
    NodeP cur = path[0] == '/' ? root : start;
    std::vector<NodeP> stack;
    std::vector<std::string> parts = split(path);
    bool trailing = path.back() == '/';
    w.node = cur;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        if (cur->type != Node::DIR_) { w.node = nullptr; w.parent = nullptr; w.err = ENOTDIR; return w; }
        const std::string& name = parts[i];
        if (name.size() > 255) { w.node = nullptr; w.err = ENAMETOOLONG; return w; }
        bool last = i + 1 == parts.size();
        if (name == ".") { w.parent = cur; w.name = name; w.node = cur; continue; }
        if (name == "..")
        {
            if (!stack.empty()) { cur = stack.back(); stack.pop_back(); }
            w.parent = cur; w.name = name; w.node = cur;
            continue;
        }
        w.parent = cur; w.name = name;
        auto it = cur->kids.find(name);
        if (it == cur->kids.end())
        {
            w.node = nullptr; w.err = ENOENT;
            if (!last) w.parent = nullptr;
            return w;
        }
        NodeP n = it->second;
        if (n->type == Node::LINK_ && (!last || follow || trailing))
        {
            Walk l = walk(cur, n->data, true, depth + 1);
            if (!l.node) { w.node = nullptr; w.err = l.err; w.parent = last ? l.parent : nullptr; w.name = l.name; return w; }
            n = l.node;
        }
        stack.push_back(cur);
        cur = n;
        w.node = n;
    }
    if (trailing && w.node && w.node->type != Node::DIR_) { w.node = nullptr; w.err = ENOTDIR; }
    return w;
}

NodeP cwd_node() { Walk w = walk(root, cwd, true); return w.node ? w.node : root; }

// resolve dirfd
NodeP at_node(int dfd, int& err)
{
    if (dfd == AT_FDCWD) return cwd_node();
    auto it = fds.find(dfd);
    if (it == fds.end()) { err = EBADF; return nullptr; }
    if (it->second.o->node->type != Node::DIR_) { err = ENOTDIR; return nullptr; }
    return it->second.o->node;
}

std::string at_path(int dfd, const char* p)
{
    if (p[0] == '/') return p;
    if (dfd == AT_FDCWD) return cwd + "/" + p;
    auto it = fds.find(dfd);
    return (it == fds.end() ? std::string("?") : it->second.o->path) + "/" + p;
}

int new_fd(std::shared_ptr<Open> o, bool cloexec, int minimum = -1)
{
    int fd = minimum < 0 ? fd_base : minimum;
    while (fds.count(fd)) ++fd;
    fds[fd] = Fd{o, cloexec};
    return fd;
}

int inject(const char* call, const std::string& path)
{
    if (policy.before) policy.before(call, path);
    if (!policy.fail) return 0;
    int e = policy.fail(call, path);
    if (e) ev("%s(%s) -> errno %d", call, path.c_str(), e);
    return e;
}
void changed(const char* call, const std::string& path) { if (policy.changed) policy.changed(call, path); }

void fill(const NodeP& n, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_dev = 42; st->st_ino = n->ino; st->st_nlink = n->nlink;
    mode_t t = n->type == Node::DIR_ ? S_IFDIR : n->type == Node::LINK_ ? S_IFLNK : n->type == Node::PIPE_ ? S_IFIFO : S_IFREG;
    st->st_mode = t | n->mode;
    st->st_size = n->data.size();
    st->st_blksize = 4096; st->st_blocks = (n->data.size() + 511) / 512;
    st->st_atim = n->atime; st->st_mtim = st->st_ctim = n->mtime;
}

#define FAIL(e) do { errno = (e); return -1; } while (0)

int v_open(int dfd, const char* path, int flags, mode_t mode)
{
    Host h;
    std::string full = at_path(dfd, path);
    if (int e = inject("open", full)) FAIL(e);
    int err = 0;
    NodeP at = path[0] == '/' ? root : at_node(dfd, err);
    if (!at) FAIL(err);
    Walk w = walk(at, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    if (!w.node)
    {
        if (w.err == ENOENT && (flags & O_CREAT) && w.parent)
        {
            w.node = new_node(Node::FILE_, mode & 07777 & ~cur_umask);
            w.parent->kids[w.name] = w.node;
            changed("create", full);
        }
        else FAIL(w.err);
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL)) FAIL(EEXIST);
        if ((flags & O_DIRECTORY) && w.node->type != Node::DIR_) FAIL(ENOTDIR);
        if (w.node->type == Node::LINK_ && !(flags & O_PATH)) FAIL(ELOOP);
        if (w.node->type == Node::DIR_ && (flags & O_ACCMODE) != O_RDONLY && !(flags & O_PATH)) FAIL(EISDIR);
        if ((flags & O_TRUNC) && w.node->type == Node::FILE_)
        {
            w.node->data.clear(); w.node->mtime = ts_now();
            changed("truncate", full);
        }
    }
    auto o = std::make_shared<Open>();
    o->node = w.node; o->path = full; o->flags = flags;
    return new_fd(o, flags & O_CLOEXEC);
}

Fd* get_fd(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : &it->second; }

ssize_t v_read(int fd, void* buf, size_t n, off_t at, bool positional, const char* name)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) FAIL(EBADF);
    std::shared_ptr<Open> o = f->o;
    if (int e = inject(name, o->path)) FAIL(e);
    if (o->flags & O_PATH) FAIL(EBADF);
    if (o->node->type == Node::DIR_) FAIL(EISDIR);
    if ((o->flags & O_ACCMODE) == O_WRONLY) FAIL(EBADF);
    off_t pos = positional ? at : o->pos;
    if (pos < 0) FAIL(EINVAL);
    size_t avail = (size_t)pos < o->node->data.size() ? o->node->data.size() - pos : 0;
    if (read_error)
    {
        ssize_t bad = read_error(o->path, pos);
        if (bad >= 0)
        {
            if (pos >= bad) { fault("fault.read_eio"); ev("read(%s) at %lld -> EIO", o->path.c_str(), (long long)pos); FAIL(EIO); }
            avail = std::min<size_t>(avail, bad - pos);
        }
    }
    n = std::min(n, avail);
    if (n > 1 && policy.shorten)
    {
        size_t k = policy.shorten(name, o->path, n);
        if (k < n) { n = std::max<size_t>(k, 1); count("fault.short_read"); }
    }
    if (n) memcpy(buf, o->node->data.data() + pos, n);
    if (!positional) o->pos = pos + n;
    return n;
}

ssize_t v_write(int fd, const void* buf, size_t n, off_t at, bool positional, const char* name)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) FAIL(EBADF);
    std::shared_ptr<Open> o = f->o;
    if (int e = inject(name, o->path)) FAIL(e);
    if (o->flags & O_PATH) FAIL(EBADF);
    if ((o->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
    if (n == 0) return 0;
    if (n > 1 && policy.shorten)
    {
        size_t k = policy.shorten(name, o->path, n);
        if (k == 0 && !empty_write) { empty_write = true; fault("fault.empty_write"); return 0; }
        empty_write = false;
        if (k < n) { n = std::max<size_t>(k, 1); count("fault.short_write"); }
    }
    if (policy.space >= 0)
    {
        if (policy.space == 0) { fault("fault.enospc"); FAIL(ENOSPC); }
        if ((int64_t)n > policy.space) { n = policy.space; count("fault.short_write"); }
        policy.space -= n;
    }
    off_t pos = positional ? at : (o->flags & O_APPEND) ? o->node->data.size() : o->pos;
    if (pos < 0) FAIL(EINVAL);
    std::string& d = o->node->data;
    if (d.size() < pos + n) d.resize(pos + n);
    memcpy(&d[pos], buf, n);
    if (!positional) o->pos = pos + n;
    o->node->mtime = ts_now();
    changed(name, o->path);
    return n;
}

int v_stat(int dfd, const char* path, struct stat* st, bool follow)
{
    Host h;
    std::string full = at_path(dfd, path);
    if (int e = inject("stat", full)) FAIL(e);
    int err = 0;
    NodeP at = path[0] == '/' ? root : at_node(dfd, err);
    if (!at) FAIL(err);
    Walk w = walk(at, path, follow);
    if (!w.node) FAIL(w.err);
    fill(w.node, st);
    return 0;
}

int v_fstat(int fd, struct stat* st)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) FAIL(EBADF);
    if (int e = inject("fstat", f->o->path)) FAIL(e);
    fill(f->o->node, st);
    return 0;
}

int v_close(int fd)
{
    Host h;
    auto it = fds.find(fd);
    if (it == fds.end()) { ++n_bad_closes; if (fd >= 0) ++n_wrong_closes; ev("close(%d): not open", fd); FAIL(EBADF); }
    std::string path = it->second.o->path;
    int e = inject("close", path);
    NodeP gone = it->second.o->node;
    held_locks.erase(std::remove_if(held_locks.begin(), held_locks.end(), [&](const Held& l) { return l.process && l.node == gone; }), held_locks.end());
    fds.erase(fd);                // as on Linux, the descriptor is gone even on error
    if (e) FAIL(e);
    return 0;
}

int v_unlink(int dfd, const char* path, bool dir, bool either = false)
{
    Host h;
    std::string full = at_path(dfd, path);
    if (int e = inject(dir ? "rmdir" : "unlink", full)) FAIL(e);
    int err = 0;
    NodeP at = path[0] == '/' ? root : at_node(dfd, err);
    if (!at) FAIL(err);
    Walk w = walk(at, path, false);
    if (!w.node) FAIL(w.err);
    bool isdir = w.node->type == Node::DIR_;
    if (either) dir = isdir;
    if (w.name == "." || w.name == "..") FAIL(EINVAL);
    if (dir && !isdir) FAIL(ENOTDIR);
    if (!dir && isdir) FAIL(EISDIR);
    if (dir && !w.node->kids.empty()) FAIL(ENOTEMPTY);
    if (!w.parent) FAIL(EBUSY);
    w.node->nlink--;
    w.parent->kids.erase(w.name);
    changed(dir ? "rmdir" : "unlink", full);
    return 0;
}

int v_mkdir(int dfd, const char* path, mode_t mode)
{
    Host h;
    std::string full = at_path(dfd, path);
    if (int e = inject("mkdir", full)) FAIL(e);
    int err = 0;
    NodeP at = path[0] == '/' ? root : at_node(dfd, err);
    if (!at) FAIL(err);
    Walk w = walk(at, path, false);
    if (w.node) FAIL(EEXIST);
    if (w.err != ENOENT || !w.parent) FAIL(w.err);
    w.parent->kids[w.name] = new_node(Node::DIR_, mode & 07777 & ~cur_umask);
    changed("mkdir", full);
    return 0;
}

int v_rename(const char* from, const char* to)
{
    Host h;
    std::string ff = at_path(AT_FDCWD, from), tt = at_path(AT_FDCWD, to);
    if (int e = inject("rename", tt)) FAIL(e);
    Walk a = walk(cwd_node(), from, false);
    if (!a.node) FAIL(a.err);
    Walk b = walk(cwd_node(), to, false);
    if (!b.node && (b.err != ENOENT || !b.parent)) FAIL(b.err);
    if (b.node)
    {
        if (b.node == a.node) return 0;
        if (b.node->type == Node::DIR_ && a.node->type != Node::DIR_) FAIL(EISDIR);
        if (b.node->type != Node::DIR_ && a.node->type == Node::DIR_) FAIL(ENOTDIR);
        if (b.node->type == Node::DIR_ && !b.node->kids.empty()) FAIL(ENOTEMPTY);
    }
    if (!a.parent || !b.parent) FAIL(EBUSY);
    NodeP n = a.node;
    a.parent->kids.erase(a.name);
    b.parent->kids[b.name] = n;
    changed("rename", tt);
    return 0;
}

bool temp_name(char* templ)
{
    size_t l = strlen(templ);
    if (l < 6 || strcmp(templ + l - 6, "XXXXXX") != 0) { errno = EINVAL; return false; }
    char b[16];
    snprintf(b, sizeof b, "%06u", ++temp_seq % 1000000);
    memcpy(templ + l - 6, b, 6);
    return true;
}

// ---- FILE* on virtual files
ssize_t c_read(void* c, char* buf, size_t n) { return v_read((int)(intptr_t)c, buf, n, 0, false, "read"); }
ssize_t c_write(void* c, const char* buf, size_t n)
{
    // fopencookie reports errors as 0
    size_t done = 0;
    while (done < n)
    {
        ssize_t r = v_write((int)(intptr_t)c, buf + done, n - done, 0, false, "write");
        if (r < 0) { if (errno == EINTR) continue; return done; }
        done += r;
    }
    return done;
}
int c_seek(void* c, off64_t* off, int whence)
{
    Fd* f = get_fd((int)(intptr_t)c);
    if (!f) FAIL(EBADF);
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->o->pos : (off64_t)f->o->node->data.size();
    if (base + *off < 0) FAIL(EINVAL);
    *off = f->o->pos = base + *off;
    return 0;
}
int c_close(void* c) { return v_close((int)(intptr_t)c); }

FILE* v_fdopen(int fd, const char* mode)
{
    Host h;
    cookie_io_functions_t io{c_read, c_write, c_seek, c_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
    if (f) files[f] = fd;
    return f;
}

FILE* v_fopen(const char* path, const char* mode)
{
    Host h;
    int flags = 0;
    bool plus = strchr(mode, '+');
    switch (mode[0])
    {
        case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }
    int fd = v_open(AT_FDCWD, path, flags, 0666);
    if (fd < 0) return nullptr;
    char m[8]; int k = 0;
    m[k++] = mode[0]; if (plus) m[k++] = '+'; m[k] = 0;
    return v_fdopen(fd, m);
}

NodeP parent_of(const NodeP& dir, const NodeP& n)
{
    for (auto& k: dir->kids)
    {
        if (k.second == n) return dir;
        if (k.second->type == Node::DIR_) if (NodeP p = parent_of(k.second, n)) return p;
    }
    return nullptr;
}

Dir* v_fdopendir(int fd)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) { errno = EBADF; return nullptr; }
    if (int e = inject("fdopendir", f->o->path)) { errno = e; return nullptr; }
    if (f->o->flags & O_PATH) { errno = EBADF; return nullptr; }
    if (f->o->node->type != Node::DIR_) { errno = ENOTDIR; return nullptr; }
    Dir* d = new Dir;
    d->o = f->o; d->fd = fd;
    d->ents.emplace_back(".", f->o->node);
    NodeP up = parent_of(root, f->o->node);
    d->ents.emplace_back("..", up ? up : f->o->node);
    for (auto& k: f->o->node->kids) d->ents.emplace_back(k.first, k.second);
    if (policy.dir_order)
    {
        uint64_t s = policy.dir_order;
        for (size_t i = d->ents.size(); i > 1; --i)
        {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            std::swap(d->ents[i - 1], d->ents[(s >> 33) % i]);
        }
    }
    dirs.insert(d);
    return d;
}

struct dirent* v_readdir(Dir* d)
{
    Host h;
    if (int e = inject("readdir", d->o->path)) { errno = e; return nullptr; }
    if (d->pos >= d->ents.size()) return nullptr;
    auto& e = d->ents[d->pos++];
    memset(&d->ent, 0, sizeof d->ent);
    d->ent.d_ino = e.second->ino;
    d->ent.d_off = d->pos;
    d->ent.d_reclen = sizeof d->ent;
    d->ent.d_type = policy.unknown_dtype ? DT_UNKNOWN : e.second->type == Node::DIR_ ? DT_DIR : e.second->type == Node::LINK_ ? DT_LNK : DT_REG;
    snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", e.first.c_str());
    return &d->ent;
}
}

std::vector<Lock> locks()
{
    Host h;
    drop_stale();
    std::vector<Lock> r;
    for (auto& l: held_locks) r.push_back(Lock{l.process ? nullptr : (const void*)l.o.lock().get(), l.node.get(), l.start, l.end, l.type});
    return r;
}

void reset()
{
    policy = Policy();
    read_error = nullptr;
    fds.clear(); files.clear(); maps.clear(); held_locks.clear(); lock_wait = nullptr;
    for (auto* d: dirs) delete d;
    dirs.clear();
    next_ino = 1; empty_write = false; n_bad_closes = n_wrong_closes = 0; fd_base = FD_BASE; temp_seq = 0; cwd = "/sim"; cur_umask = 022;
    now_us = 1700000000ll * 1000000;
    root = new_node(Node::DIR_, 0755);
    mkdirs("/sim");
    mkdirs("/tmp");
}

void mkdirs(const std::string& path)
{
    Host h;
    NodeP n = root;
    for (auto& p: split(path))
    {
        auto& k = n->kids[p];
        if (!k) k = new_node(Node::DIR_, 0755);
        n = k;
    }
}
static std::pair<std::string, std::string> dirbase(const std::string& path)
{
    size_t s = path.rfind('/');
    return {path.substr(0, s), path.substr(s + 1)};
}
void put(const std::string& path, const std::string& data, mode_t mode)
{
    Host h;
    auto db = dirbase(path);
    mkdirs(db.first);
    Walk w = walk(root, db.first.empty() ? "/" : db.first, true);
    auto& k = w.node->kids[db.second];
    k = new_node(Node::FILE_, mode);
    k->data = data;
}
void put_link(const std::string& path, const std::string& target)
{
    Host h;
    auto db = dirbase(path);
    mkdirs(db.first);
    Walk w = walk(root, db.first, true);
    auto& k = w.node->kids[db.second];
    k = new_node(Node::LINK_, 0777);
    k->data = target;
}
NodeP find(const std::string& path, bool follow) { Host h; return walk(root, path, follow).node; }
bool exists(const std::string& path) { return (bool)find(path); }
std::string get(const std::string& path) { NodeP n = find(path); return n ? n->data : std::string(); }
void del(const std::string& path) { Host h; Walk w = walk(root, path, false); if (w.node && w.parent) w.parent->kids.erase(w.name); }
std::vector<std::string> list(const std::string& dir)
{
    Host h;
    std::vector<std::string> r;
    NodeP n = find(dir);
    if (n) for (auto& k: n->kids) r.push_back(k.first);
    return r;
}
static void list_rec(const NodeP& n, const std::string& p, std::vector<std::string>& r)
{
    for (auto& k: n->kids)
    {
        r.push_back(p + "/" + k.first);
        if (k.second->type == Node::DIR_) list_rec(k.second, p + "/" + k.first, r);
    }
}
std::vector<std::string> list_tree(const std::string& dir)
{
    Host h;
    std::vector<std::string> r;
    NodeP n = dir.empty() ? root : find(dir);
    if (n) list_rec(n, dir, r);
    return r;
}
mode_t current_umask() { return cur_umask; }
unsigned open_maps() { return maps.size(); }
unsigned open_fds() { return fds.size(); }
unsigned bad_closes() { return n_bad_closes; }
std::string describe_fds()
{
    std::string r;
    for (auto& f: fds) r += " " + std::to_string(f.first) + "=" + f.second.o->path;
    return r;
}
std::set<int> fd_set_() { std::set<int> r; for (auto& f: fds) r.insert(f.first); return r; }
std::vector<int> all_fds() { std::vector<int> r; for (auto& f: fds) r.push_back(f.first); return r; }
bool is_virtual(int fd) { if (fd_base < FD_BASE) return sut_depth > 0; return fds.count(fd) || (fd >= FD_BASE && fd < FD_BASE + 100000); }
NodeP node_of(int fd) { Fd* f = get_fd(fd); return f ? f->o->node : nullptr; }
int flags_of(int fd) { Fd* f = get_fd(fd); return f ? f->o->flags : -1; }
void set_fd_base(int first) { fd_base = first; }
void place(int fd, const std::string& path, int flags) { Host h; auto o = std::make_shared<Open>(); o->node = find(path); if (!o->node) harness_error("place: no %s", path.c_str()); o->path = path; o->flags = flags; fds[fd] = Fd{o, false}; }
const void* identity(int fd) { Fd* f = get_fd(fd); return f ? f->o.get() : nullptr; }
std::string path_of(int fd) { Fd* f = get_fd(fd); return f ? f->o->path : "closed"; }
int dup2_(int fd, int to) { Fd* f = get_fd(fd); if (!f || to < 0) FAIL(EBADF); if (fd != to) { auto o = f->o; fds[to] = Fd{o, false}; } return to; }
std::string cwd_path() { return cwd; }
unsigned wrong_closes() { return n_wrong_closes; }
void close_quiet(int fd) { fds.erase(fd); }
int dup_to(int fd, int minimum) { Fd* f = get_fd(fd); if (!f) return -1; return new_fd(f->o, false, minimum); }
int make_pipe(int p[2])
{
    Host h;
    NodeP n = new_node(Node::PIPE_, 0600);
    auto r = std::make_shared<Open>(), w = std::make_shared<Open>();
    r->node = w->node = n;
    r->path = "pipe:r"; w->path = "pipe:w";
    r->flags = O_RDONLY; w->flags = O_WRONLY | O_APPEND;
    r->ends = 1; w->ends = 2;
    p[0] = new_fd(r, false);
    p[1] = new_fd(w, false);
    return 0;
}
void set_clock(int64_t us) { now_us = us; }
int64_t clock_us() { return now_us; }
void advance(int64_t us) { now_us += us; if (us > 0) sh->sim_time_us += us; }

void load_real_dir(const std::string& real, const std::string& virt, const std::function<bool(const std::string&)>& want)
{
    Host h;
    for (auto& n: list_real(real))
        if (!want || want(n)) put(virt + "/" + n, slurp_real(real + "/" + n));
}

}

std::vector<std::string> list_real(const std::string& dir)
{
    std::vector<std::string> r;
    int fd = ::syscall(SYS_openat, AT_FDCWD, dir.c_str(), O_RDONLY | O_DIRECTORY);
    if (fd < 0) return r;
    alignas(8) char buf[32768];
    struct linux_dirent64 { ino64_t d_ino; off64_t d_off; unsigned short d_reclen; unsigned char d_type; char d_name[]; };
    long n;
    while ((n = ::syscall(SYS_getdents64, fd, buf, sizeof buf)) > 0)
        for (long o = 0; o < n; )
        {
            auto* e = (linux_dirent64*)(buf + o);
            std::string name = e->d_name;
            if (name != "." && name != "..") r.push_back(name);
            o += e->d_reclen;
        }
    ::syscall(SYS_close, fd);
    std::sort(r.begin(), r.end());
    return r;
}

}

using namespace sim;
using namespace sim::vfs;

#define IN_SUT (sim::sut_depth > 0)
#define VFD(fd) (sim::vfs::is_virtual(fd))

extern "C" {
#define REAL(ret, name, args) ret __real_##name args;
REAL(int, open, (const char*, int, ...)) REAL(int, open64, (const char*, int, ...))
REAL(int, openat, (int, const char*, int, ...)) REAL(int, openat64, (int, const char*, int, ...))
REAL(int, creat, (const char*, mode_t))
REAL(FILE*, fopen, (const char*, const char*)) REAL(FILE*, fopen64, (const char*, const char*))
REAL(FILE*, fdopen, (int, const char*))
REAL(int, fileno, (FILE*)) REAL(int, fclose, (FILE*))
REAL(ssize_t, read, (int, void*, size_t)) REAL(ssize_t, write, (int, const void*, size_t))
REAL(ssize_t, pread, (int, void*, size_t, off_t)) REAL(ssize_t, pread64, (int, void*, size_t, off_t))
REAL(ssize_t, pwrite, (int, const void*, size_t, off_t)) REAL(ssize_t, pwrite64, (int, const void*, size_t, off_t))
REAL(off_t, lseek, (int, off_t, int)) REAL(off_t, lseek64, (int, off_t, int))
REAL(int, fstat, (int, struct stat*)) REAL(int, fstat64, (int, struct stat*))
REAL(int, stat, (const char*, struct stat*)) REAL(int, stat64, (const char*, struct stat*))
REAL(int, lstat, (const char*, struct stat*)) REAL(int, lstat64, (const char*, struct stat*))
REAL(int, fstatat, (int, const char*, struct stat*, int)) REAL(int, fstatat64, (int, const char*, struct stat*, int))
REAL(int, close, (int))
REAL(int, fsync, (int)) REAL(int, fdatasync, (int))
REAL(int, ftruncate, (int, off_t)) REAL(int, ftruncate64, (int, off_t))
REAL(int, fchmod, (int, mode_t)) REAL(int, chmod, (const char*, mode_t)) REAL(int, fchmodat, (int, const char*, mode_t, int))
REAL(int, rename, (const char*, const char*)) REAL(int, renameat, (int, const char*, int, const char*))
REAL(int, unlink, (const char*)) REAL(int, unlinkat, (int, const char*, int)) REAL(int, remove, (const char*))
REAL(int, mkdir, (const char*, mode_t)) REAL(int, mkdirat, (int, const char*, mode_t)) REAL(int, rmdir, (const char*))
REAL(int, mkstemp, (char*)) REAL(int, mkstemp64, (char*)) REAL(char*, mkdtemp, (char*)) REAL(int, mkostemp, (char*, int))
REAL(DIR*, opendir, (const char*)) REAL(DIR*, fdopendir, (int)) REAL(struct dirent*, readdir, (DIR*)) REAL(struct dirent*, readdir64, (DIR*))
REAL(int, closedir, (DIR*)) REAL(int, dirfd, (DIR*))
REAL(void*, mmap, (void*, size_t, int, int, int, off_t)) REAL(void*, mmap64, (void*, size_t, int, int, int, off_t)) REAL(int, munmap, (void*, size_t))
REAL(int, fcntl, (int, int, ...)) REAL(int, fcntl64, (int, int, ...))
REAL(int, dup, (int))
REAL(int, futimens, (int, const struct timespec*)) REAL(int, utimensat, (int, const char*, const struct timespec*, int)) REAL(int, utime, (const char*, const struct utimbuf*))
REAL(int, access, (const char*, int)) REAL(int, faccessat, (int, const char*, int, int)) 
REAL(int, symlink, (const char*, const char*)) REAL(int, symlinkat, (const char*, int, const char*))
REAL(ssize_t, readlink, (const char*, char*, size_t)) REAL(ssize_t, readlinkat, (int, const char*, char*, size_t))
REAL(int, link, (const char*, const char*))
REAL(mode_t, umask, (mode_t)) REAL(int, chdir, (const char*)) REAL(int, chroot, (const char*)) REAL(char*, getcwd, (char*, size_t))
REAL(int, truncate, (const char*, off_t))
REAL(int, clock_gettime, (clockid_t, struct timespec*)) REAL(time_t, time, (time_t*)) REAL(int, gettimeofday, (struct timeval*, void*))
REAL(int, isatty, (int))
REAL(pid_t, getpid, ())
REAL(int, getrlimit, (__rlimit_resource_t, struct rlimit*)) REAL(int, setrlimit, (__rlimit_resource_t, const struct rlimit*))
REAL(int, getrlimit64, (__rlimit_resource_t, struct rlimit64*)) REAL(int, setrlimit64, (__rlimit_resource_t, const struct rlimit64*))
#define W(ret, name, args) ret __wrap_##name args; ret __wrap_##name args

#define GETMODE(flags, last) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
W(int, open, (const char* p, int flags, ...)) { GETMODE(flags, flags); if (IN_SUT) return v_open(AT_FDCWD, p, flags, mode); return __real_open(p, flags, mode); }
W(int, open64, (const char* p, int flags, ...)) { GETMODE(flags, flags); if (IN_SUT) return v_open(AT_FDCWD, p, flags, mode); return __real_open(p, flags, mode); }
W(int, openat, (int d, const char* p, int flags, ...)) { GETMODE(flags, flags); if (IN_SUT) return v_open(d, p, flags, mode); return __real_openat(d, p, flags, mode); }
W(int, openat64, (int d, const char* p, int flags, ...)) { GETMODE(flags, flags); if (IN_SUT) return v_open(d, p, flags, mode); return __real_openat(d, p, flags, mode); }
W(int, creat, (const char* p, mode_t mode)) { if (IN_SUT) return v_open(AT_FDCWD, p, O_CREAT|O_WRONLY|O_TRUNC, mode); return __real_creat(p, mode); }
W(FILE*, fopen, (const char* p, const char* m)) { if (IN_SUT) return v_fopen(p, m); return __real_fopen(p, m); }
W(FILE*, fopen64, (const char* p, const char* m)) { if (IN_SUT) return v_fopen(p, m); return __real_fopen(p, m); }
W(FILE*, fdopen, (int fd, const char* m)) { if (VFD(fd)) return v_fdopen(fd, m); return __real_fdopen(fd, m); }
W(int, fileno, (FILE* f)) { Host h; auto it = files.find(f); if (it != files.end()) return it->second; return __real_fileno(f); }
W(int, fclose, (FILE* f)) { Host h; files.erase(f); return __real_fclose(f); }
W(ssize_t, read, (int fd, void* b, size_t n)) { if (VFD(fd)) return v_read(fd, b, n, 0, false, "read"); return __real_read(fd, b, n); }
W(ssize_t, write, (int fd, const void* b, size_t n)) { if (VFD(fd)) return v_write(fd, b, n, 0, false, "write"); return __real_write(fd, b, n); }
W(ssize_t, pread, (int fd, void* b, size_t n, off_t o)) { if (VFD(fd)) return v_read(fd, b, n, o, true, "pread"); return __real_pread(fd, b, n, o); }
W(ssize_t, pread64, (int fd, void* b, size_t n, off_t o)) { if (VFD(fd)) return v_read(fd, b, n, o, true, "pread"); return __real_pread(fd, b, n, o); }
W(ssize_t, pwrite, (int fd, const void* b, size_t n, off_t o)) { if (VFD(fd)) return v_write(fd, b, n, o, true, "pwrite"); return __real_pwrite(fd, b, n, o); }
W(ssize_t, pwrite64, (int fd, const void* b, size_t n, off_t o)) { if (VFD(fd)) return v_write(fd, b, n, o, true, "pwrite"); return __real_pwrite(fd, b, n, o); }
static off_t do_lseek(int fd, off_t o, int wh)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) FAIL(EBADF);
    if (int e = inject("lseek", f->o->path)) FAIL(e);
    if (f->o->ends) FAIL(ESPIPE);
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->o->pos : wh == SEEK_END ? (off_t)f->o->node->data.size() : -1;
    if (base < 0 || base + o < 0) FAIL(EINVAL);
    return f->o->pos = base + o;
}
W(off_t, lseek, (int fd, off_t o, int wh)) { if (VFD(fd)) return do_lseek(fd, o, wh); return __real_lseek(fd, o, wh); }
W(off_t, lseek64, (int fd, off_t o, int wh)) { if (VFD(fd)) return do_lseek(fd, o, wh); return __real_lseek(fd, o, wh); }
W(int, fstat, (int fd, struct stat* st)) { if (VFD(fd)) return v_fstat(fd, st); return __real_fstat(fd, st); }
W(int, fstat64, (int fd, struct stat* st)) { if (VFD(fd)) return v_fstat(fd, st); return __real_fstat(fd, st); }
W(int, stat, (const char* p, struct stat* st)) { if (IN_SUT) return v_stat(AT_FDCWD, p, st, true); return __real_stat(p, st); }
W(int, stat64, (const char* p, struct stat* st)) { if (IN_SUT) return v_stat(AT_FDCWD, p, st, true); return __real_stat(p, st); }
W(int, lstat, (const char* p, struct stat* st)) { if (IN_SUT) return v_stat(AT_FDCWD, p, st, false); return __real_lstat(p, st); }
W(int, lstat64, (const char* p, struct stat* st)) { if (IN_SUT) return v_stat(AT_FDCWD, p, st, false); return __real_lstat(p, st); }
W(int, fstatat, (int d, const char* p, struct stat* st, int fl)) { if (IN_SUT) { if (!*p && (fl & AT_EMPTY_PATH)) return v_fstat(d, st); return v_stat(d, p, st, !(fl & AT_SYMLINK_NOFOLLOW)); } return __real_fstatat(d, p, st, fl); }
W(int, fstatat64, (int d, const char* p, struct stat* st, int fl)) { return __wrap_fstatat(d, p, st, fl); }
W(int, close, (int fd)) { if (VFD(fd)) return v_close(fd); if (IN_SUT && fd < 0) { Host h; ++n_bad_closes; FAIL(EBADF); } return __real_close(fd); }
static int do_sync(int fd, const char* n) { Host h; Fd* f = get_fd(fd); if (!f) FAIL(EBADF); if (int e = inject(n, f->o->path)) FAIL(e); return 0; }
W(int, fsync, (int fd)) { if (VFD(fd)) return do_sync(fd, "fsync"); return __real_fsync(fd); }
W(int, fdatasync, (int fd)) { if (VFD(fd)) return do_sync(fd, "fdatasync"); return __real_fdatasync(fd); }
static int do_trunc(int fd, off_t l) { Host h; Fd* f = get_fd(fd); if (!f) FAIL(EBADF); if (int e = inject("ftruncate", f->o->path)) FAIL(e); f->o->node->data.resize(l); changed("truncate", f->o->path); return 0; }
W(int, ftruncate, (int fd, off_t l)) { if (VFD(fd)) return do_trunc(fd, l); return __real_ftruncate(fd, l); }
W(int, ftruncate64, (int fd, off_t l)) { if (VFD(fd)) return do_trunc(fd, l); return __real_ftruncate(fd, l); }
W(int, truncate, (const char* p, off_t l)) { if (!IN_SUT) return __real_truncate(p, l); Host h; Walk w = walk(cwd_node(), p, true); if (!w.node) FAIL(w.err); w.node->data.resize(l); changed("truncate", p); return 0; }
W(int, fchmod, (int fd, mode_t m)) { if (!VFD(fd)) return __real_fchmod(fd, m); Host h; Fd* f = get_fd(fd); if (!f) FAIL(EBADF); if (int e = inject("fchmod", f->o->path)) FAIL(e); f->o->node->mode = m & 07777; return 0; }
W(int, chmod, (const char* p, mode_t m)) { if (!IN_SUT) return __real_chmod(p, m); Host h; if (int e = inject("chmod", p)) FAIL(e); Walk w = walk(cwd_node(), p, true); if (!w.node) FAIL(w.err); w.node->mode = m & 07777; return 0; }
W(int, fchmodat, (int d, const char* p, mode_t m, int fl)) { if (!IN_SUT) return __real_fchmodat(d, p, m, fl); Host h; int err = 0; NodeP at = *p == '/' ? root : at_node(d, err); if (!at) FAIL(err); Walk w = walk(at, p, true); if (!w.node) FAIL(w.err); w.node->mode = m & 07777; return 0; }
W(int, rename, (const char* a, const char* b)) { if (IN_SUT) return v_rename(a, b); return __real_rename(a, b); }
W(int, renameat, (int d1, const char* a, int d2, const char* b)) { if (IN_SUT) { std::string x, y; { Host h; x = at_path(d1, a); y = at_path(d2, b); } int r = v_rename(x.c_str(), y.c_str()); Host h; x.clear(); x.shrink_to_fit(); return r; } return __real_renameat(d1, a, d2, b); }
W(int, unlink, (const char* p)) { if (IN_SUT) return v_unlink(AT_FDCWD, p, false); return __real_unlink(p); }
W(int, unlinkat, (int d, const char* p, int fl)) { if (IN_SUT) return v_unlink(d, p, fl & AT_REMOVEDIR); return __real_unlinkat(d, p, fl); }
W(int, remove, (const char* p)) { if (IN_SUT) return v_unlink(AT_FDCWD, p, false, true); return __real_remove(p); }
W(int, rmdir, (const char* p)) { if (IN_SUT) return v_unlink(AT_FDCWD, p, true); return __real_rmdir(p); }
W(int, mkdir, (const char* p, mode_t m)) { if (IN_SUT) return v_mkdir(AT_FDCWD, p, m); return __real_mkdir(p, m); }
W(int, mkdirat, (int d, const char* p, mode_t m)) { if (IN_SUT) return v_mkdir(d, p, m); return __real_mkdirat(d, p, m); }
static int do_mkstemp(char* t) { for (;;) { if (!temp_name(t)) return -1; int r = v_open(AT_FDCWD, t, O_RDWR|O_CREAT|O_EXCL, 0600); if (r >= 0 || errno != EEXIST) return r; memcpy(t + strlen(t) - 6, "XXXXXX", 6); } }
W(int, mkstemp, (char* t)) { if (IN_SUT) return do_mkstemp(t); return __real_mkstemp(t); }
W(int, mkstemp64, (char* t)) { if (IN_SUT) return do_mkstemp(t); return __real_mkstemp(t); }
W(int, mkostemp, (char* t, int fl)) { if (IN_SUT) return do_mkstemp(t); return __real_mkostemp(t, fl); }
W(char*, mkdtemp, (char* t)) { if (!IN_SUT) return __real_mkdtemp(t); for (;;) { if (!temp_name(t)) return nullptr; if (v_mkdir(AT_FDCWD, t, 0700) == 0) return t; if (errno != EEXIST) return nullptr; memcpy(t + strlen(t) - 6, "XXXXXX", 6); } }
W(DIR*, opendir, (const char* p))
{
    if (!IN_SUT) return __real_opendir(p);
    int fd = v_open(AT_FDCWD, p, O_RDONLY|O_DIRECTORY, 0);
    if (fd < 0) return nullptr;
    Dir* d = v_fdopendir(fd);
    if (!d) { int e = errno; Host h; fds.erase(fd); errno = e; }
    return (DIR*)d;
}
W(DIR*, fdopendir, (int fd)) { if (VFD(fd)) return (DIR*)v_fdopendir(fd); return __real_fdopendir(fd); }
W(struct dirent*, readdir, (DIR* d)) { if (dirs.count((Dir*)d)) return v_readdir((Dir*)d); if (IN_SUT) { Host h; harness_error("readdir on an unknown directory stream"); } return __real_readdir(d); }
W(struct dirent*, readdir64, (DIR* d)) { return __wrap_readdir(d); }
W(int, closedir, (DIR* d)) { Host h; auto it = dirs.find((Dir*)d); if (it == dirs.end()) return __real_closedir(d); int fd = (*it)->fd; delete *it; dirs.erase(it); return v_close(fd); }
W(int, dirfd, (DIR* d)) { Host h; if (dirs.count((Dir*)d)) return ((Dir*)d)->fd; return __real_dirfd(d); }
static void* do_mmap(void* a, size_t l, int prot, int fl, int fd, off_t off)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) { errno = EBADF; return MAP_FAILED; }
    if (int e = inject("mmap", f->o->path)) { errno = e; return MAP_FAILED; }
    if (!l) { errno = EINVAL; return MAP_FAILED; }
    void* p = __real_mmap(nullptr, l, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    if ((size_t)off < f->o->node->data.size()) memcpy(p, f->o->node->data.data() + off, std::min(l, f->o->node->data.size() - off));
    maps[p] = l;
    return p;
}
W(void*, mmap, (void* a, size_t l, int prot, int fl, int fd, off_t off)) { if (fd >= 0 && VFD(fd)) return do_mmap(a, l, prot, fl, fd, off); return __real_mmap(a, l, prot, fl, fd, off); }
W(void*, mmap64, (void* a, size_t l, int prot, int fl, int fd, off_t off)) { if (fd >= 0 && VFD(fd)) return do_mmap(a, l, prot, fl, fd, off); return __real_mmap(a, l, prot, fl, fd, off); }
W(int, munmap, (void* a, size_t l)) { Host h; if (a == MAP_FAILED) FAIL(EINVAL); maps.erase(a); return __real_munmap(a, l); }
static int do_lock(int fd, int cmd, struct flock* lk)
{
    bool process = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK;
    bool wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW, test = cmd == F_GETLK || cmd == F_OFD_GETLK;
    std::shared_ptr<Open> o = fds[fd].o;
    if (!process && lk->l_pid != 0) FAIL(EINVAL);
    if (lk->l_type != F_RDLCK && lk->l_type != F_WRLCK && lk->l_type != F_UNLCK) FAIL(EINVAL);
    if (o->flags & O_PATH) FAIL(EBADF);
    int acc = o->flags & O_ACCMODE;
    if (!test && ((lk->l_type == F_RDLCK && acc == O_WRONLY) || (lk->l_type == F_WRLCK && acc == O_RDONLY))) FAIL(EBADF);
    int64_t base = lk->l_whence == SEEK_SET ? 0 : lk->l_whence == SEEK_CUR ? o->pos : lk->l_whence == SEEK_END ? (int64_t)o->node->data.size() : -1;
    if (base < 0) FAIL(EINVAL);
    int64_t start = base + lk->l_start, end = lk->l_len == 0 ? INT64_MAX : start + lk->l_len;
    if (lk->l_len < 0) std::swap(start, end);
    if (start < 0) FAIL(EINVAL);
    auto mine = [&](const Held& l) { return process ? l.process : !l.process && l.o.lock() == o; };
    for (;;)
    {
        drop_stale();
        const Held* bad = nullptr;
        for (auto& l: held_locks)
            if (l.node == o->node && !mine(l) && l.start < end && start < l.end && lk->l_type != F_UNLCK && (l.type == F_WRLCK || lk->l_type == F_WRLCK)) { bad = &l; break; }
        if (test)
        {
            if (!bad) { lk->l_type = F_UNLCK; return 0; }
            lk->l_type = bad->type; lk->l_whence = SEEK_SET; lk->l_start = bad->start; lk->l_len = bad->end == INT64_MAX ? 0 : bad->end - bad->start; lk->l_pid = bad->process ? 4242 : -1;
            return 0;
        }
        if (!bad) break;
        if (!wait) { fault("fault.lock_refused"); FAIL(lock_wait && lock_wait("?") ? EACCES : EAGAIN); }
        count("probe.lock_waited");
        if (int e = lock_wait ? lock_wait(o->path) : 0) { ev("fcntl(%s) waiting -> errno %d", o->path.c_str(), e); FAIL(e); }
        if (!get_fd(fd)) FAIL(EBADF);
    }
    std::vector<Held> now;
    for (auto& l: held_locks)
    {
        if (l.node != o->node || !mine(l) || l.end <= start || end <= l.start) { now.push_back(l); continue; }
        if (l.start < start) { Held x = l; x.end = start; now.push_back(x); }
        if (l.end > end) { Held x = l; x.start = end; now.push_back(x); }
    }
    if (lk->l_type != F_UNLCK) now.push_back(Held{o, process, o->node, start, end, lk->l_type});
    held_locks = now;
    return 0;
}
static int do_fcntl(int fd, int cmd, long arg)
{
    Host h;
    Fd* f = get_fd(fd);
    if (!f) FAIL(EBADF);
    bool lock = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK;
    if (int e = inject(lock ? "lock" : "fcntl", f->o->path)) FAIL(e);
    if (lock) { if (!get_fd(fd)) FAIL(EBADF); return do_lock(fd, cmd, (struct flock*)arg); }
    switch (cmd)
    {
        case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
        case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0;
        case F_GETFL: return f->o->flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
        case F_SETFL: f->o->flags = (f->o->flags & ~(O_APPEND | O_NONBLOCK)) | (arg & (O_APPEND | O_NONBLOCK)); return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: return new_fd(f->o, cmd == F_DUPFD_CLOEXEC, std::max<int>(arg, FD_BASE));
        default: FAIL(EINVAL);
    }
}
W(int, fcntl, (int fd, int cmd, ...)) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); if (VFD(fd)) return do_fcntl(fd, cmd, arg); return __real_fcntl(fd, cmd, arg); }
W(int, fcntl64, (int fd, int cmd, ...)) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); if (VFD(fd)) return do_fcntl(fd, cmd, arg); return __real_fcntl(fd, cmd, arg); }
W(int, dup, (int fd)) { if (!VFD(fd)) return __real_dup(fd); Host h; Fd* f = get_fd(fd); if (!f) FAIL(EBADF); if (int e = inject("dup", f->o->path)) FAIL(e); return new_fd(f->o, false); }
static void set_times(NodeP n, const struct timespec* ts)
{
    struct timespec cur = ts_now();
    for (int i = 0; i < 2; ++i)
    {
        struct timespec& d = i ? n->mtime : n->atime;
        if (!ts || ts[i].tv_nsec == UTIME_NOW) d = cur;
        else if (ts[i].tv_nsec == UTIME_OMIT) continue;
        else d = ts[i];
    }
}
W(int, futimens, (int fd, const struct timespec* ts)) { if (!VFD(fd)) return __real_futimens(fd, ts); Host h; Fd* f = get_fd(fd); if (!f) FAIL(EBADF); if (int e = inject("futimens", f->o->path)) FAIL(e); set_times(f->o->node, ts); return 0; }
W(int, utimensat, (int d, const char* p, const struct timespec* ts, int fl)) { if (!IN_SUT) return __real_utimensat(d, p, ts, fl); Host h; int err = 0; NodeP at = *p == '/' ? root : at_node(d, err); if (!at) FAIL(err); Walk w = walk(at, p, true); if (!w.node) FAIL(w.err); set_times(w.node, ts); return 0; }
W(int, utime, (const char* p, const struct utimbuf* t)) { if (!IN_SUT) return __real_utime(p, t); Host h; if (int e = inject("utime", p)) FAIL(e); Walk w = walk(cwd_node(), p, true); if (!w.node) FAIL(w.err); struct timespec ts[2] = {{t ? t->actime : now_us / 1000000, 0}, {t ? t->modtime : now_us / 1000000, 0}}; set_times(w.node, ts); return 0; }
static int do_access(int d, const char* p, int m)
{
    Host h;
    if (int e = inject("access", at_path(d, p))) FAIL(e);
    int err = 0;
    NodeP at = *p == '/' ? root : at_node(d, err);
    if (!at) FAIL(err);
    Walk w = walk(at, p, true);
    if (!w.node) FAIL(w.err);
    if ((m & X_OK) && !(w.node->mode & 0111)) FAIL(EACCES);
    return 0;
}
W(int, access, (const char* p, int m)) { if (IN_SUT) return do_access(AT_FDCWD, p, m); return __real_access(p, m); }
W(int, faccessat, (int d, const char* p, int m, int fl)) { if (IN_SUT) return do_access(d, p, m); return __real_faccessat(d, p, m, fl); }
static int do_symlink(const char* t, int d, const char* p)
{
    Host h;
    if (int e = inject("symlink", at_path(d, p))) FAIL(e);
    int err = 0;
    NodeP at = *p == '/' ? root : at_node(d, err);
    if (!at) FAIL(err);
    Walk w = walk(at, p, false);
    if (w.node) FAIL(EEXIST);
    if (!w.parent) FAIL(w.err);
    NodeP n = new_node(Node::LINK_, 0777);
    n->data = t;
    w.parent->kids[w.name] = n;
    changed("symlink", at_path(d, p));
    return 0;
}
W(int, symlink, (const char* t, const char* p)) { if (IN_SUT) return do_symlink(t, AT_FDCWD, p); return __real_symlink(t, p); }
W(int, symlinkat, (const char* t, int d, const char* p)) { if (IN_SUT) return do_symlink(t, d, p); return __real_symlinkat(t, d, p); }
static ssize_t do_readlink(int d, const char* p, char* b, size_t n)
{
    Host h;
    if (int e = inject("readlink", at_path(d, p))) FAIL(e);
    int err = 0;
    NodeP at = *p == '/' ? root : at_node(d, err);
    if (!at) FAIL(err);
    Walk w = walk(at, p, false);
    if (!w.node) FAIL(w.err);
    if (w.node->type != Node::LINK_) FAIL(EINVAL);
    n = std::min(n, w.node->data.size());
    memcpy(b, w.node->data.data(), n);
    return n;
}
W(ssize_t, readlink, (const char* p, char* b, size_t n)) { if (IN_SUT) return do_readlink(AT_FDCWD, p, b, n); return __real_readlink(p, b, n); }
W(ssize_t, readlinkat, (int d, const char* p, char* b, size_t n)) { if (IN_SUT) return do_readlink(d, p, b, n); return __real_readlinkat(d, p, b, n); }
W(int, link, (const char* a, const char* b)) { if (!IN_SUT) return __real_link(a, b); Host h; if (int e = inject("link", b)) FAIL(e); Walk w = walk(cwd_node(), a, false); if (!w.node) FAIL(w.err); Walk x = walk(cwd_node(), b, false); if (x.node) FAIL(EEXIST); if (!x.parent) FAIL(x.err); x.parent->kids[x.name] = w.node; w.node->nlink++; changed("link", b); return 0; }
W(mode_t, umask, (mode_t m)) { if (!IN_SUT) return __real_umask(m); { Host h; if (policy.before) policy.before("umask", ""); } mode_t o = cur_umask; cur_umask = m & 0777; return o; }
W(int, chdir, (const char* p)) { if (!IN_SUT) return __real_chdir(p); Host h; std::string f = at_path(AT_FDCWD, p); if (int e = inject("chdir", f)) FAIL(e); Walk w = walk(cwd_node(), p, true); if (!w.node) FAIL(w.err); if (w.node->type != Node::DIR_) FAIL(ENOTDIR); cwd = f; return 0; }
W(int, chroot, (const char* p)) { if (!IN_SUT) return __real_chroot(p); FAIL(EPERM); }
W(char*, getcwd, (char* b, size_t n)) { if (!IN_SUT) return __real_getcwd(b, n); Host h; if (!b) { if (!n) n = cwd.size() + 1; b = (char*)malloc(n); } if (n <= cwd.size()) { errno = ERANGE; return nullptr; } memcpy(b, cwd.c_str(), cwd.size() + 1); return b; }
W(int, clock_gettime, (clockid_t c, struct timespec* t)) { if (!IN_SUT) return __real_clock_gettime(c, t); { Host h; if (int e = inject("clock_gettime", "")) FAIL(e); } *t = ts_now(); return 0; }
W(time_t, time, (time_t* t)) { if (!IN_SUT) return __real_time(t); time_t r = now_us / 1000000; if (t) *t = r; return r; }
W(int, gettimeofday, (struct timeval* t, void* z)) { if (!IN_SUT) return __real_gettimeofday(t, z); t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }
W(pid_t, getpid, ()) { if (IN_SUT) return 4242; return __real_getpid(); }
static std::map<int, struct rlimit> rlimits;
W(int, getrlimit, (__rlimit_resource_t r, struct rlimit* l)) { if (!IN_SUT) return __real_getrlimit(r, l); Host h; if (int e = inject("getrlimit", "")) FAIL(e); auto it = rlimits.find(r); if (it == rlimits.end()) *l = {1000, RLIM_INFINITY}; else *l = it->second; return 0; }
W(int, setrlimit, (__rlimit_resource_t r, const struct rlimit* l)) { if (!IN_SUT) return __real_setrlimit(r, l); Host h; if (int e = inject("setrlimit", "")) FAIL(e); rlimits[r] = *l; return 0; }
W(int, getrlimit64, (__rlimit_resource_t r, struct rlimit64* l)) { return __wrap_getrlimit(r, (struct rlimit*)l); }
W(int, setrlimit64, (__rlimit_resource_t r, const struct rlimit64* l)) { return __wrap_setrlimit(r, (const struct rlimit*)l); }
W(int, isatty, (int fd)) { if (IN_SUT || VFD(fd)) FAIL(ENOTTY); return __real_isatty(fd); }
}
