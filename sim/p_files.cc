// P16: files replaced atomically.  P17: whole buffers and files are read and
// written exactly.  P19: descriptors, mappings and temporary files are
// released, and removing a tree touches nothing else.
#include "files.h"

namespace {

// ---------------------------------------------------------------- P16

struct Version { std::string data; mode_t mode; bool absent = false; bool failed = false, done = false; };
std::vector<Version> versions;          // 0.. initial ones first
struct Target
{
    std::string path;
    std::vector<unsigned> history;       // versions it had, in order
    std::vector<unsigned> candidates;    // versions it may take
    int current() const { return history.back(); }
};
std::vector<Target> targets;

// Runs after every single change to the file system: each of these points is
// where the process may be killed
void observe(const char* call)
{
    for (auto& t: targets)
    {
        vfs::NodeP n = vfs::find(t.path, false);
        const Version& cur = versions[t.current()];
        bool same = n ? !cur.absent && n->type == vfs::Node::FILE_ && n->data == cur.data && n->mode == cur.mode : cur.absent;
        if (same) continue;
        bool found = false;
        for (unsigned c: t.candidates)
        {
            const Version& v = versions[c];
            if (n && n->data == v.data && n->mode == v.mode) { t.history.push_back(c); found = true; break; }
        }
        if (!found)
        {
            for (unsigned c: t.candidates) if (n && n->data == versions[c].data) violation("mode", "after %s: %s has the new contents but mode %o instead of %o", call, t.path.c_str(), n->mode, versions[c].mode);
            violation("torn", "after %s: %s is neither the old nor a complete new version: %s", call, t.path.c_str(), n ? ("mode " + std::to_string(n->mode) + ", " + std::to_string(n->data.size()) + " bytes \"" + printable(n->data, 40) + "\"").c_str() : "it does not exist");
        }
        count("probe.replaced");
    }
}

void run_p16()
{
    vfs::reset();
    versions.clear(); targets.clear();
    static const mode_t masks[] = {022, 077, 027, 0, 002};
    mode_t mask = masks[draw(5, "umask")];
    { Sut s; ::umask(mask); }
    static const mode_t modes[] = {0644, 0600, 0666, 0777, 0444, 0664};
    unsigned nt = 1 + draw(2, "targets");
    vfs::mkdirs("/sim/w");
    std::set<std::string> bystanders;
    for (unsigned i = 0; i < nt; ++i)
    {
        Target t; t.path = std::string("/sim/w/") + (i ? "other.txt" : "t");
        Version v;
        v.absent = chance(1, 3, "absent");
        if (!v.absent)
        {
            v.data = body(versions.size()); v.mode = modes[draw(6, "mode")];
            vfs::put(t.path, v.data, v.mode);
        }
        t.history.push_back(versions.size());
        t.candidates.push_back(versions.size());
        versions.push_back(v);
        targets.push_back(t);
        // left over from a process that was killed
        if (chance(1, 4, "stale"))
        {
            for (const char* s: {"000001", "000003"}) { vfs::put(t.path + s, "left over"); bystanders.insert(t.path + s); }
            for (unsigned k = 0; k < 3; ++k) { std::string p = t.path + ".4242." + std::to_string(k); vfs::put(p, "left over"); bystanders.insert(p); }
            count("probe.stale_temp");
        }
    }
    bool faulty = chance(1, 2, "faulty");
    install_faults(faulty ? 1 + draw(6, "rate") : 0, draw(2, "shorten"));
    if (chance(1, 6, "small-disk")) vfs::policy.space = draw(9000, "space");
    unsigned writers = 1 + draw(3, "writers"), readers = draw(3, "readers");
    unsigned per = 1 + draw(3, "writes");
    bool starve = writers == 1 && readers == 0 && chance(1, 3, "starve");
    vfs::policy.before = [](const char* c, const std::string&) { yield_point(c); };
    vfs::policy.changed = [](const char* c, const std::string&) { observe(c); };
    std::vector<std::function<void()>> tasks;
    bool disk_limit = vfs::policy.space >= 0;
    for (unsigned w = 0; w < writers; ++w)
        tasks.push_back([&, w] {
            for (unsigned k = 0; k < per; ++k)
            {
                Target& t = targets[draw(targets.size(), "target")];
                unsigned id = versions.size();
                Version v; v.data = body(id); v.mode = modes[draw(6, "mode")] & ~mask;
                mode_t mode = v.mode | (mask & (draw(2, "masked-bits") ? 0777 : 0));
                versions.push_back(v);
                t.candidates.push_back(id);
                std::string data = v.data;
                size_t h0 = t.history.size();
                int me = in_tasks() ? task_id() : 0;
                faults.clear(me);
                unsigned how = draw(5, "overload");
                bool armed = starve && chance(1, 2, "armed");
                if (armed) alloc::fail_at(1 + draw(12, "alloc"), draw(2, "sticky"));
                ev("writer %u: version %u (%zu bytes, mode %o) to %s", w, id, data.size(), mode, t.path.c_str());
                phase("write_file_atomically");
                std::filesystem::path fp(t.path);
                Res r = go([&] {
                    switch (how)
                    {
                        case 0: ws::write_file_atomically(fp, data, mode); break;
                        case 1: ws::write_file_atomically(t.path.c_str(), data, mode); break;
                        case 2: ws::write_file_atomically(t.path, data, mode); break;
                        case 3: ws::write_file_atomically(fp, data.data(), data.size(), mode); break;
                        default: ws::write_file_atomically(t.path, data.data(), data.size(), mode); break;
                    }
                });
                bool starved = alloc::fired();
                alloc::disarm();
                bool appeared = false;
                for (size_t i = h0; i < t.history.size(); ++i) if (t.history[i] == id) appeared = true;
                // versions may repeat: the same bytes and mode count as the same version
                if (!appeared && r.ok) for (size_t i = h0 - 1; i < t.history.size(); ++i) { const Version& x = versions[t.history[i]]; if (!x.absent && x.data == v.data && x.mode == v.mode) appeared = true; }
                ev("writer %u: %s", w, r.ok ? "done" : r.msg.c_str());
                if (r.ok && !appeared) violation("lost", "writing version %u to %s succeeded but it was never there", id, t.path.c_str());
                if (!r.ok)
                {
                    if (appeared) violation("failed-but-written", "writing version %u to %s failed (%s) but replaced it", id, t.path.c_str(), r.msg.c_str());
                    bool expected = (r.alloc && starved) || (r.sys && (faults.was(me, r.err) || (disk_limit && r.err == ENOSPC))) || (starved && !r.sys);
                    if (!expected) violation("unexpected-error", "writing version %u to %s failed with \"%s\" (errno %d) which was not injected", id, t.path.c_str(), r.msg.c_str(), r.err);
                    count("probe.failed");
                } else
                    count("probe.written");
                // the candidate is settled
                t.candidates.erase(std::find(t.candidates.begin(), t.candidates.end(), id));
            }
        });
    for (unsigned q = 0; q < readers; ++q)
        tasks.push_back([&, q] {
            for (unsigned k = 0; k < per; ++k)
            {
                Target& t = targets[draw(targets.size(), "target")];
                size_t h0 = t.history.size() - 1;
                std::string got;
                int me = in_tasks() ? task_id() : 0;
                faults.clear(me);
                phase("read_file");
                Res r = go([&] { got = ws::read_file(std::filesystem::path(t.path)); });
                bool absent_seen = false, match = false;
                for (size_t i = h0; i < t.history.size(); ++i)
                {
                    const Version& v = versions[t.history[i]];
                    if (v.absent) absent_seen = true;
                    else if (r.ok && v.data == got) match = true;
                }
                if (r.ok && !match) violation("torn-read", "reader %u got %zu bytes from %s that are no version it had meanwhile", q, got.size(), t.path.c_str());
                if (!r.ok && !(r.sys && ((r.err == ENOENT && absent_seen) || faults.was(me, r.err)))) violation("unexpected-error", "reading %s failed with \"%s\"", t.path.c_str(), r.msg.c_str());
                if (r.ok) count("probe.read");
            }
        });
    run_tasks(tasks, 1, 2);
    vfs::policy.before = nullptr; vfs::policy.changed = nullptr;
    faults.num = 0;
    observe("everything");
    // leftovers
    if (!faults.ever.count("unlink"))
        for (auto& p: vfs::list_tree("/sim/w"))
        {
            bool known = bystanders.count(p);
            for (auto& t: targets) if (t.path == p) known = true;
            if (!known) violation("temp-left", "a temporary file is left behind: %s", p.c_str());
        }
    for (auto& p: bystanders) if (vfs::get(p) != "left over") violation("bystander", "%s was overwritten", p.c_str());
    if (vfs::open_fds()) violation("descriptors", "descriptors left open:%s", vfs::describe_fds().c_str());
    if (vfs::bad_closes()) violation("descriptors", "a descriptor that was not open was closed");
    if (vfs::current_umask() != mask) violation("umask", "the umask was %o and is now %o", mask, vfs::current_umask());
    if (writers > 1) count("probe.concurrent_writers");
    nontrivial();
}

// ---------------------------------------------------------------- P17

void run_p17()
{
    vfs::reset();
    vfs::mkdirs("/sim/d");
    install_faults(chance(1, 2, "faulty") ? 1 + draw(6, "rate") : 0, draw(3, "shorten"));
    std::string path = "/sim/d/file";
    std::string content = body(1);          // the model
    bool exists = !chance(1, 6, "absent");
    mode_t emode = 0640;
    if (exists) vfs::put(path, content, emode); else content.clear();
    mode_t mask = draw(2, "umask") ? 077 : 022;
    { Sut s; ::umask(mask); }
    std::unique_ptr<ws::File> f;
    size_t pos = 0;
    bool append = false;
    unsigned id = 2;
    auto check_content = [&](const char* op) {
        std::string now = vfs::get(path);
        if (exists && now != content)
        {
            size_t p = 0; while (p < now.size() && p < content.size() && now[p] == content[p]) ++p;
            violation("content", "after %s: the file differs from what was written at byte %zu (%zu/%zu bytes)", op, p, content.size(), now.size());
        }
    };
    auto injected = [&](const Res& r) { return r.sys && faults.was(0, r.err); };
    auto overlay = [&](size_t at, const char* b, size_t n) { if (!n) return; if (content.size() < at + n) content.resize(at + n); content.replace(at, n, b, n); };
    auto reopen = [&] {
        f.reset();
        if (!exists) { vfs::put(path, "", emode); exists = true; content.clear(); }
        faults.clear(0);
        Res r = go([&] { f.reset(new ws::File(std::filesystem::path(path), O_RDWR)); });
        if (!r.ok && !injected(r)) violation("open", "cannot open: %s", r.msg.c_str());
        pos = 0; append = false;
    };
    auto tell = [&] { unsigned o = faults.num; faults.num = 0; size_t r; { Sut q; r = ::lseek(*f, 0, SEEK_CUR); } faults.num = o; return r; };
    unsigned steps = 3 + draw(14, "steps");
    for (unsigned s = 0; s < steps; ++s)
    {
        faults.clear(0);
        unsigned op = draw(18, "op");
        if (op >= 4 && !f) { reopen(); if (!f) continue; }
        // a call that failed must be reported, and nothing else
        auto told = [&](const Res& r, const char* call, const char* what) {
            if (!r.ok && !injected(r)) violation("unexpected-error", "%s failed with \"%s\"", what, r.msg.c_str());
            if (r.ok && faults.call(0, call)) violation("error-lost", "%s claims success, but the system reported an error", what);
            return r.ok;
        };
        switch (op)
        {
            case 0: case 1:      // whole file
            {
                f.reset();
                std::string data = body(id++);
                mode_t mode = draw(2, "mode") ? 0666 : 0600;
                bool was = exists;
                phase("write_file");
                unsigned how = draw(6, "overload");
                Res r = go([&] {
                    if (how == 0) ws::write_file(std::filesystem::path(path), data, mode);
                    else if (how == 1) ws::write_file(path.c_str(), data.data(), data.size(), mode);
                    else if (how == 2) ws::write_file(path, data, mode);
                    else if (how == 3) ws::write_file(path.c_str(), data, mode);
                    else if (how == 4) ws::write_file(std::filesystem::path(path), data.data(), data.size(), mode);
                    else ws::write_file(path, data.data(), data.size(), mode);
                });
                ev("write_file %zu bytes: %s", data.size(), r.ok ? "ok" : r.msg.c_str());
                if (r.ok)
                {
                    content = data; exists = true;
                    check_content("write_file");
                    mode_t want = was ? emode : mode & ~mask;
                    if (vfs::find(path)->mode != want) violation("mode", "write_file: mode %o instead of %o", vfs::find(path)->mode, want);
                    emode = want;
                    count("probe.file_written");
                } else {
                    if (!injected(r)) violation("unexpected-error", "write_file failed with \"%s\", which was not injected", r.msg.c_str());
                    // nothing is promised about the contents but that they are a beginning of the data or the old ones
                    std::string now = vfs::get(path);
                    if (vfs::exists(path) && now != content && data.compare(0, now.size(), now) != 0) violation("content", "a failed write_file left other data in the file");
                    exists = vfs::exists(path); content = now;
                    if (exists) emode = vfs::find(path)->mode;
                    count("probe.failed");
                }
                break;
            }
            case 2: case 3:
            {
                std::string got;
                phase("read_file");
                unsigned how = draw(3, "overload");
                Res r = go([&] { std::string t = how == 0 ? ws::read_file(std::filesystem::path(path)) : how == 1 ? ws::read_file(path) : ws::read_file(path.c_str()); Host h; got = t; });
                ev("read_file: %s", r.ok ? "ok" : r.msg.c_str());
                if (r.ok)
                {
                    if (!exists || got != content) violation("content", "read_file returned %zu bytes that are not the %zu of the file", got.size(), content.size());
                    count("probe.file_read");
                } else if (!(r.sys && ((!exists && r.err == ENOENT) || injected(r)))) violation("unexpected-error", "read_file failed with \"%s\", which was not injected", r.msg.c_str());
                break;
            }
            case 4: case 5:      // read_all_or_retry / throw / read
            {
                size_t n = draw(2, "near") ? draw(content.size() + 3, "count") : draw(60, "count");
                std::string buf(n + 16, '\x5a');
                size_t avail = pos < content.size() ? content.size() - pos : 0;
                unsigned how = draw(4, "how");
                bool full = false; size_t got = 0;
                phase("read");
                Res r = go([&] {
                    if (how < 2) full = f->read_all_or_retry(&buf[0], n);
                    else if (how == 2) f->read_all_or_throw(&buf[0], n);
                    else got = f->read(&buf[0], n);
                });
                ev("read %zu of %zu (%u): %s", n, avail, how, r.ok ? "ok" : r.msg.c_str());
                for (size_t i = n; i < buf.size(); ++i) if (buf[i] != '\x5a') violation("overrun", "reading %zu bytes wrote past the end of the buffer", n);
                size_t vpos = tell();
                if (how < 2)
                {
                    if (r.ok && full)
                    {
                        if (n > avail) violation("read", "reading %zu bytes where only %zu are left claims success", n, avail);
                        if (buf.compare(0, n, content, std::min(pos, content.size()), n) != 0) violation("read", "%zu bytes read are not those of the file at %zu", n, pos);
                        if (vpos != pos + n) violation("read", "after reading %zu bytes at %zu the position is %zu", n, pos, vpos);
                        count("probe.read_full");
                    } else if (r.ok) {
                        if (n == 0 || avail != 0) violation("read", "reading %zu bytes reports the end of the file with %zu left", n, avail);
                        count("probe.read_eof");
                    } else if (!r.sys) {
                        if (avail == 0 || n <= avail) violation("read", "reading %zu of the %zu bytes left fails with \"%s\"", n, avail, r.msg.c_str());
                        count("probe.read_partial");
                    } else if (!injected(r)) violation("unexpected-error", "read failed with \"%s\"", r.msg.c_str());
                } else if (how == 2) {
                    if (r.ok && (n > avail || buf.compare(0, n, content, std::min(pos, content.size()), n) != 0)) violation("read", "read_all_or_throw of %zu bytes at %zu with %zu left is wrong", n, pos, avail);
                    if (!r.ok && r.sys && !injected(r)) violation("unexpected-error", "read failed with \"%s\"", r.msg.c_str());
                    if (!r.ok && !r.sys && n <= avail && !vfs::policy.shorten) violation("read", "a complete read fails with \"%s\"", r.msg.c_str());
                } else {
                    if (r.ok && (got > n || got > avail || buf.compare(0, got, content, std::min(pos, content.size()), got) != 0)) violation("read", "read of %zu bytes at %zu gave %zu wrong ones", n, pos, got);
                    if (r.ok && got == 0 && n && avail) violation("read", "read claims the end of the file with %zu bytes left", avail);
                    if (!r.ok && !injected(r)) violation("unexpected-error", "read failed with \"%s\"", r.msg.c_str());
                }
                pos = vpos;
                break;
            }
            case 6: case 7: case 8:     // writes
            {
                std::string data = body(id++);
                if (draw(25, "big") == 24)
                {
                    // more than any buffer on the way
                    size_t n = 4096u << draw(7, "big-size");
                    n += draw(3, "big-odd");
                    std::string big; big.reserve(n + data.size());
                    while (big.size() < n) { big += data; big += (char)(big.size() >> 8); }
                    big.resize(n); data.swap(big);
                    count("probe.big");
                }
                unsigned how = draw(4, "how");
                size_t at = append ? content.size() : pos;
                size_t got = 0;
                phase("write");
                Res r = go([&] {
                    if (how == 0) f->write_all_or_retry(data.data(), data.size());
                    else if (how == 1) f->write_all_or_retry(data);
                    else if (how == 2) { if (data.size() & 1) f->write_all_or_throw(data); else f->write_all_or_throw(data.data(), data.size()); }
                    else got = f->write(data.data(), data.size());
                });
                std::string now = vfs::get(path);
                ev("write %zu at %zu (%u): %s", data.size(), at, how, r.ok ? "ok" : r.msg.c_str());
                if (r.ok && how < 3) got = data.size();
                if (!r.ok)
                {
                    if (r.sys ? !injected(r) : how != 2) violation("unexpected-error", "write failed with \"%s\"", r.msg.c_str());
                    // a beginning of the data may be there
                    got = 0;
                    if (now.size() >= at) while (got < data.size() && at + got < now.size() && now[at + got] == data[got]) ++got;
                    bool ok = false;
                    // the bytes written end where the file ends, or anywhere it agrees with the old contents
                    std::string save = content;
                    size_t end = got;
                    for (size_t k: { (size_t)0, end, now.size() > at ? std::min(end, now.size() - at) : (size_t)0 })
                    {
                        content = save;
                        if (k) overlay(at, data.data(), k);
                        if (content == now) { ok = true; got = k; break; }
                    }
                    if (!ok) { content = save; violation("content", "a failed write left something else than a beginning of the data"); }
                    count("probe.failed");
                } else {
                    if (got > data.size()) violation("write", "wrote %zu of %zu bytes", got, data.size());
                    overlay(at, data.data(), got);
                    count("probe.written");
                }
                check_content("write");
                pos = tell();
                if (r.ok && got && pos != at + got) violation("write", "the position after writing %zu bytes at %zu is %zu", got, at, pos);
                break;
            }
            case 9:
            {
                size_t to = draw(content.size() + 20, "to");
                int wh = draw(3, "whence");
                off_t rel = wh == 0 ? to : wh == 1 ? (off_t)to - (off_t)pos : (off_t)to - (off_t)content.size(), got = -1;
                bool dflt = wh == 0 && draw(2, "default");
                Res r = go([&] { got = dflt ? f->lseek(rel) : f->lseek(rel, wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END); });
                if (told(r, "lseek", "lseek"))
                {
                    if (got != (off_t)to || tell() != to) violation("position", "seeking to %zu returned %lld and went to %zu", to, (long long)got, tell());
                    pos = to;
                }
                break;
            }
            case 10:             // positional
            {
                size_t at = draw(content.size() + 5, "at"), n = draw(200, "count"), got = 0;
                std::string buf(n, '\x5a');
                Res r = go([&] { got = f->pread(&buf[0], n, at); });
                size_t avail = at < content.size() ? content.size() - at : 0;
                if (r.ok && (got > n || got > avail || buf.compare(0, got, content, std::min(at, content.size()), got) != 0 || (!got && n && avail))) violation("read", "pread of %zu bytes at %zu gave %zu wrong ones", n, at, got);
                if (!r.ok && !injected(r)) violation("unexpected-error", "pread failed with \"%s\"", r.msg.c_str());
                break;
            }
            case 11:
            {
                std::string data = body(id++); if (data.size() > 300) data.resize(300);
                size_t at = draw(content.size() + 5, "at"), got = 0;
                bool cont = draw(2, "container");
                Res r = go([&] { got = cont ? f->pwrite(data, at) : f->pwrite(data.data(), data.size(), at); });
                if (r.ok) overlay(at, data.data(), got); else if (!injected(r)) violation("unexpected-error", "pwrite failed with \"%s\"", r.msg.c_str());
                check_content("pwrite");
                break;
            }
            case 12:
            {
                size_t n = draw(content.size() + 20, "length");
                Res r = go([&] { f->ftruncate(n); });
                if (told(r, "ftruncate", "ftruncate")) content.resize(n);
                check_content("ftruncate");
                break;
            }
            case 13: case 14:    // to the disk
            {
                bool all = draw(2, "all");
                Res r = go([&] { if (all) f->fsync(); else f->fdatasync(); });
                if (told(r, all ? "fsync" : "fdatasync", all ? "fsync" : "fdatasync")) count("probe.synced"); else count("probe.sync_failed");
                break;
            }
            case 15:             // permissions and times
            {
                if (draw(2, "times"))
                {
                    struct timespec ts[2] = {{(time_t)draw(2000000000, "atime"), (long)draw(1000000000, "ns")}, {(time_t)draw(2000000000, "mtime"), (long)draw(1000000000, "ns")}};
                    Res r = go([&] { f->futimens(ts); });
                    vfs::NodeP n = vfs::find(path);
                    if (told(r, "futimens", "futimens") && (n->mtime.tv_sec != ts[1].tv_sec || n->mtime.tv_nsec != ts[1].tv_nsec || n->atime.tv_sec != ts[0].tv_sec || n->atime.tv_nsec != ts[0].tv_nsec)) violation("times", "the times of the file are not those that were set");
                } else {
                    mode_t m = draw(01000, "mode");
                    Res r = go([&] { f->fchmod(m); });
                    if (told(r, "fchmod", "fchmod")) emode = m;
                    if (vfs::find(path)->mode != emode) violation("mode", "fchmod %s left mode %o instead of %o", r.ok ? "succeeded and" : "failed and", vfs::find(path)->mode, emode);
                }
                break;
            }
            case 16:
            {
                struct stat st; memset(&st, 0x5a, sizeof st);
                Res r = go([&] { f->fstat(st); });
                vfs::NodeP n = vfs::find(path);
                if (told(r, "fstat", "fstat") && (st.st_size != (off_t)content.size() || (st.st_mode & 07777) != emode || st.st_ino != n->ino || st.st_mtim.tv_sec != n->mtime.tv_sec)) violation("stat", "the file of %zu bytes and mode %o shows as %lld bytes, mode %o", content.size(), emode, (long long)st.st_size, st.st_mode & 07777);
                break;
            }
            default:
                if (draw(2, "which")) { reopen(); break; }
                {
                    int fl = 0; bool want = !append;
                    Res r = go([&] { fl = f->getfl(); });
                    if (!told(r, "fcntl", "getfl")) break;
                    if ((fl & O_ACCMODE) != O_RDWR || !(fl & O_APPEND) == append) violation("flags", "the flags of the file show as %o", fl);
                    faults.clear(0);
                    r = go([&] { f->setfl(want ? fl | O_APPEND : fl & ~O_APPEND); });
                    if (told(r, "fcntl", "setfl")) append = want;
                }
                break;
        }
    }
    f.reset();
    vfs::policy = vfs::Policy();
    check_content("closing");
    if (vfs::open_fds()) violation("descriptors", "descriptors left open:%s", vfs::describe_fds().c_str());
    if (vfs::open_maps()) violation("mappings", "a mapping is left");
    nontrivial();
}


// ---------------------------------------------------------------- P19

// A directory whose path is longer than any fixed buffer one may think of
std::string deep_dir() { std::string d; unsigned n = 2 + draw(3, "deep-levels"); for (unsigned i = 0; i < n; ++i) d += "/" + std::string(100 + draw(100, "deep-len"), 'a' + i); vfs::mkdirs("/sim/t" + d); return d; }

// A tree with everything that can be in one; names are never those used outside
void grow(const std::string& at, unsigned depth)
{
    unsigned n = draw(5, "entries");
    for (unsigned i = 0; i < n; ++i)
    {
        static const char* const forms[] = {"n", "n", "n", ".n", "..n", ".", "..", "n .", "-n"};
        std::string p = at + "/" + forms[draw(9, "form")] + std::to_string(depth) + std::to_string(i);
        switch (draw(8, "entry"))
        {
            case 0: case 1: vfs::put(p, "data"); break;
            case 2: case 3: vfs::mkdirs(p); if (depth < 3) grow(p, depth + 1); break;
            case 4: vfs::put_link(p, "/sim/outside"); break;
            case 5: vfs::put_link(p, draw(2, "rel") ? "/sim/outside/precious" : "../keep"); break;
            case 6: vfs::put_link(p, draw(2, "loop") ? p.substr(p.rfind('/') + 1) : "missing"); break;
            default: vfs::put_link(p, draw(2, "up") ? ".." : "."); break;
        }
    }
}

struct Slot { std::unique_ptr<ws::File> f; std::unique_ptr<ws::Path> d; std::unique_ptr<ws::Tempfile> tf; std::unique_ptr<ws::Tempdir> td; std::string tname; };

void run_p19()
{
    vfs::reset();
    vfs::put("/sim/outside/precious", "precious");
    vfs::put("/sim/outside/deep/precious2", "precious");
    vfs::mkdirs("/sim/outside/empty");
    // names that trees have, too
    for (const char* n: {"n10", "n11", "n20", "n00"}) vfs::mkdirs(std::string("/sim/outside/") + n);
    for (const char* n: {"n12", "n13", "n14", "n01"}) vfs::put(std::string("/sim/outside/") + n, "precious");
    vfs::put("/sim/keep", "kept");
    vfs::mkdirs("/sim/t");
    vfs::put("/sim/t/a.txt", "aaa");
    vfs::put("/sim/t/b.txt", "bbb");
    vfs::put_link("/sim/t/link", "a.txt");
    vfs::put_link("/sim/t/dirlink", "/sim/outside");
    vfs::mkdirs("/sim/t/sub");
    install_faults(chance(1, 2, "faulty") ? 1 + draw(8, "rate") : 0, 0);
    vfs::policy.unknown_dtype = chance(1, 2, "no-dtype");
    if (draw(2, "shuffle")) vfs::policy.dir_order = draw64("order") | 1;
    bool starve = chance(1, 3, "starve");
    alloc::record_sites(true);
    alloc::Mark m0{};

    Slot slots[3];
    std::vector<int> held;                // descriptors owned by the application
    unsigned n_maps = 0;
    (void)n_maps;
    auto open_objects = [&] {
        unsigned n = held.size();
        for (auto& s: slots)
        {
            if (s.f && s.f->is_open()) ++n;
            if (s.d && s.d->is_open()) ++n;
            if (s.tf && s.tf->is_open()) ++n;
            if (s.td && s.td->is_open()) ++n;
        }
        return n;
    };
    std::string op_name;
    bool starved = false;
    auto judge = [&](const Res& r, bool allowed = false, int natural = 0) {
        // only what was injected may fail
        if (r.ok) return true;
        bool ok = allowed || (r.alloc && starved) || (starved && !r.sys) || (r.sys && (faults.any(0) || r.err == natural));
        ev("%s: %s", op_name.c_str(), r.msg.c_str());
        if (!ok) violation("unexpected-error", "%s failed with \"%s\", which was not injected", op_name.c_str(), r.msg.c_str());
        count("probe.failed");
        return false;
    };
    unsigned steps = 4 + draw(16, "steps");
    for (unsigned st = 0; st < steps; ++st)
    {
        Slot& s = slots[draw(3, "slot")];
        unsigned op = draw(24, "op");
        faults.clear(0);
        bool armed = starve && chance(1, 3, "armed");
        unsigned nth = armed ? 1 + draw(10, "alloc") : 0;
        bool sticky = armed && draw(3, "sticky") == 0;
        starved = false;
        auto run = [&](const char* name, const std::function<void()>& f) {
            op_name = name; phase("%s", name);
            if (nth) alloc::fail_at(nth, sticky);
            nth = 0;
            Res r = go(f);
            starved = alloc::fired();
            alloc::disarm();
            return r;
        };
        // temporary things with no name given are made in the current directory
        auto forget_cwd = [&] {
            std::string d = vfs::cwd_path();
            std::function<void(const std::string&)> wipe = [&](const std::string& p) { vfs::NodeP n = vfs::find(p, false); if (n->type == vfs::Node::DIR_) for (auto& k: vfs::list(p)) wipe(p + "/" + k); vfs::del(p); };
            for (auto& p: vfs::list(d)) if (p.size() == 6 && p.find_first_not_of("0123456789") == std::string::npos) wipe(d + "/" + p);
        };
        switch (op)
        {
            case 22: case 23:             // iterators
            {
                if (!s.d || !s.d->is_open()) break;
                std::string bad;
                Res r = run("comparing directory iterators", [&] {
                    auto a = s.d->begin(), b = s.d->begin(), e = s.d->end();
                    if (!(e == s.d->end()) || e != s.d->end()) bad = "two ends differ";
                    unsigned n = 0, m = 0;
                    while (a != e)
                    {
                        if (a == e) { bad = "an entry is the end and is not"; break; }
                        if (!(a == b) || a != b) { bad = "two iterators at the same entry differ"; break; }
                        ++a; ++n;
                        if (a != e) { if (a == b || !(a != b)) { bad = "iterators at different entries are the same"; break; } }
                        else if (a == b || !(a != b)) { bad = "the last entry is the end"; break; }
                        ++b; ++m;
                        if (n > 100) break;
                    }
                    if (bad.empty() && !(a == e && b == e)) bad = "the end is not reached by both";
                });
                if (judge(r) && !bad.empty()) violation("listing", "%s", bad.c_str());
                if (r.ok) count("probe.iterators_compared");
                if (draw(2, "into") && s.d && s.d->is_open())
                {
                    // from the listing into a subdirectory
                    std::unique_ptr<ws::Path> n; std::string name;
                    faults.clear(0);
                    Res r = run("opening a listed directory", [&] {
                        for (auto i = s.d->begin(); i != s.d->end(); ++i)
                            if (i->d_name[0] != '.' && i.isdir()) { n.reset(new ws::Path(i.open_path())); Host h; name = i->d_name; break; } });
                    if (judge(r) && n)
                    {
                        if (vfs::node_of(*n) != vfs::find(s.d->path().native() + "/" + name, false)) violation("listing", "opening %s while listing opens something else", name.c_str());
                        Sut q; s.d = std::move(n);
                    }
                    else { Sut q; n.reset(); }
                }
                break;
            }
            case 0:
            {
                const char* p = draw(2, "which") ? "/sim/t/a.txt" : "/sim/t/none";
                std::filesystem::path fp(p);
                s.f.reset();
                Res r = run("opening a file", [&] { s.f.reset(new ws::File(fp, O_RDONLY)); });
                judge(r, false, ENOENT);
                break;
            }
            case 1:
            {
                std::filesystem::path fp(draw(2, "which") ? "/sim/t/b.txt" : "/sim/t/none");
                if (!s.f) { Sut q; s.f.reset(new ws::File(std::filesystem::path(fp))); }
                bool there = false;
                std::string mine = s.f->path().native();
                Res r = run("opening a file that may not exist", [&] { there = s.f->open_ifexists(O_RDONLY); });
                if (judge(r) && there != vfs::exists(mine)) violation("exists", "opening %s if it exists says %d", mine.c_str(), there);
                if (r.ok && s.f->is_open() != there) violation("state", "after opening %s: open %d", mine.c_str(), s.f->is_open());
                break;
            }
            case 2:
                if (s.f)
                {
                    Res r = run("closing a file", [&] { s.f->close(); });
                    judge(r);
                    if (s.f->is_open()) violation("state", "a file is still open after closing it%s", r.ok ? "" : " (the system reported an error, but the descriptor is gone)");
                    r = run("closing a file again", [&] { s.f->close(); });
                    if (!r.ok) violation("state", "closing a closed file fails: %s", r.msg.c_str());
                }
                break;
            case 3:                       // move
                if (s.f)
                {
                    std::unique_ptr<ws::File> n;
                    int fd = *s.f;
                    Res r = run("moving a file object", [&] { n.reset(new ws::File(std::move(*s.f))); });
                    if (judge(r)) { if (s.f->is_open() || *n != fd) violation("state", "moving a file object does not move the descriptor"); s.f = std::move(n); }
                }
                break;
            case 4:
            {
                Slot& o = slots[draw(3, "other")];
                if (s.f && o.f)
                {
                    int fd = *o.f;
                    bool self = &o == &s;
                    Res r = run("assigning a file object", [&] { *s.f = std::move(*o.f); });
                    if (judge(r) && (*s.f != fd || (!self && o.f->is_open()))) violation("state", "assigning a file object does not move the descriptor");
                }
                break;
            }
            case 5: { Sut q; s.f.reset(); break; }
            case 6:
                if (s.f && s.f->is_open())
                {
                    int fd = -1;
                    Res r = run("duplicating a descriptor", [&] { fd = s.f->dup(); });
                    if (judge(r)) held.push_back(fd);
                }
                break;
            case 7:
            {
                std::filesystem::path fp(draw(3, "which") ? "/sim/t" : "/sim/none");
                s.d.reset();
                Res r = run("opening a directory", [&] { s.d.reset(new ws::Path(fp)); });
                judge(r, false, ENOENT);
                break;
            }
            case 8: case 9: case 10:      // listing
                if (!s.d || !s.d->is_open())
                {
                    s.d.reset();
                    unsigned o = faults.num; faults.num = 0;
                    { Sut q; s.d.reset(new ws::Path(std::filesystem::path("/sim/t"))); }
                    faults.num = o;
                }
                if (s.d && s.d->is_open())
                {
                    std::map<std::string, std::string> got;
                    unsigned moved = draw(3, "moved");
                    std::string base = s.d->path().native();
                    bool bad = false; std::string why;
                    Res r = run("listing a directory", [&] {
                        auto visit = [&](const ws::Path::iterator& i) {
                            std::string k;
                            if (i.isdir()) k += "d";
                            if (i.isreg()) k += "f";
                            if (i.islnk()) k += "l";
                            if (i.isfifo() || i.issock() || i.isblk() || i.ischr()) k += "?";
                            Host h; got[std::string(i->d_name)] = k;
                        };
                        if (moved == 0)
                        {
                            for (auto i = s.d->begin(); i != s.d->end(); ++i) visit(i);
                        } else {
                            auto i = s.d->begin();
                            if (moved == 1 && i != s.d->end()) ++i;
                            ws::Path::iterator j(std::move(i));
                            if (moved == 1) got["?"] = "";
                            for (; j != s.d->end(); ++j) visit(j);
                        }
                    });
                    if (judge(r))
                    {
                        std::map<std::string, std::string> want;
                        want["."] = want[".."] = "d";
                        vfs::NodeP n = vfs::find(base);
                        if (n) for (auto& k: n->kids) want[k.first] = k.second->type == vfs::Node::DIR_ ? "d" : k.second->type == vfs::Node::LINK_ ? "l" : "f";
                        bool partial = got.erase("?");
                        for (auto& g: got)
                            if (!want.count(g.first)) { bad = true; why = g.first + " is not there"; }
                            else if (want[g.first] != g.second) { bad = true; why = g.first + " is " + want[g.first] + " and was seen as " + g.second; }
                        if (!partial && got.size() != want.size()) { bad = true; why = std::to_string(got.size()) + " of " + std::to_string(want.size()) + " entries"; }
                        if (bad) violation("listing", "listing %s: %s", base.c_str(), why.c_str());
                        count("probe.listed");
                        if (moved) count("probe.iterator_moved");
                    }
                }
                break;
            case 11:
                if (s.d && s.d->is_open())
                {
                    int fd = -1;
                    std::string name = draw(2, "which") ? "a.txt" : "none";
                    Res r = run("opening inside a directory", [&] { fd = s.d->openat_ifexists(name.c_str(), O_RDONLY); });
                    if (judge(r, false, 0)) { if ((fd != -1) != (name == "a.txt" && vfs::exists(s.d->path().native() + "/a.txt"))) violation("exists", "openat_ifexists(%s) gives %d", name.c_str(), fd); if (fd != -1) held.push_back(fd); }
                }
                break;
            case 12:
                if (s.d && s.d->is_open())
                {
                    std::unique_ptr<ws::Path> n;
                    Res r = run("opening a subdirectory", [&] { n.reset(new ws::Path(*s.d, "sub")); });
                    if (judge(r, false, ENOENT)) s.d = std::move(n);
                    else if (!s.d) break;
                }
                break;
            case 13:
            {
                // the application gives back a descriptor
                if (!held.empty()) { vfs::close_quiet(held.back()); held.pop_back(); }
                break;
            }
            case 14: case 15:             // temporary files
            {
                s.tf.reset();
                unsigned draw_how = draw(3, "how");
                unsigned how = draw(5, "constructor");
                std::string tdir = "/sim/t", prefix;
                if (draw(5, "deep") == 4) { tdir += deep_dir(); count("probe.deep_temp"); }
                prefix = tdir + "/tmp";
                std::string before = snapshot(""), made;
                std::filesystem::path pp(prefix);
                Res r = run("creating a temporary file", [&] {
                    if (how == 0) s.tf.reset(new ws::Tempfile(prefix.c_str()));
                    else if (how == 1) s.tf.reset(new ws::Tempfile(prefix));
                    else if (how == 2) s.tf.reset(new ws::Tempfile(pp));
                    else if (how == 3) s.tf.reset(new ws::Tempfile);
                    else { ws::File f = draw_how == 0 ? ws::File::mkstemp(pp) : draw_how == 1 ? ws::File::mkstemp(prefix) : ws::File::mkstemp(prefix.c_str()); Host h; made = f.path().native(); } });
                if (!made.empty())
                {
                    // a new file, not a temporary object: it stays
                    vfs::NodeP n = vfs::find(made, false);
                    if (made.compare(0, prefix.size(), prefix) != 0 || made.size() != prefix.size() + 6 || !n || !n->data.empty() || n->mode != 0600) violation("temp", "a new file with a unique name is %s", made.c_str());
                    if (before.find(made) != std::string::npos) violation("temp", "a new file with a unique name was already there: %s", made.c_str());
                    vfs::del(made);
                    judge(r);
                }
                else if (judge(r))
                {
                    s.tname = s.tf->path().native();
                    vfs::NodeP n = vfs::find(s.tname, false);
                    if (!n && how < 3) violation("temp", "a temporary file does not exist");
                    if (how < 3 ? s.tname.compare(0, prefix.size(), prefix) != 0 : s.tname.find('/') != std::string::npos) violation("temp", "a temporary file is %s", s.tname.c_str());
                    if (s.tname[0] != '/') { s.tname = vfs::cwd_path() + "/" + s.tname; n = vfs::find(s.tname, false); if (!n) violation("temp", "a temporary file does not exist"); }
                    if (vfs::node_of(*s.tf) != n) violation("temp", "the descriptor of a temporary file is of something else");
                    if (draw(6, "unlink") == 5)
                    {
                        // removed early; the name may be someone else's by the time the object goes
                        faults.clear(0);
                        Res u = run("removing a temporary file", [&] { s.tf->unlink(); });
                        if (judge(u) && vfs::find(s.tname, false)) violation("temp", "a temporary file that was removed is there");
                        if (!u.ok && !vfs::find(s.tname, false)) violation("temp", "removing a temporary file failed, but it is gone");
                    }
                    if (draw(3, "closed") == 2)
                    {
                        // done with the descriptor: the file is still removed with the object
                        faults.clear(0);
                        Res c = run("closing a temporary file", [&] { s.tf->close(); });
                        judge(c);
                        count("probe.tempfile_closed");
                    }
                    if (draw(4, "keep") == 3) { Sut q; s.tf->unlink_on_exit(false); std::string keep = s.tname; bool was; { Host h; was = vfs::exists(keep); } s.tf.reset(); Host h; if (was && !vfs::exists(keep)) violation("temp", "a temporary file that was to be kept is gone"); vfs::del(keep); }
                    else { faults.clear(0); bool had; { Sut q; s.tf.reset(); } had = faults.call(0, "unlink") || faults.call(0, "rmdir"); if (vfs::find(s.tname, false)) { if (!had) violation("temp", "the temporary file %s is not removed", s.tname.c_str()); vfs::del(s.tname); } }
                    count("probe.tempfile");
                } else if (!faults.ever.count("unlink")) {
                    std::string after = snapshot("");
                    if (after != before) violation("temp", "a temporary file that could not be made is left: %s", first_difference(before, after).c_str());
                } else
                {
                    for (auto& p: vfs::list(tdir)) if (p.compare(0, 3, "tmp") == 0) vfs::del(tdir + "/" + p);
                    forget_cwd();
                }
                break;
            }
            case 16: case 17:             // temporary directories, with contents
            {
                unsigned how = draw(4, "constructor");
                std::string prefix = "/sim/t";
                if (draw(5, "deep") == 4) { prefix += deep_dir(); count("probe.deep_temp"); }
                prefix += "/dtmp";
                std::string before = snapshot("");
                std::filesystem::path pp(prefix);
                Res r = run("creating a temporary directory", [&] {
                    if (how == 0) s.td.reset(new ws::Tempdir(prefix.c_str()));
                    else if (how == 1) s.td.reset(new ws::Tempdir(prefix));
                    else if (how == 2) s.td.reset(new ws::Tempdir(pp));
                    else s.td.reset(new ws::Tempdir); });
                if (judge(r))
                {
                    std::string name = s.td->path().native();
                    if (how < 3 ? name.compare(0, prefix.size(), prefix) != 0 : name.find('/') != std::string::npos) violation("temp", "a temporary directory is %s", name.c_str());
                    if (name[0] != '/') name = vfs::cwd_path() + "/" + name;
                    vfs::NodeP dn = vfs::find(name, false);
                    if (!dn || dn->type != vfs::Node::DIR_ || !s.td->is_open() || vfs::node_of(*s.td) != dn) violation("temp", "a temporary directory is not there, or not open");
                    grow(name, 0);
                    faults.clear(0);
                    if (draw(6, "keep-dir") == 5)
                    {
                        std::string all = snapshot("");
                        { Sut q; s.td->rmtree_on_exit(false); s.td.reset(); }
                        std::string now = snapshot("");
                        if (all != now) violation("temp", "a temporary directory that was to be kept is changed: %s", first_difference(all, now).c_str());
                        std::function<void(const std::string&)> wipe = [&](const std::string& p) { vfs::NodeP n = vfs::find(p, false); if (n->type == vfs::Node::DIR_) for (auto& k: vfs::list(p)) wipe(p + "/" + k); vfs::del(p); };
                        wipe(name);
                        count("probe.tempdir_kept");
                        break;
                    }
                    { Sut q; s.td.reset(); }
                    std::string after = snapshot(name);
                    if (after != before) violation("outside", "removing the temporary directory %s changed something else: %s", name.c_str(), first_difference(before, after).c_str());
                    if (vfs::find(name, false))
                    {
                        if (!faults.any(0)) violation("temp", "the temporary directory %s is not removed", name.c_str());
                        count("probe.tree_kept");
                        // clean up as the operator would
                        std::function<void(const std::string&)> wipe = [&](const std::string& p) { vfs::NodeP n = vfs::find(p, false); if (n->type == vfs::Node::DIR_) for (auto& k: vfs::list(p)) wipe(p + "/" + k); vfs::del(p); };
                        wipe(name);
                    }
                    count("probe.tempdir");
                } else {
                    std::string after = snapshot("");
                    if (after != before && !faults.ever.count("rmdir") && !faults.ever.count("unlink")) violation("temp", "a temporary directory that could not be made is left: %s", first_difference(before, after).c_str());
                    for (auto& p: vfs::list("/sim/t")) if (p.compare(0, 4, "dtmp") == 0) vfs::del("/sim/t/" + p);
                    forget_cwd();
                }
                break;
            }
            case 18: case 19:             // removing a tree
            {
                std::string tree = "/sim/t/tree";
                vfs::mkdirs(tree);
                grow(tree, 0);
                std::string before = snapshot(tree);
                // someone swaps a directory for a link while it is being removed
                bool swap = chance(1, 4, "swap");
                bool swapped = false;
                if (swap)
                    vfs::policy.before = [&](const char* c, const std::string& p) {
                        if (swapped || p.compare(0, tree.size() + 1, tree + "/") != 0) return;
                        std::string q = p;
                        while (q.size() > 2 && q.compare(q.size() - 2, 2, "/.") == 0) q.resize(q.size() - 2);
                        // it, or the directory it is in
                        size_t sl = q.find('/', tree.size() + 1);
                        if (sl != std::string::npos) q.resize(sl);
                        vfs::NodeP n = vfs::find(q, false);
                        if (!n || n->type != vfs::Node::DIR_ || q.find('/', tree.size() + 1) != std::string::npos || !chance(1, 3, "swap-now")) return;
                        vfs::del(q);
                        vfs::put_link(q, "/sim/outside");
                        swapped = true;
                        ev("%s becomes a link to /sim/outside", q.c_str());
                        fault("fault.directory_swapped");
                    };
                bool existed = false;
                unsigned how = draw(4, "how");
                std::filesystem::path tp(tree);
                Res r = run("removing a tree", [&] {
                    if (how == 0) { ws::rmtree(tp); existed = true; }
                    else if (how == 1) existed = ws::rmtree_ifexists(tp);
                    else if (how == 2) existed = ws::rmtree_ifexists(tree.c_str());
                    else existed = ws::rmtree_ifexists(tree);
                });
                vfs::policy.before = nullptr;
                bool gone = !vfs::find(tree, false);
                std::string after = snapshot(tree);
                if (after != before) violation("outside", "removing %s changed something else: %s", tree.c_str(), first_difference(before, after).c_str());
                if (judge(r, swapped)) { if (!gone) violation("tree", "a tree is still there after removing it"); if (!existed) violation("tree", "removing an existing tree says it did not exist"); count("probe.tree_removed"); }
                std::function<void(const std::string&)> wipe = [&](const std::string& p) { vfs::NodeP n = vfs::find(p, false); if (!n) return; if (n->type == vfs::Node::DIR_) for (auto& k: vfs::list(p)) wipe(p + "/" + k); vfs::del(p); };
                wipe(tree);
                if (draw(2, "again"))
                {
                    faults.clear(0);
                    Res r = run("removing a missing tree", [&] { existed = how == 0 ? ws::rmtree_ifexists(tp) : how == 2 ? ws::rmtree_ifexists(tree.c_str()) : ws::rmtree_ifexists(tree); });
                    if (judge(r) && existed) violation("tree", "removing a missing tree says it existed");
                }
                break;
            }
            case 20:                      // scoped helpers
            {
                if (s.f && s.f->is_open())
                {
                    vfs::NodeP n = vfs::node_of(*s.f);
                    if (draw(2, "times")) { n->mtime = {(time_t)draw(2000000000, "mtime"), (long)draw(1000000000, "mtime-ns")}; n->atime = {(time_t)draw(2000000000, "atime"), (long)draw(1000000000, "atime-ns")}; }
                    struct timespec old = n->mtime, olda = n->atime;
                    Res r = run("preserving file times", [&] { ws::PreserveFileTimes p(*s.f); n->mtime.tv_sec += 100; n->mtime.tv_nsec = 1; n->atime.tv_sec += 10; n->atime.tv_nsec = 2; });
                    bool fail = faults.call(0, "futimens") || faults.call(0, "fstat");
                    judge(r);
                    auto differ = [](const struct timespec& a, const struct timespec& b) { return a.tv_sec != b.tv_sec || a.tv_nsec != b.tv_nsec; };
                    if (!fail && r.ok && (differ(n->mtime, old) || differ(n->atime, olda))) violation("times", "file times are not restored: %ld.%09ld and %ld.%09ld instead of %ld.%09ld and %ld.%09ld", n->atime.tv_sec, n->atime.tv_nsec, n->mtime.tv_sec, n->mtime.tv_nsec, olda.tv_sec, olda.tv_nsec, old.tv_sec, old.tv_nsec);
                    n->mtime = old; n->atime = olda;
                }
                struct rlimit a{}, b{};
                bool again = draw(2, "again");
                Res r = run("overriding a limit", [&] {
                    faults.num += 0;
                    ws::OverrideRlimit o(RLIMIT_NOFILE, 17);
                    if (again) o.set(23);
                    struct rlimit x; if (::getrlimit(RLIMIT_NOFILE, &x) == 0) a = x;
                });
                bool fail = faults.call(0, "setrlimit") || faults.call(0, "getrlimit");
                judge(r);
                { unsigned o = faults.num; faults.num = 0; Sut q; ::getrlimit(RLIMIT_NOFILE, &b); faults.num = o; }
                if (!fail && r.ok && (a.rlim_cur != (again ? 23 : 17) || b.rlim_cur != 1000)) violation("limit", "the limit was %lu inside and is %lu afterwards", (unsigned long)a.rlim_cur, (unsigned long)b.rlim_cur);
                { unsigned o = faults.num; faults.num = 0; Sut q; struct rlimit back{1000, RLIM_INFINITY}; ::setrlimit(RLIMIT_NOFILE, &back); faults.num = o; }
                break;
            }
            default:                      // mappings
                if (s.f && s.f->is_open() && vfs::node_of(*s.f)->data.size())
                {
                    bool move = draw(2, "move"), early = draw(2, "unmap");
                    std::string got;
                    unsigned left = 0; size_t size = 0; bool failed = false;
                    Res r = run("mapping a file", [&] {
                        ws::MMap a = s.f->mmap(3, PROT_READ, MAP_SHARED);
                        if (move)
                        {
                            ws::MMap b(std::move(a));
                            a = std::move(b);
                            ws::MMap c = s.f->mmap(3, PROT_READ, MAP_SHARED);
                            a = std::move(c);
                        }
                        { Host h; got.assign((const char*)a, 3); size = a.size(); }
                        if (early)
                        {
                            try { a.munmap(); } catch (std::system_error&) { failed = true; }
                            Host h; left = vfs::open_maps();
                        }
                    });
                    if (failed != faults.call(0, "munmap") && early && r.ok && !move) violation("mapping", "unmapping %s, but the system %s", failed ? "fails" : "succeeds", failed ? "did it" : "did not");
                    if (r.ok && early && !failed && left) violation("mapping", "a mapping that was released is still there");
                    if (r.ok && size != 3) violation("mapping", "a mapping of 3 bytes has %zu", size);
                    if (judge(r) && got != vfs::node_of(*s.f)->data.substr(0, 3)) violation("mapping", "a mapping does not show the file");
                    if (vfs::open_maps()) violation("mapping", "a mapping is left");
                    if (r.ok) count("probe.mapped");
                }
                break;
        }
        alloc::disarm();
        if (vfs::bad_closes()) violation("double-close", "%s: a descriptor that is not open was closed", op_name.c_str());
        if (vfs::open_fds() != open_objects()) violation("descriptors", "%s: %u descriptors are open but objects account for %u:%s", op_name.c_str(), vfs::open_fds(), open_objects(), vfs::describe_fds().c_str());
    }
    for (auto& s: slots) { Sut q; s.f.reset(); s.d.reset(); s.tf.reset(); s.td.reset(); }
    for (int fd: held) vfs::close_quiet(fd);
    if (vfs::bad_closes()) violation("double-close", "a descriptor that is not open was closed");
    if (vfs::open_fds()) violation("descriptors", "descriptors left open:%s", vfs::describe_fds().c_str());
    if (vfs::get("/sim/outside/precious") != "precious") violation("outside", "a file outside was changed");
    (void)m0;
    nontrivial();
}

}

SIM_SCENARIO(P16, prepare_files, run_p16)
SIM_SCENARIO(P17, prepare_files, run_p17)
SIM_SCENARIO(P19, prepare_files, run_p19)
