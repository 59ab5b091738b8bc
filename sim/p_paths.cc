// P22: looking at and changing directory entries does exactly what was asked,
// or says why not.
#include "files.h"

namespace {

typedef std::map<std::string, std::string> Snap;

std::string line_of(const vfs::NodeP& n)
{
    return std::to_string(n->type) + " " + (n->type == vfs::Node::LINK_ ? "-" : std::to_string(n->mode)) + " " + (n->type == vfs::Node::DIR_ ? "" : n->data);
}
Snap snap()
{
    Snap r;
    std::function<void(const std::string&)> walk = [&](const std::string& d) {
        for (auto& k: vfs::find(d, false)->kids) { std::string p = d + "/" + k.first; r[p] = line_of(k.second); if (k.second->type == vfs::Node::DIR_) walk(p); }
    };
    walk("/sim");
    return r;
}
std::string differ(const Snap& want, const Snap& got)
{
    for (auto& w: want)
    {
        auto i = got.find(w.first);
        if (i == got.end()) return w.first + " is not there";
        if (i->second != w.second) return w.first + " is \"" + printable(i->second, 40) + "\" instead of \"" + printable(w.second, 40) + "\"";
    }
    for (auto& g: got) if (!want.count(g.first)) return g.first + " should not be there";
    return "";
}

// Where a path leads: the node and its real path, or the reason why nowhere
struct Where { vfs::NodeP node; int err = 0; bool parent = false; std::string real; };
Where lookup(const std::string& abs, bool follow, int depth = 0)
{
    Where w;
    if (depth > 20) { w.err = ELOOP; return w; }
    std::vector<std::string> parts;
    for (size_t i = 0; i < abs.size(); )
    {
        size_t e = abs.find('/', i); if (e == std::string::npos) e = abs.size();
        if (e > i) parts.push_back(abs.substr(i, e - i));
        i = e + 1;
    }
    bool slash = abs.back() == '/';
    std::string cur;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        bool last = i + 1 == parts.size();
        vfs::NodeP d = cur.empty() ? nullptr : vfs::find(cur, false);
        if (!cur.empty() && d->type != vfs::Node::DIR_) { w.err = ENOTDIR; return w; }
        std::string p = cur + "/" + parts[i];
        vfs::NodeP n = vfs::find(p, false);
        if (last) { w.parent = true; w.real = p; }
        if (!n) { w.err = ENOENT; return w; }
        if (n->type == vfs::Node::LINK_ && (!last || follow || slash))
        {
            Where l = lookup(n->data[0] == '/' ? n->data : cur + "/" + n->data, true, depth + 1);
            if (!l.node) { w.err = l.err; w.parent = last && l.parent; w.real = l.real; return w; }
            p = l.real;
        }
        cur = p;
    }
    w.node = vfs::find(cur, false);
    w.real = cur;
    if (slash && w.node->type != vfs::Node::DIR_) { w.node = nullptr; w.err = ENOTDIR; }
    return w;
}

const std::vector<std::string> NAMES = {"a.txt", "prog", "link", "dirlink", "dangling", "loop", "sub", "sub/x", "sub/deep", "empty", "none", "a.txt/x", "none/x", "new1", "new2", "longlink", "dirlink/x", "sub/new3"};

void run_p22()
{
    vfs::reset();
    vfs::put("/sim/t/a.txt", "some data");
    vfs::put("/sim/t/prog", "#!", 0755);
    vfs::put_link("/sim/t/link", "a.txt");
    vfs::put_link("/sim/t/dirlink", "sub");
    vfs::put_link("/sim/t/dangling", "missing");
    vfs::put_link("/sim/t/loop", "loop");
    vfs::mkdirs("/sim/t/sub/deep");
    vfs::mkdirs("/sim/t/empty");
    vfs::mkdirs("/sim/bin1"); vfs::mkdirs("/sim/bin2");
    vfs::put("/sim/t/sub/x", "xx", 0600);
    if (draw(2, "p1")) vfs::put("/sim/bin1/tool", "1", draw(2, "x1") ? 0755 : 0644);
    if (draw(2, "p2")) vfs::put("/sim/bin2/tool", "2", 0755);
    static const unsigned lens[] = {1, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4000};
    std::string target(lens[draw(11, "target")], 'y');
    for (size_t i = 100; i + 1 < target.size(); i += 100) target[i] = '/';
    vfs::put_link("/sim/t/longlink", target);
    mode_t mask = draw(2, "umask") ? 077 : 022;
    { Sut s; if (ws::umask(mask) != 022) violation("umask", "umask does not return the previous one"); }
    install_faults(chance(1, 2, "faulty") ? 1 + draw(6, "rate") : 0, 0);
    std::unique_ptr<ws::Path> dir;
    std::string base;
    std::vector<int> held;
    unsigned steps = 6 + draw(24, "steps");
    for (unsigned s = 0; s < steps; ++s)
    {
        faults.clear(0);
        if (!dir)
        {
            unsigned o = faults.num; faults.num = 0;
            base = draw(3, "base") ? "/sim/t" : "/sim/t/sub";
            if (!vfs::find(base)) base = "/sim/t";
            Sut q; dir.reset(new ws::Path(std::filesystem::path(base)));
            faults.num = o;
        }
        std::string name = NAMES[draw(NAMES.size(), "name")];
        std::string abs = base + "/" + name;
        std::string full = "/sim/t/" + name;       // for the functions that take whole paths
        if (chance(1, 8, "slash")) full += "/";
        Snap before = snap();
        Snap want = before;
        std::string what;
        // Judges the outcome against the natural one: err (0: success) unless a call failed
        auto judge = [&](const Res& r, int err) {
            ev("%s: %s", what.c_str(), r.ok ? "ok" : r.msg.c_str());
            if (r.ok)
            {
                if (faults.any(0)) violation("error-lost", "%s claims success, but the system reported an error", what.c_str());
                if (err) violation("wrong-success", "%s claims success instead of failing with \"%s\"", what.c_str(), strerror(err));
                count("probe.done");
                return true;
            }
            if (!r.sys) violation("unexpected-error", "%s failed with \"%s\"", what.c_str(), r.msg.c_str());
            bool injected = faults.was(0, r.err);
            if (!injected && r.err != err) violation("unexpected-error", "%s failed with \"%s\"%s%s", what.c_str(), r.msg.c_str(), err ? " instead of " : "", err ? strerror(err) : "");
            want = before;
            if (injected) count("probe.failed"); else count("probe.natural_error");
            return false;
        };
        unsigned op = draw(36, "op");
        phase("op %u on %s", op, name.c_str());
        struct stat st; memset(&st, 0x5a, sizeof st);
        auto same_stat = [&](const vfs::NodeP& n) {
            mode_t t = n->type == vfs::Node::DIR_ ? S_IFDIR : n->type == vfs::Node::LINK_ ? S_IFLNK : S_IFREG;
            if (st.st_ino != n->ino || st.st_mode != (t | n->mode) || st.st_size != (off_t)n->data.size()) violation("stat", "%s shows something else than the entry", what.c_str());
        };
        switch (op)
        {
            case 0: case 1:
            {
                int fd = -1, err = 0;
                bool create = chance(1, 4, "create");
                what = "openat(" + name + (create ? ", creating)" : ")");
                Where w = lookup(abs, true);
                bool made = false;
                if (!w.node && create && name.compare(0, 3, "new") == 0 && w.parent && w.err == ENOENT) made = true; else { err = w.err; create = create && w.node && w.node->type == vfs::Node::FILE_; }
                if (!w.node && !made) create = false;
                bool ifex = !create && draw(2, "ifexists");
                Res r = go([&] { fd = ifex ? dir->openat_ifexists(name.c_str(), O_RDONLY) : dir->openat(name.c_str(), create || made ? O_RDWR | O_CREAT : O_RDONLY, 0640); });
                if (ifex && err == ENOENT) { if (judge(r, 0) && fd != -1) violation("exists", "%s gives a descriptor for something that does not exist", what.c_str()); }
                else if (judge(r, err))
                {
                    if (fd < 0 || vfs::node_of(fd) != vfs::find(abs)) violation("open", "%s opened something else", what.c_str());
                    if (made) { vfs::NodeP n = vfs::find(abs); if (n->mode != (0640 & ~mask)) violation("mode", "%s made mode %o", what.c_str(), n->mode); want[w.real] = line_of(n); }
                }
                if (fd >= 0) held.push_back(fd);
                break;
            }
            case 2:
            {
                int mode = draw(2, "mode") ? X_OK : F_OK;
                what = "faccessat(" + name + ")";
                Where w = lookup(abs, true);
                bool ok = false;
                Res r = go([&] { ok = dir->faccessat(name.c_str(), mode); });
                if (!r.ok) violation("unexpected-error", "%s failed with \"%s\"", what.c_str(), r.msg.c_str());
                bool exp = w.node && (mode == F_OK || (w.node->mode & 0111)) && !faults.any(0);
                if (ok != exp) violation("access", "%s says %d", what.c_str(), ok);
                break;
            }
            case 3: case 4: case 5: case 6:
            {
                bool l = op >= 5, ifex = op & 1, there = true;
                what = std::string(l ? "lstatat" : "fstatat") + (ifex ? "_ifexists(" : "(") + name + ")";
                Where w = lookup(abs, !l);
                Res r = go([&] {
                    if (l) { if (ifex) there = dir->lstatat_ifexists(name.c_str(), st); else dir->lstatat(name.c_str(), st); }
                    else { if (ifex) there = dir->fstatat_ifexists(name.c_str(), st); else dir->fstatat(name.c_str(), st); }
                });
                if (judge(r, ifex && w.err == ENOENT ? 0 : w.err))
                {
                    if (there != !!w.node) violation("exists", "%s says %d", what.c_str(), there);
                    if (there) same_stat(w.node);
                }
                break;
            }
            case 7: case 8:
            {
                what = "unlinkat(" + name + ")";
                Where w = lookup(abs, false);
                int err = w.err ? w.err : w.node->type == vfs::Node::DIR_ ? EISDIR : 0;
                Res r = go([&] { dir->unlinkat(name.c_str()); });
                if (judge(r, err)) want.erase(w.real);
                break;
            }
            case 9: case 10:
            {
                what = "mkdirat(" + name + ")";
                Where w = lookup(abs, false);
                int err = w.node ? EEXIST : w.parent && w.err == ENOENT ? 0 : w.err ? w.err : ENOENT;
                mode_t m = draw(2, "mode") ? 0777 : 0700;
                bool dflt = m == 0777 && draw(2, "default");
                Res r = go([&] { if (dflt) dir->mkdirat(name.c_str()); else dir->mkdirat(name.c_str(), m); });
                if (judge(r, err)) { vfs::NodeP n = vfs::find(abs, false); if (!n || n->type != vfs::Node::DIR_ || n->mode != (m & ~mask)) violation("mkdir", "%s made something else", what.c_str()); want[w.real] = line_of(n); count("probe.made"); }
                break;
            }
            case 11:
            {
                what = "rmdirat(" + name + ")";
                Where w = lookup(abs, false);
                int err = w.err ? w.err : w.node->type != vfs::Node::DIR_ ? ENOTDIR : !w.node->kids.empty() ? ENOTEMPTY : 0;
                Res r = go([&] { dir->rmdirat(name.c_str()); });
                if (judge(r, err)) want.erase(w.real);
                break;
            }
            case 12:
            {
                what = "symlinkat(" + name + ")";
                Where w = lookup(abs, false);
                int err = w.node ? EEXIST : w.parent && w.err == ENOENT ? 0 : w.err ? w.err : ENOENT;
                Res r = go([&] { dir->symlinkat("a.txt", name.c_str()); });
                if (judge(r, err)) { vfs::NodeP n = vfs::find(abs, false); if (!n || n->type != vfs::Node::LINK_ || n->data != "a.txt") violation("symlink", "%s made something else", what.c_str()); want[w.real] = line_of(n); }
                break;
            }
            case 13: case 14:
            {
                if (draw(2, "long")) { name = "longlink"; abs = base + "/" + name; }
                what = "readlinkat(" + name + ")";
                Where w = lookup(abs, false);
                int err = w.err ? w.err : w.node->type != vfs::Node::LINK_ ? EINVAL : 0;
                std::string got;
                Res r = go([&] { std::string t = dir->readlinkat(name.c_str()); Host h; got = t; });
                if (judge(r, err)) { if (got != w.node->data) violation("readlink", "%s gives %zu bytes \"%s\" of a link of %zu bytes", what.c_str(), got.size(), printable(got, 30).c_str(), w.node->data.size()); count("probe.link_read"); }
                break;
            }
            case 15: case 16:
            {
                what = "stat(" + full + ")";
                Where w = lookup(full, true);
                unsigned how = draw(6, "overload");
                std::unique_ptr<struct stat> res;
                std::filesystem::path fp(full);
                Res r = go([&] {
                    switch (how)
                    {
                        case 0: res = ws::stat(full.c_str()); break;
                        case 1: res = ws::stat(full); break;
                        case 2: res = ws::stat(fp); break;
                        case 3: ws::stat(full.c_str(), st); break;
                        case 4: ws::stat(full, st); break;
                        default: ws::stat(fp, st); break;
                    }
                });
                if (judge(r, how < 3 && w.err == ENOENT ? 0 : w.err))
                {
                    if (how < 3) { if (!!res != !!w.node) violation("exists", "%s says %d", what.c_str(), !!res); if (res) st = *res; }
                    if (w.node) same_stat(w.node);
                }
                break;
            }
            case 17: case 18:
            {
                unsigned which = draw(8, "kind");
                bool got = false;
                what = "is(" + full + ", " + std::to_string(which) + ")";
                Where w = lookup(full, which != 4);
                Res r = go([&] {
                    switch (which)
                    {
                        case 0: got = ws::isdir(full); break;
                        case 1: got = ws::isblk(full); break;
                        case 2: got = ws::ischr(full); break;
                        case 3: got = ws::isfifo(full); break;
                        case 4: got = ws::islnk(full); break;
                        case 5: got = ws::isreg(full); break;
                        case 6: got = ws::issock(full); break;
                        default: got = ws::exists(full); break;
                    }
                });
                int err = w.err == ENOENT || (which == 7 && w.err == ENOTDIR) ? 0 : w.err;
                if (judge(r, err))
                {
                    bool exp = w.node && (which == 0 ? w.node->type == vfs::Node::DIR_ : which == 4 ? w.node->type == vfs::Node::LINK_ : which == 5 ? w.node->type == vfs::Node::FILE_ : which == 7);
                    if (got != exp) violation("kind", "%s says %d", what.c_str(), got);
                }
                break;
            }
            case 19: case 20: case 21:
            {
                unsigned which = draw(3, "field"); bool def = draw(2, "default");
                what = "field " + std::to_string(which) + " of " + full;
                Where w = lookup(full, true);
                unsigned long long got = 0, d = 4242;
                std::filesystem::path fp(full);
                Res r = go([&] {
                    if (which == 0) got = def ? ws::timestamp(fp, d) : ws::timestamp(fp);
                    else if (which == 1) got = def ? ws::size(fp, d) : ws::size(fp);
                    else got = def ? ws::inode(fp, d) : ws::inode(fp);
                });
                if (judge(r, def && w.err == ENOENT ? 0 : w.err))
                {
                    unsigned long long exp = !w.node ? d : which == 0 ? w.node->mtime.tv_sec : which == 1 ? w.node->data.size() : w.node->ino;
                    if (got != exp) violation("field", "%s is %llu instead of %llu", what.c_str(), got, exp);
                }
                break;
            }
            case 22: case 23:
            {
                unsigned how = draw(4, "overload");
                what = (how == 3 ? "unlink(" : "unlink_ifexists(") + full + ")";
                Where w = lookup(full, full.back() == '/');
                int err = w.err ? w.err : w.node->type == vfs::Node::DIR_ ? EISDIR : 0;
                if (full.back() == '/') break;
                bool was = true;
                std::filesystem::path fp(full);
                Res r = go([&] {
                    if (how == 0) was = ws::unlink_ifexists(full.c_str());
                    else if (how == 1) was = ws::unlink_ifexists(full);
                    else if (how == 2) was = ws::unlink_ifexists(fp);
                    else ws::unlink(fp);
                });
                if (judge(r, how < 3 && err == ENOENT ? 0 : err))
                {
                    if (was != !!w.node) violation("exists", "%s says %d", what.c_str(), was);
                    if (w.node) want.erase(w.real);
                    if (was) count("probe.removed");
                }
                break;
            }
            case 24:
            {
                if (full.back() == '/') break;
                what = "rmdir(" + full + ")";
                Where w = lookup(full, false);
                int err = w.err ? w.err : w.node->type != vfs::Node::DIR_ ? ENOTDIR : !w.node->kids.empty() ? ENOTEMPTY : 0;
                std::filesystem::path fp(full);
                Res r = go([&] { ws::rmdir(fp); });
                if (judge(r, err)) want.erase(w.real);
                break;
            }
            case 25: case 26:
            {
                // between plain entries of one directory that exists
                static const char* const plain[] = {"a.txt", "prog", "link", "dangling", "none", "new1", "longlink", "a.txt/x", "none/x", "loop/x"};
                std::string src = std::string("/sim/t/") + plain[draw(10, "src")], dst = std::string("/sim/t/") + plain[draw(7, "dst")];
                if (src == dst) break;
                bool ifex = draw(2, "ifexists");
                what = "rename(" + src + ", " + dst + ")";
                vfs::NodeP n = vfs::find(src, false), d = vfs::find(dst, false);
                int err = !n ? lookup(src, false).err : d && d->type == vfs::Node::DIR_ && n->type != vfs::Node::DIR_ ? EISDIR : d && d->type != vfs::Node::DIR_ && n->type == vfs::Node::DIR_ ? ENOTDIR : d && d->type == vfs::Node::DIR_ && !d->kids.empty() ? ENOTEMPTY : 0;
                if (n && n->type == vfs::Node::DIR_) break;
                bool was = true;
                std::filesystem::path sp(src), dp(dst);
                Res r = go([&] { if (ifex) was = ws::rename_ifexists(sp, dp); else ws::rename(src, dst); });
                if (judge(r, ifex && err == ENOENT ? 0 : err))
                {
                    if (was != !!n) violation("exists", "%s says %d", what.c_str(), was);
                    if (n) { want[dst] = before[src]; want.erase(src); count("probe.renamed"); }
                }
                break;
            }
            case 27:
            {
                what = "touch(" + full + ")";
                Where w = lookup(full, true);
                time_t t = draw(6, "epoch") == 5 ? 0 : draw(2000000000, "time");
                std::filesystem::path fp(full);
                Res r = go([&] { ws::touch(fp, t); });
                if (judge(r, w.err) && (w.node->mtime.tv_sec != t || w.node->atime.tv_sec != t)) violation("times", "%s did not set the times", what.c_str());
                break;
            }
            case 28: case 29: case 30:
            {
                // missing directories, which someone else may be making at the same time
                bool deep = op != 28;
                static const char* const chains[] = {"new1/b/c/d", "sub/deep/e/f", "new2/g", "empty/h/i", "a.txt", "sub", "link/z", "dirlink/k"};
                std::string p = std::string("/sim/t/") + (deep ? chains[draw(8, "chain")] : name);
                if (chance(1, 6, "slash") && deep) p += "/";
                what = (deep ? "makedirs(" : "mkdir_ifmissing(") + p + ")";
                Where w = lookup(p, true);
                bool race = chance(1, 3, "race");
                std::set<std::string> others;
                if (race)
                    vfs::policy.before = [&](const char* c, const std::string& q) {
                        if (strcmp(c, "mkdir") != 0 || !chance(1, 2, "now") || vfs::find(q, false)) return;
                        std::string parent = q.substr(0, q.rfind('/'));
                        vfs::NodeP n = vfs::find(parent);
                        if (!n || n->type != vfs::Node::DIR_) return;
                        vfs::mkdirs(q);
                        others.insert(q);
                        fault("fault.made_by_another");
                        ev("someone else makes %s", q.c_str());
                    };
                bool made = false;
                std::filesystem::path fp(p);
                Res r = go([&] { made = deep ? ws::makedirs(fp) : ws::mkdir_ifmissing(fp); });
                vfs::policy.before = nullptr;
                ev("%s: %s", what.c_str(), r.ok ? made ? "made" : "was there" : r.msg.c_str());
                bool fine = r.ok;
                if (!r.ok)
                {
                    bool obstacle = w.err == ENOTDIR || w.err == ELOOP || (w.node && w.node->type != vfs::Node::DIR_) || (w.err == ENOENT && vfs::find(p, false) && vfs::find(p, false)->type == vfs::Node::LINK_);
                    bool noparent = !deep && w.err == ENOENT && !w.parent;
                    // a link that leads nowhere on the way
                    for (size_t i = 1; (i = p.find('/', i)) != std::string::npos; ++i) { vfs::NodeP n = vfs::find(p.substr(0, i), false), t = vfs::find(p.substr(0, i)); if (n && (!t || t->type != vfs::Node::DIR_)) obstacle = true; }
                    if (!faults.any(0) && !obstacle && !noparent) violation("unexpected-error", "%s failed with \"%s\"", what.c_str(), r.msg.c_str());
                    if (!r.sys) violation("unexpected-error", "%s failed with \"%s\"", what.c_str(), r.msg.c_str());
                    count("probe.natural_error");
                } else {
                    vfs::NodeP n = vfs::find(p);
                    if (!n || n->type != vfs::Node::DIR_) violation("mkdir", "%s succeeded, but there is no such directory", what.c_str());
                    bool mine = !w.node && !others.count(p.back() == '/' ? p.substr(0, p.size() - 1) : p);
                    if (w.node && made) violation("mkdir", "%s says it made what was there", what.c_str());
                    if (!w.node && !made && mine) violation("mkdir", "%s says it was there", what.c_str());
                    count("probe.made");
                    if (!others.empty()) count("probe.made_in_a_race");
                }
                // only directories on the way may have appeared
                std::set<std::string> onway;
                for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { Where x = lookup(p.substr(0, i), true); if (x.node) onway.insert(x.real); }
                Snap now = snap();
                for (auto& g: now)
                    if (!want.count(g.first))
                    {
                        if (!onway.count(g.first) || vfs::find(g.first, false)->type != vfs::Node::DIR_) violation("tree", "%s made %s", what.c_str(), g.first.c_str());
                        want[g.first] = g.second;
                    }
                (void)fine;
                break;
            }
            case 31:
            {
                static const char* const paths[] = {"/sim/bin1:/sim/bin2", "/sim/bin2:/sim/bin1", ":/sim/bin1::/sim/bin2:", "/sim/none:/sim/bin2", "/sim/bin1", ""};
                std::string path = paths[draw(6, "PATH")];
                std::string tool = draw(4, "slash") ? "tool" : draw(2, "abs") ? "/sim/bin2/tool" : "sub/tool";
                const char* old = getenv("PATH"); std::string saved = old ? old : "";
                bool unset = chance(1, 8, "unset");
                if (unset) unsetenv("PATH"); else setenv("PATH", path.c_str(), 1);
                std::string got;
                what = "which(" + tool + ") in " + path;
                Res r = go([&] { std::filesystem::path t = ws::which(tool); Host h; got = t.native(); });
                setenv("PATH", saved.c_str(), 1);
                if (!r.ok) { if (!faults.any(0)) violation("unexpected-error", "%s failed with \"%s\"", what.c_str(), r.msg.c_str()); break; }
                std::string exp = tool;
                if (tool[0] == '/') exp = tool;
                else if (tool.find('/') != std::string::npos) exp = vfs::cwd_path() + "/" + tool;
                else if (!unset)
                {
                    size_t i = 0;
                    while (i <= path.size())
                    {
                        size_t e = path.find(':', i); if (e == std::string::npos) e = path.size();
                        std::string d = path.substr(i, e - i);
                        i = e + 1;
                        if (d.empty()) continue;
                        vfs::NodeP n = vfs::find(d + "/tool");
                        if (n && (n->mode & 0111)) { exp = d + "/tool"; break; }
                    }
                }
                if (got != exp && !faults.any(0)) violation("which", "%s gives %s instead of %s", what.c_str(), got.c_str(), exp.c_str());
                count("probe.which");
                break;
            }
            case 32:
            {
                std::string to = draw(2, "to") ? "/sim/t" : "/sim/none";
                if (draw(3, "rel") == 0) to = "/sim";
                what = "chdir(" + to + ")";
                int err = vfs::find(to) ? 0 : ENOENT;
                std::string was = vfs::cwd_path();
                Res r = go([&] { ws::chdir(to); });
                std::string exp = judge(r, err) ? to : was, got;
                unsigned o = faults.num; faults.num = 0;
                r = go([&] { std::string t = ws::getcwd(); Host h; got = t; });
                faults.num = o;
                if (!r.ok || got != exp) violation("cwd", "after %s from %s the directory is %s", what.c_str(), was.c_str(), got.c_str());
                static const struct { const char* path; const char* exp; } forms[] = {{"x/../y", "+/y"}, {"./y", "+/y"}, {"none//q/./w", "+/none/q/w"}, {"/none/../y", "/y"}, {"/none/./a", "/none/a"}, {"/", "/"}, {"/../y", "/y"}};
                auto& form = forms[draw(7, "form")];
                std::string full = form.exp[0] == '+' ? exp + (form.exp + 1) : form.exp;
                r = go([&] { std::string t = ws::abspath(form.path); Host h; got = t; });
                if (r.ok && got != full) violation("abspath", "the absolute path of %s in %s is %s", form.path, exp.c_str(), got.c_str());
                // names derived from another
                static const char* const bases[] = {"a", "/sim/t/a.txt", "sub/.hidden", "..", "/sim/t/", "", "/", "x/."};
                static const char* const sufs[] = {".tmp", "", "~", ".a.b", "/x"};
                std::string base = bases[draw(8, "base")], suf = sufs[draw(5, "suffix")];
                bool named = !base.empty() && base.back() != '/';
                bool refused = false;
                r = go([&] { try { std::filesystem::path t = ws::with_suffix(base, suf); Host h; got = t.native(); } catch (std::invalid_argument&) { refused = true; } });
                if (!r.ok) violation("suffix", "adding a suffix fails with \"%s\"", r.msg.c_str());
                if (refused != !named || (named && got != base + suf)) violation("suffix", "adding %s to %s gives %s", suf.c_str(), base.c_str(), refused ? "an error" : got.c_str());
                break;
            }
            case 33: case 34:
            {
                // a tree that may be missing; what stands in its place is not touched
                static const char* const roots[] = {"none", "a.txt", "prog", "loop", "dangling", "a.txt/x", "none/x", "loop/x", "new1", "empty"};
                std::string root = std::string("/sim/t/") + roots[draw(10, "root")];
                what = "rmtree_ifexists(" + root + ")";
                Where w = lookup(root, true);
                int err = w.err ? w.err : w.node->type != vfs::Node::DIR_ ? ENOTDIR : 0;
                if (w.node && w.real != root) break;
                bool was = true;
                std::filesystem::path rp(root);
                // closing a directory that was only read has nothing to lose
                faults.never.push_back("close");
                Res r = go([&] { was = ws::rmtree_ifexists(rp); });
                faults.never.pop_back();
                if (w.node && !err)
                {
                    // contents may be gone when it fails
                    for (auto i = want.begin(); i != want.end();) if (i->first == root || i->first.compare(0, root.size() + 1, root + "/") == 0) i = want.erase(i); else ++i;
                    if (!r.ok) { Snap now = snap(); for (auto& g: now) if (g.first == root || g.first.compare(0, root.size() + 1, root + "/") == 0) { if (!before.count(g.first) || before[g.first] != g.second) violation("tree", "%s changed %s", what.c_str(), g.first.c_str()); want.insert(g); } before = want; }
                }
                if (judge(r, err == ENOENT ? 0 : err) && was != !!w.node) violation("exists", "%s says %d", what.c_str(), was);
                break;
            }
            default:
                dir.reset();
                break;
        }
        std::string d = differ(want, snap());
        if (!d.empty()) violation("tree", "%s: %s", what.c_str(), d.c_str());
        while (held.size() > 3) { vfs::close_quiet(held.back()); held.pop_back(); }
        if (chance(1, 10, "restore"))
        {
            if (!vfs::find("/sim/t/a.txt", false)) vfs::put("/sim/t/a.txt", "again");
            if (!vfs::find("/sim/t/link", false)) vfs::put_link("/sim/t/link", "a.txt");
            if (!vfs::find("/sim/t/longlink", false)) vfs::put_link("/sim/t/longlink", target);
        }
    }
    dir.reset();
    for (int fd: held) vfs::close_quiet(fd);
    if (vfs::open_fds()) violation("descriptors", "descriptors left open:%s", vfs::describe_fds().c_str());
    if (vfs::bad_closes()) violation("descriptors", "a descriptor that was not open was closed");
    nontrivial();
}

}

SIM_SCENARIO(P22, prepare_files, run_p22)
