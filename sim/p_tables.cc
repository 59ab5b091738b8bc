// P12/P13: table files: loading them from a file system that fails, and
// choosing among them.
#include "lib.h"
#include "vfs.h"
#include "gen.h"
#include <wreport/bulletin.h>
#include <wreport/dtable.h>
#include <wreport/internals/tabledir.h>
#include <wreport/tableinfo.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <algorithm>
#include <cmath>
#include <climits>
#include <map>
#include <set>
#include <sstream>
#include <tuple>

using namespace sim;
using namespace wreport;

namespace {

// ---------------------------------------------------------------- the world

struct Row
{
    unsigned code;            // XXYYY
    std::string desc, unit, cunit;
    int scale, ref, bits, cscale, clen;
    bool crex;                // the row has the CREX columns
};

struct File
{
    enum Kind { BUFR_SHORT, BUFR_LONG, CREX_, RAW } kind;
    unsigned dir;
    std::string base;         // without extension
    int ce = 0, sc = 0, mtv = 0, local = 0, ed = 0, mt = 0;
    std::vector<Row> rows;
    std::map<unsigned, std::vector<unsigned>> seqs;   // F=3 code XXYYY -> FXXYYY list
    bool bad_b = false, bad_d = false, no_d = false;
    std::string b_path, d_path;
};

struct World
{
    std::vector<std::string> dirs;      // in search order
    std::vector<File> files;
};

std::string fixed(const std::string& s, size_t n) { std::string r = s.substr(0, n); r.resize(n, ' '); return r; }

const char* const UNITS[] = {"NUMERIC", "M", "K", "CCITTIA5", "CODE TABLE 4001", "FLAG TABLE 8042", "M/S", "PA", "CODETABLEDEFINEDBYORIGIN", "DEGREE TRUE"};

Row draw_row(unsigned code)
{
    Row r;
    r.code = code;
    static const char* const words[] = {"HEIGHT", "OF", "STATION", "TEMPERATURE", "(SEE NOTE 1)", "WIND", "SPEED", "ABOVE GROUND", "MEAN SEA LEVEL", "IDENTIFIER"};
    unsigned n = 1 + draw(8, "desc");
    for (unsigned i = 0; i < n; ++i) r.desc += std::string(i ? " " : "") + words[draw(10, "desc")];
    if (r.desc.size() > 64) r.desc.resize(64);
    while (r.desc.back() == ' ') r.desc.pop_back();
    r.unit = UNITS[draw(10, "unit")];
    bool str = r.unit == "CCITTIA5", tab = r.unit.compare(0, 4, "CODE") == 0 || r.unit.compare(0, 4, "FLAG") == 0;
    r.scale = str || tab ? 0 : chance(1, 10, "far") ? (int)draw(45, "scale") - 22 : (int)draw(7, "scale") - 2;
    r.ref = str || tab || chance(1, 2, "ref") ? 0 : -(int)draw(100000, "ref");
    r.bits = str ? 8 * (1 + draw(30, "bits")) : 1 + draw(31, "bits");
    r.cunit = str ? "CHARACTER" : r.unit;
    r.cscale = str || tab ? 0 : (int)draw(5, "cscale") - 1;
    r.clen = str ? r.bits / 8 : 1 + draw(chance(1, 8, "long") ? 14 : 8, "clen");
    r.crex = code / 1000 != 31 || chance(1, 2, "crex31");
    return r;
}

std::string b_text(const File& f)
{
    std::string o;
    size_t bad = f.bad_b ? draw(f.rows.size(), "bad-row") : (size_t)-1;
    // rows of class 31 may lack columns
    while (f.bad_b && f.rows[bad].code / 1000 == 31) bad = (bad + 1) % f.rows.size();
    std::vector<std::string> lines;
    for (size_t i = 0; i < f.rows.size(); ++i)
    {
        const Row& r = f.rows[i];
        char nums[64], cn[32];
        // the sign of a number may stand apart from it
        if (r.ref < 0 && chance(1, 4, "sign")) snprintf(nums, 64, " %3d -%11d %3d ", r.scale, -r.ref, r.bits);
        else if (r.scale < 0 && r.scale > -10 && chance(1, 4, "sign")) snprintf(nums, 64, " -%2d %12d %3d ", -r.scale, r.ref, r.bits);
        else snprintf(nums, 64, " %3d %12d %3d ", r.scale, r.ref, r.bits);
        snprintf(cn, 32, " %2d %9d", r.cscale, r.clen);
        char c[16];
        snprintf(c, 16, " 0%05u ", r.code);
        std::string l = c + fixed(r.desc, 64) + " " + fixed(r.unit, 24) + nums;
        if (r.crex) l += fixed(r.cunit, 24) + cn;
        lines.push_back(l);
    }
    bool cut = false;
    if (f.bad_b)
        switch (draw(4, "bad-how"))
        {
            case 0: lines[bad].resize(20 + draw(60, "bad-row")); break;          // a short row
            case 1: lines.resize(bad + 1); lines[bad].resize(8 + draw(100, "cut")); cut = true; break;   // the file ends in the middle of a row
            case 2: lines.insert(lines.begin() + bad, lines[bad]); break;        // a row twice
            case 3: lines.push_back(lines[bad]); if (bad + 1 == f.rows.size()) lines[bad].resize(30); break;  // rows out of order
        }
    for (auto& l: lines) o += l + "\n";
    if (cut) o.pop_back();
    return o;
}

std::string d_text(const File& f)
{
    std::string o;
    size_t bad = f.bad_d ? draw(f.seqs.size(), "bad-seq") : (size_t)-1, i = 0;
    unsigned how = f.bad_d ? draw(6, "bad-how") : 0;
    // usually, but not always, they are sorted
    std::vector<std::pair<unsigned, std::vector<unsigned>>> seqs(f.seqs.begin(), f.seqs.end());
    if (chance(1, 5, "unsorted"))
        for (size_t k = seqs.size(); k > 1; --k) if (chance(1, 3, "displaced")) std::swap(seqs[k - 1], seqs[draw(k, "with")]);
    for (auto& s: seqs)
    {
        char b[64];
        unsigned n = s.second.size();
        bool here = i == bad;
        if (here && how == 4) o += chance(1, 2, "comment") ? "# a comment that is not expected here\n" : " 30100\n";
        if (here && how == 5 && i == 0) o += "           001001\n";
        unsigned said = here && how == 0 ? n + 1 : here && how == 1 ? n - 1 : here && how >= 5 && i ? n + 7 : n;
        snprintf(b, 64, " 3%05u %2u %06u\n", s.first, said, s.second[0]);
        o += b;
        for (size_t k = 1; k < n; ++k) { snprintf(b, 64, "           %06u\n", s.second[k]); o += b; }
        if (here && how == 2) { o.resize(o.size() - 2 - draw(5, "cut")); return o; }   // cut within the last item
        if (here && how == 3) return "";                                              // nothing at all
        ++i;
    }
    return o;
}

void write_file(World& w, File& f)
{
    std::string dir = w.dirs[f.dir];
    f.b_path = dir + "/" + f.base + ".txt";
    f.d_path = dir + "/D" + f.base.substr(1) + ".txt";
    vfs::put(f.b_path, b_text(f));
    if (f.no_d) vfs::del(f.d_path); else vfs::put(f.d_path, d_text(f));
}

void fill_file(File& f, bool small)
{
    unsigned n = small ? 1 + draw(2, "rows") : 1 + draw(60, "rows");
    std::set<unsigned> codes;
    for (unsigned i = 0; i < n; ++i) codes.insert((1 + draw(40, "x")) * 1000 + draw(60, "y"));
    for (unsigned c: codes) f.rows.push_back(draw_row(c));
    n = small ? 1 : 1 + draw(30, "seqs");
    for (unsigned i = 0; i < n; ++i)
    {
        auto& s = f.seqs[(1 + draw(20, "x")) * 1000 + draw(60, "y")];
        s.clear();
        unsigned k = 1 + draw(6, "len");
        for (unsigned j = 0; j < k; ++j) s.push_back(chance(1, 4, "other-kind") ? (1 + draw(3, "f")) * 100000 + draw(64, "x") * 1000 + draw(256, "y") : f.rows[draw(f.rows.size(), "item")].code);
    }
}

void draw_file(World& w, unsigned dir, std::set<std::string>& names, bool small, bool bad)
{
    File f;
    f.dir = dir;
    switch (draw(7, "file-kind"))
    {
        case 0: case 1: f.kind = File::BUFR_SHORT; break;
        case 2: case 3: case 4: f.kind = File::BUFR_LONG; break;
        case 5: f.kind = File::CREX_; break;
        default: f.kind = chance(1, 2, "raw") ? File::RAW : File::CREX_;
    }
    static const int centres[] = {0, 98, 200, 7, 255};
    char b[64];
    f.ce = centres[draw(5, "ce")]; f.sc = draw(3, "sc");
    f.mtv = draw(6, "mtv") * (chance(1, 2, "mtv") ? 1 : 6); f.local = draw(4, "local");
    switch (f.kind)
    {
        case File::BUFR_SHORT: snprintf(b, 64, "B00000%03d%03d%02d%02d", f.sc, f.ce, f.mtv, f.local); break;
        case File::BUFR_LONG: if (chance(1, 4, "big")) f.ce += chance(1, 2, "big") ? 1000 : 256; if (chance(1, 4, "big")) f.sc += 256 * (1 + draw(2, "big")); snprintf(b, 64, "B00%03d%04d%04d%03d%03d", 0, f.sc, f.ce, f.mtv, f.local); break;
        case File::CREX_: f.mt = draw(2, "mt"); f.ed = 1 + draw(2, "ed"); f.ce = f.sc = f.local = 0; snprintf(b, 64, "B%02d%02d%02d", f.mt, f.ed, f.mtv); break;
        case File::RAW: snprintf(b, 64, "%s%u", chance(1, 2, "raw") ? "dballe" : "x", draw(3, "raw")); break;
    }
    f.base = b;
    if (!names.insert(std::to_string(f.dir) + f.base).second) return;
    fill_file(f, small);
    if (bad)
    {
        f.bad_b = chance(1, 8, "bad-b"); f.bad_d = chance(1, 8, "bad-d"); f.no_d = chance(1, 10, "no-d");
        if (std::all_of(f.rows.begin(), f.rows.end(), [](const Row& r) { return r.code / 1000 == 31; })) f.bad_b = false;
    }
    write_file(w, f);
    w.files.push_back(f);
    ev("file %s %zu rows %zu sequences%s%s%s", f.b_path.c_str(), f.rows.size(), f.seqs.size(), f.bad_b ? " bad-b" : "", f.bad_d ? " bad-d" : "", f.no_d ? " no-d" : "");
}

World draw_world(bool small, unsigned max_files, bool bad)
{
    World w;
    vfs::reset();
    unsetenv("WREPORT_EXTRA_TABLES"); unsetenv("WREPORT_TABLES");
    auto add = [&](const char* var, const char* path) {
        std::string v = path;
        if (chance(1, 4, "slash")) v += chance(1, 2, "slash") ? "/" : "//";
        setenv(var, v.c_str(), 1);
        if (chance(1, 8, "missing-dir")) { note("%s=%s (missing)", var, v.c_str()); return; }
        vfs::mkdirs(path);
        w.dirs.push_back(path);
        note("%s=%s", var, v.c_str());
    };
    if (chance(1, 2, "extra")) add("WREPORT_EXTRA_TABLES", "/sim/extra");
    if (chance(1, 2, "main")) add("WREPORT_TABLES", chance(1, 8, "same") ? "/sim/tables" : "/sim/main");
    if (std::find(w.dirs.begin(), w.dirs.end(), "/sim/tables") == w.dirs.end())
    {
        vfs::mkdirs("/sim/tables");
        w.dirs.push_back("/sim/tables");
    }
    unsigned n = 1 + draw(max_files, "files");
    std::set<std::string> names;
    for (unsigned i = 0; i < n; ++i)
    {
        draw_file(w, draw(w.dirs.size(), "dir"), names, small, bad);
    }
    // things that are not tables
    if (chance(1, 2, "stray")) { vfs::put(w.dirs[0] + "/README.md", "x"); vfs::put(w.dirs[0] + "/B123.txt", "x"); vfs::put(w.dirs[0] + "/Bxxxxxxxxxxxxxxx.txt", "x"); vfs::put(w.dirs[0] + "/.txt", "x"); }
    vfs::policy.dir_order = chance(1, 2, "order") ? 0 : 1 + draw(1000, "order");
    return w;
}

// ---------------------------------------------------------------- selection model

struct Want { bool crex; int ce, sc, mt, mtv, local, ed, mtvb; };

typedef std::tuple<int, int, int, int, int, int> Rank;   // smaller is better

Rank rank(const Want& w, int version, int ce, int sc, int local)
{
    int level = ce == w.ce ? 3 : ce == 0 ? 2 : ce == 0xffff ? 1 : 0;
    int l1 = 0, l2 = 0, s = 0;
    if (level == 3)
    {
        if (w.local != 0) { l1 = local < w.local; l2 = l1 ? -local : local; }
        s = sc != w.sc;
    }
    return Rank(version, -level, l1, l2, s, 0);
}

// All the tables that may be chosen
std::vector<const File*> best(const World& w, const Want& want)
{
    std::vector<const File*> bufr, crex;
    Rank rb, rc;
    auto consider = [&](std::vector<const File*>& v, Rank& cur, const Rank& r, const File* f) {
        if (v.empty() || r < cur) { v = {f}; cur = r; }
        else if (r == cur)
        {
            if (f->dir < v[0]->dir) v = {f};
            else if (f->dir == v[0]->dir) v.push_back(f);
        }
    };
    for (auto& f: w.files)
    {
        if (f.kind == File::BUFR_SHORT || f.kind == File::BUFR_LONG)
        {
            if (want.mt != 0) continue;
            if (f.mtv < (want.crex ? want.mtvb : want.mtv)) continue;
            consider(bufr, rb, rank(want, f.mtv, f.ce, f.sc, f.local), &f);
        }
        else if (f.kind == File::CREX_ && want.crex)
        {
            if (f.ed != want.ed || f.mt != want.mt || f.mtv < want.mtv || want.mtvb > 0) continue;
            consider(crex, rc, rank(want, f.mtv, 0, 0, 0), &f);
        }
    }
    if (crex.empty()) return bufr;
    if (bufr.empty()) return crex;
    // CREX tables count as BUFR version 0
    Rank a = rank(want, bufr[0]->mtv, bufr[0]->ce, bufr[0]->sc, bufr[0]->local), b = rank(want, 0, 0, 0, 0);
    return b < a ? crex : bufr;
}

Want draw_want(const World& w, bool crex)
{
    Want r{};
    r.crex = crex;
    const File& f = pick(w.files, "near");
    r.ce = f.ce; r.sc = f.sc; r.mtv = f.mtv; r.local = f.local; r.ed = f.ed ? f.ed : 1 + (int)draw(2, "ed"); r.mt = f.mt;
    if (chance(1, 3, "ce")) r.ce = draw(3, "ce") * 49;
    if (chance(1, 3, "sc")) r.sc = draw(3, "sc");
    if (chance(1, 8, "far")) r.sc += r.sc >= 256 ? -256 : 256;
    if (chance(1, 8, "far")) r.ce += r.ce >= 256 ? -256 : 256;
    if (chance(1, 3, "mtv")) r.mtv = draw(34, "mtv");
    if (chance(1, 3, "local")) r.local = draw(5, "local");
    if (chance(1, 12, "mt")) r.mt = draw(12, "mt");
    if (crex && chance(1, 3, "mtvb")) r.mtvb = draw(20, "mtvb");
    return r;
}

std::string str(const Want& w)
{
    char b[128];
    if (w.crex) snprintf(b, 128, "CREX edition %d centre %d.%d master table %d version %d BUFR version %d local %d", w.ed, w.ce, w.sc, w.mt, w.mtv, w.mtvb, w.local);
    else snprintf(b, 128, "BUFR centre %d.%d master table %d version %d local %d", w.ce, w.sc, w.mt, w.mtv, w.local);
    return b;
}

// ---------------------------------------------------------------- contents model

Varcode bc(unsigned xy) { return (xy / 1000) << 8 | (xy % 1000); }
Varcode fc(unsigned fxy) { return (fxy / 100000) << 14 | bc(fxy % 100000); }
Varcode dc(unsigned xy) { return 0xc000 | bc(xy); }

unsigned digits(unsigned bits) { return bits == 1 ? 1 : (unsigned)ceil(bits * log10(2.0)); }
std::string norm_unit(const std::string& u)
{
    if (u.compare(0, 10, "CODE TABLE") == 0 || u.compare(0, 9, "CODETABLE") == 0) return "CODE TABLE";
    if (u.compare(0, 10, "FLAG TABLE") == 0 || u.compare(0, 9, "FLAGTABLE") == 0) return "FLAG TABLE";
    return u;
}

std::string check_info(Varinfo i, const Row& r, bool crex)
{
    char b[256];
    if (!i) return "no information";
    bool str = crex ? r.cunit == "CHARACTER" : r.unit == "CCITTIA5";
    int scale = crex ? r.cscale : r.scale;
    unsigned bits = crex ? 0 : r.bits, len = crex ? r.clen : str ? r.bits / 8 : digits(r.bits);
    int ref = crex ? 0 : r.ref;
    Vartype t = str ? Vartype::String : scale ? Vartype::Decimal : Vartype::Integer;
    std::string unit = norm_unit(crex ? r.cunit : r.unit);
    std::string desc(i->desc, strnlen(i->desc, sizeof i->desc + sizeof i->unit));
    if (i->code != bc(r.code)) { snprintf(b, 256, "code is %d%02d%03d", WR_VAR_FXY(i->code)); return b; }
    // at most the last of the 64 characters may be missing
    std::string shorter = r.desc.substr(0, 63);
    while (!shorter.empty() && shorter.back() == ' ') shorter.pop_back();
    if (desc != r.desc && desc != shorter) return "description is \"" + desc + "\" instead of \"" + r.desc + "\"";
    if (unit != i->unit) return std::string("unit is \"") + i->unit + "\" instead of \"" + unit + "\"";
    if (i->scale != scale || i->bit_len != bits || i->bit_ref != ref || i->len != len || i->type != t)
    {
        snprintf(b, 256, "scale %d bits %u reference %d length %u type %d instead of %d %u %d %u %d", i->scale, i->bit_len, i->bit_ref, i->len, (int)i->type, scale, bits, ref, len, (int)t);
        return b;
    }
    // the values it can hold: what its bits or digits leave, without the missing value
    if (t != Vartype::String)
    {
        int64_t lo = INT_MIN, hi = INT_MAX;
        if (len < 10)
        {
            int64_t p = 1;
            for (unsigned k = 0; k < len; ++k) p *= 10;
            lo = -(p - 1); hi = p - 2;
            if (bits)
            {
                int64_t top = (int64_t(1) << bits) + ref - (r.code / 1000 == 31 ? 0 : 2);
                lo = std::max(lo, (int64_t)ref); hi = std::min(hi, top);
            }
        }
        double dlo = lo * pow(10, -scale), dhi = hi * pow(10, -scale);
        if (i->imin != lo || i->imax != hi || !(fabs(i->dmin - dlo) <= fabs(dlo) * 1e-9) || !(fabs(i->dmax - dhi) <= fabs(dhi) * 1e-9))
        {
            snprintf(b, 256, "values from %d (%g) to %d (%g) instead of %lld (%g) to %lld (%g)", i->imin, i->dmin, i->imax, i->dmax, (long long)lo, dlo, (long long)hi, dhi);
            return b;
        }
    }
    return "";
}

// Compare everything a table says with the file it comes from
std::string check_b(const Vartable* t, const File& f, bool crex)
{
    if (!t) return "no table";
    std::string path;
    std::string res;
    std::vector<Varinfo> listed;
    unsigned stop = draw(3, "stop");
    Out o = call([&] {
        { std::string p = t->path().string(); Host h; path = p; }
        unsigned n = 0;
        bool end = t->iterate([&](Varinfo i) { Host h; listed.push_back(i); ++n; return true; });
        unsigned k = 0;
        bool end2 = stop ? t->iterate([&](Varinfo) { return ++k < stop; }) : false;
        Host h;
        if (!end) res = "going through all of it is said to have stopped early";
        if (stop && (end2 || k != stop) && stop <= n) res = "going through it does not stop when told to: " + std::to_string(k) + " entries instead of " + std::to_string(stop);
        unsigned want = 0;
        for (auto& r: f.rows) if (!crex || r.crex) ++want;
        if (n < want) res = "it has " + std::to_string(n) + " entries instead of " + std::to_string(want);
    });
    if (!o.ok()) return "reading it failed: " + o.str();
    if (path != f.b_path) return "it comes from " + path;
    if (!res.empty()) return res;
    for (auto& r: f.rows)
    {
        Varinfo i = nullptr;
        bool has = false;
        o = call([&] { has = t->contains(bc(r.code)); i = t->query(bc(r.code)); });
        if (crex && !r.crex)
        {
            if (o.ok() || has) return "an entry without CREX columns is present";
            continue;
        }
        if (!o.ok() || !has) return "entry " + std::to_string(r.code) + " is missing: " + o.str();
        std::string d = check_info(i, r, crex);
        if (!d.empty()) return "entry " + std::to_string(r.code) + ": " + d;
        if (std::count(listed.begin(), listed.end(), i) != 1) return "entry " + std::to_string(r.code) + " is listed " + std::to_string(std::count(listed.begin(), listed.end(), i)) + " times";
    }
    // what is not in the file is not in the table
    unsigned no = 50000 + draw(60, "absent");
    bool has = true;
    o = call([&] { has = t->contains(bc(no)); t->query(bc(no)); });
    if (has || o.kind != Kind::Error || o.code != WR_ERR_NOTFOUND) return "an entry that is not in the file is found: " + o.str();
    return "";
}

// every way of going through a list of descriptors gives the same
std::string walk_ops(const Opcodes& ops, const std::vector<unsigned>& all, unsigned from, unsigned len)
{
    auto list = [](Opcodes o) { std::vector<unsigned> r; while (!o.empty()) { r.push_back(o.head()); o = o.next(); } if (o.head()) r.push_back(o.head()); return r; };
    auto part = [&](size_t a, size_t b) { a = std::min(a, all.size()); b = std::min(b, all.size()); return std::vector<unsigned>(all.begin() + a, all.begin() + b); };
    if (from > all.size()) return "";
    if (list(ops) != all) return "going through it one by one gives other items";
    if (ops[all.size()] || ops[all.size() + 1]) return "there is an item after the last";
    if (list(ops.sub(from)) != part(from, all.size())) return "what follows an item differs";
    if (list(ops.sub(from, len)) != part(from, from + len)) return "a part of it differs";
    if (!ops.sub(all.size() + 1).empty() || !ops.sub(all.size() + 1, 1).empty()) return "there is something after the last item";
    Opcodes rest(ops);
    if (len <= all.size())
    {
        Opcodes first = rest.pop_left(len);
        if (list(first) != part(0, len) || list(rest) != part(len, all.size())) return "taking items off it gives others";
        if (len < all.size() && rest.pop_left() != all[len]) return "taking one item off it gives another";
    }
    else
        try { rest.pop_left(len); return "more items than there are can be taken off"; } catch (wreport::error&) {}
    Opcodes none(ops.end, ops.end);
    try { none.pop_left(); return "an item can be taken off an empty list"; } catch (wreport::error&) {}
    return "";
}

std::string check_d(const DTable* t, const File& f)
{
    if (!t) return "no table";
    std::string path;
    Out o = call([&] { std::string p = t->path().string(); Host h; path = p; });
    if (path != f.d_path) return "it comes from " + path;
    for (auto& s: f.seqs)
    {
        std::vector<unsigned> got;
        std::string walked;
        unsigned n = s.second.size(), from = draw(n + 1, "from"), len = draw(n + 2, "len");
        o = call([&] { Opcodes ops = t->query(dc(s.first)); Host h; for (unsigned i = 0; i < ops.size(); ++i) got.push_back(ops[i]); walked = walk_ops(ops, got, from, len); });
        if (!walked.empty()) return "sequence " + std::to_string(s.first) + ": " + walked;
        if (!o.ok()) return "sequence " + std::to_string(s.first) + " is missing: " + o.str();
        std::vector<unsigned> want;
        for (unsigned c: s.second) want.push_back(fc(c));
        if (got != want) return "sequence " + std::to_string(s.first) + " has other contents (" + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + " items)";
    }
    o = call([&] { t->query(dc(63255 - 255 + draw(60, "absent"))); });
    if (o.kind != Kind::Error || o.code != WR_ERR_NOTFOUND) return "a sequence that is not in the file is found: " + o.str();
    return "";
}

// ---------------------------------------------------------------- faults

struct Fault
{
    int left = -1;           // fail the n-th file system call from now
    std::string sticky_path; // or every read/open on this file
    std::string sticky_call;
    unsigned skip = 0;       // ... from the n-th such call on
    int err = EIO;
    bool fired = false;
} flt;

bool allocfault;

void arm(const World& w)
{
    static const int errs[] = {EIO, EMFILE, ENOMEM, EACCES, EINTR, ENFILE};
    flt = Fault();
    allocfault = false;
    switch (draw(4, "fault"))
    {
        case 0: flt.left = 1 + skewed(60, "fault-at"); flt.err = errs[draw(6, "errno")]; break;
        case 1:
        {
            const File& f = pick(w.files, "fault-file");
            flt.sticky_path = chance(1, 2, "d") ? f.d_path : f.b_path;
            flt.sticky_call = chance(1, 2, "open") ? "open" : "read";
            if (flt.sticky_call == "read") flt.skip = draw(4, "skip");
            flt.err = flt.sticky_call == "open" ? errs[draw(6, "errno")] : EIO;
            break;
        }
        case 2:
            flt.sticky_path = pick(w.dirs, "fault-dir");
            flt.sticky_call = pick(std::vector<std::string>{"readdir", "fdopendir", "open", "stat", "fstat"}, "call");
            flt.skip = draw(8, "skip");
            flt.err = errs[draw(6, "errno")];
            break;
        case 3: alloc::fail_at(1 + skewed(400, "alloc"), chance(1, 4, "sticky")); allocfault = true; break;
    }
}

bool disarm()
{
    bool f = flt.fired || (allocfault && alloc::fired());
    if (allocfault && alloc::fired()) fault("fault.allocation");
    alloc::disarm();
    allocfault = false;
    flt = Fault();
    return f;
}

int on_call(const char* call, const std::string& path)
{
    if (flt.left > 0 && --flt.left == 0) { flt.fired = true; fault("fault.io_error"); return flt.err; }
    if (!flt.sticky_path.empty() && flt.sticky_call == call && (path == flt.sticky_path || path == flt.sticky_path + "/."))
    {
        if (flt.skip) { --flt.skip; return 0; }
        flt.fired = true; fault("fault.io_error_persistent"); return flt.err; }
    return 0;
}

void setup_policy()
{
    vfs::policy.fail = on_call;
    if (chance(1, 2, "short-reads"))
        vfs::policy.shorten = [](const char* c, const std::string&, size_t asked) -> size_t { return 1 + draw(asked > 300 ? 300 : asked, "read-size"); };
}

void check_fds(const char* what)
{
    if (vfs::open_fds()) violation("descriptor-leak", "after %s descriptors remain open:%s", what, vfs::describe_fds().c_str());
    if (vfs::bad_closes()) violation("bad-close", "after %s a descriptor was closed twice", what);
}

// ---------------------------------------------------------------- P12

// what a Tables object holds, as file names
std::pair<const Vartable*, const DTable*> held(const Tables& t) { return {t.btable, t.dtable}; }

// The tables that come with the library, read here by their columns
std::map<std::string, std::string> shipped;

void prepare_p12()
{
    gen::prepare_tables();
    for (auto& n: vfs::list("/sim/tables")) shipped[n] = vfs::get("/sim/tables/" + n);
    vfs::reset();
}

std::string column(const std::string& l, size_t from, size_t to)
{
    if (from >= l.size()) return "";
    std::string r = l.substr(from, to - from);
    while (!r.empty() && isspace((unsigned char)r.back())) r.pop_back();
    return r;
}

int number(const std::string& t)
{
    std::string d;
    for (char c: t) if (c != ' ') d += c;
    return atoi(d.c_str());
}

void run_shipped()
{
    World w;
    w.dirs.push_back("/sim/tables");
    std::vector<std::string> names;
    for (auto& x: shipped) if (x.first[0] == 'B' && shipped.count("D" + x.first.substr(1))) names.push_back(x.first);
    if (names.size() < 10) violation("harness", "only %zu tables", names.size());
    unsigned n = 1 + draw(3, "tables");
    for (unsigned k = 0; k < n; ++k)
    {
        File f;
        std::string name = pick(names, "table");
        f.base = name.substr(0, name.size() - 4);
        bool crex = name.size() == 11;
        f.kind = crex ? File::CREX_ : File::BUFR_LONG; f.dir = 0;
        f.b_path = "/sim/tables/" + name; f.d_path = "/sim/tables/D" + name.substr(1);
        vfs::put(f.b_path, shipped[name]); vfs::put(f.d_path, shipped["D" + name.substr(1)]);
        std::istringstream b(shipped[name]), d(shipped["D" + name.substr(1)]);
        std::string l;
        while (std::getline(b, l))
        {
            Row r;
            r.code = number(l.substr(2, 5));
            r.desc = column(l, 8, 72); r.unit = column(l, 73, 96); r.scale = number(l.substr(98, 4)); r.ref = number(l.substr(102, 13)); r.bits = number(l.substr(115, 4));
            r.crex = l.size() + 1 >= 157;
            if (r.crex) { r.cunit = column(l, 119, 142); r.cscale = number(l.substr(143, 6)); r.clen = number(l.substr(149)); }
            f.rows.push_back(r);
        }
        unsigned cur = 0;
        while (std::getline(d, l))
        {
            if (l[1] != ' ') { cur = number(l.substr(2, 5)); f.seqs[cur].clear(); }
            // the item is the last but for a remark; counts can be three digits wide
            std::istringstream ws(l[1] != ' ' ? l.substr(7) : "0 " + l);
            std::string count, item;
            ws >> count >> item;
            if (!isdigit((unsigned char)item[0])) item[0] = "0123"[strchr("BRCD", item[0]) - "BRCD"];
            f.seqs[cur].push_back(number(item.substr(0, 6)));
        }
        w.files.push_back(f);
    }
    setup_policy();
    for (auto& f: w.files)
    {
        const Vartable* b = nullptr; const DTable* d = nullptr;
        bool crex = f.kind == File::CREX_;
        auto load = [&] {
            if (crex) { b = Vartable::load_crex(f.b_path.c_str()); d = DTable::load_crex(f.d_path); }
            else { b = Vartable::load_bufr(f.b_path.c_str()); d = DTable::load_bufr(f.d_path); }
        };
        if (chance(1, 2, "faulty"))
        {
            arm(w);
            Out o = call(load);
            bool fired = disarm();
            if (!o.ok() && !fired) violation("refused", "%s: %s", f.b_path.c_str(), o.str().c_str());
            check_fds("loading a table");
        }
        Out o = call(load);
        if (!o.ok()) violation("refused", "%s: %s", f.b_path.c_str(), o.str().c_str());
        std::string e = check_b(b, f, crex);
        if (!e.empty()) violation("wrong-table", "%s: %s", f.b_path.c_str(), e.c_str());
        e = check_d(d, f);
        if (!e.empty()) violation("wrong-table", "%s: %s", f.d_path.c_str(), e.c_str());
        ev("%s", f.base.c_str());
        hash_bytes(f.base.data(), f.base.size());
        count("probe.installed_table");
    }
    check_fds("loading tables");
    nontrivial();
}

void run_p12()
{
    if (chance(1, 10, "installed")) return run_shipped();
    World w = draw_world(false, 5, true);
    setup_policy();
    if (w.files.empty()) return;
    std::map<std::string, const Vartable*> seen_b;
    std::map<std::string, const DTable*> seen_d;
    struct Pinned { Varinfo info; Row row; bool crex; };
    std::vector<Pinned> pinned;
    struct Altered { const Vartable* t; unsigned code; int scale; unsigned bits; int ref; Varinfo info; };
    std::vector<Altered> altered;

    auto t = sut([] { return new Tables; });
    // entries made up for the message at hand: bitmaps, character data, unknown local elements
    struct Made { unsigned kind; Varcode code; unsigned len; std::string bitmap; Varinfo info; };
    std::vector<Made> made;
    auto ask = [&](const Made& m) { return m.kind == 0 ? t->get_bitmap(m.code, m.bitmap) : m.kind == 1 ? t->get_chardata(m.code, m.len) : t->get_unknown(m.code, m.len); };
    auto check_made = [&](const Made& m) {
        Varinfo i = m.info;
        unsigned bits = m.kind == 0 ? 8 * m.bitmap.size() : m.kind == 1 ? 8 * m.len : m.len;
        if (i->code != m.code || i->bit_len != bits || i->type != (m.kind == 2 ? Vartype::Binary : Vartype::String) || i->len != (bits + 7) / 8)
            violation("changed-under-use", "an entry made for %01d%02d%03d with %u bits has code %01d%02d%03d and %u bits", WR_VAR_FXY(m.code), bits, WR_VAR_FXY(i->code), i->bit_len);
    };
    auto make_entry = [&] {
        Made m;
        m.kind = draw(3, "made");
        switch (m.kind)
        {
            case 0: { static const Varcode c[] = {WR_VAR(2, 22, 0), WR_VAR(2, 23, 0), WR_VAR(2, 24, 0), WR_VAR(2, 25, 0)}; m.code = c[draw(4, "operator")]; m.len = 0; for (unsigned l = 1 + draw(6, "bitmap-len"); l; --l) m.bitmap += "+-"[draw(2, "bit")]; break; }
            case 1: { static const unsigned char l[] = {1, 2, 3, 4, 127, 128, 129, 255}; m.len = l[draw(8, "chars")]; m.code = WR_VAR(2, 5, 0) + m.len; break; }
            default: m.len = 1 + draw(40, "width"); m.code = WR_VAR(0, 48, 192) + draw(4, "local"); break;
        }
        bool starve = chance(1, 4, "starve-made");
        if (starve) { alloc::fail_at(1 + draw(4, "alloc"), false); allocfault = true; }
        Varinfo vi = nullptr;
        Out o = call([&] { vi = ask(m); });
        bool fired = disarm();
        if (!o.ok() && !fired) violation("refused", "an entry for %01d%02d%03d is refused: %s", WR_VAR_FXY(m.code), o.str().c_str());
        if (!o.ok()) { o = call([&] { vi = ask(m); }); if (!o.ok()) violation("refused", "an entry for %01d%02d%03d is refused after memory ran out once: %s", WR_VAR_FXY(m.code), o.str().c_str()); }
        m.info = vi;
        made.push_back(m);
        count("probe.made");
    };
    const File* cur = nullptr;
    bool cur_crex = false;

    unsigned n = 3 + draw(10, "ops");
    for (unsigned i = 0; i <= n; ++i)
    {
        bool last = i == n;
        // a broken installation gets repaired
        if (last || chance(1, 6, "repair"))
            for (auto& f: w.files)
                if (f.bad_b || f.bad_d || f.no_d)
                {
                    f.bad_b = f.bad_d = f.no_d = false;
                    write_file(w, f);
                    ev("repaired %s", f.base.c_str());
                    count("probe.repaired");
                }
        std::vector<const File*> todo;
        if (last) for (auto& f: w.files) todo.push_back(&f);
        else todo.push_back(&pick(w.files, "file"));
        for (const File* f: todo)
        {
            bool crex = f->kind == File::CREX_ || chance(1, 4, "as-crex");
            unsigned what = draw(4, "load");
            // through the identifiers of a message
            Want want = Want{crex, f->ce, f->sc, f->mt, f->mtv, f->local, f->ed ? f->ed : 1, crex && f->kind != File::CREX_ ? std::max(1, f->mtv) : 0};
            if (what == 3)
            {
                auto sel = best(w, want);
                if (f->kind == File::RAW || sel.size() != 1) what = 0; else f = sel[0];
            }
            bool faulty = !last && chance(1, 2, "faulty");
            unsigned repeat = faulty && chance(1, 3, "again") ? 3 : 1;
            int64_t before = 0;
            uint64_t before_seq = 0;
            bool prev_failed = false;
            if (faulty) arm(w);
            Fault saved = flt;
            if (!saved.sticky_path.empty() && repeat > 1) alloc::record_sites(true); else repeat = 1;
            for (unsigned k = 0; k < repeat; ++k)
            {
                const Vartable* b = nullptr;
                const DTable* d = nullptr;
                auto old = held(*t);
                Out o;
                before = alloc::live_objs();
                before_seq = alloc::seq();
                switch (what)
                {
                    case 0: o = call([&] { b = crex ? Vartable::load_crex(f->b_path.c_str()) : Vartable::load_bufr(f->b_path.c_str()); }); break;
                    case 1: o = call([&] { d = crex ? DTable::load_crex(f->d_path) : DTable::load_bufr(f->d_path); }); break;
                    case 2: o = call([&] { b = crex ? Vartable::get_crex(f->base) : Vartable::get_bufr(f->base); }); break;
                    case 3:
                    {
                        o = call([&] {
                            if (crex) t->load_crex(CrexTableID(want.ed, want.ce, want.sc, want.mt, want.mtv, want.mtvb, want.local));
                            else t->load_bufr(BufrTableID(want.ce, want.sc, want.mt, want.mtv, want.local));
                        });
                        b = t->btable; d = t->dtable;
                        break;
                    }
                }
                int64_t after = alloc::live_objs();
                bool fired = disarm();
                ev("op %u %s%s%s: %s%s", what, f->base.c_str(), crex ? " as CREX" : "", k ? " again" : "", o.str().substr(0, 150).c_str(), fired ? " (fault)" : "");
                phase("op %u on %s", what, f->base.c_str());
                check_fds("loading a table");
                // find by name takes the first directory that has it
                const File* g = f;
                if (what == 2) for (auto& x: w.files) if (x.base == f->base && x.dir < g->dir) g = &x;
                bool expect_bad = (what != 1 && g->bad_b) || ((what == 1 || what == 3) && (g->bad_d || g->no_d));
                // once loaded, tables stay as they were loaded
                if (o.ok())
                {
                    count("probe.loaded");
                    nontrivial();
                    if (what != 1)
                    {
                        std::string key = g->b_path + (crex ? " crex" : "");
                        if (seen_b.count(key) && seen_b[key] != b) violation("two-copies", "loading %s twice gives two different tables", key.c_str());
                        if (!b) violation("no-table", "loading %s gives no table and no error", key.c_str());
                        if (g->bad_b && !seen_b.count(key)) violation("bad-accepted", "a malformed table %s is accepted", key.c_str());
                        std::string e = check_b(b, *g, crex);
                        if (!e.empty()) violation("wrong-contents", "table %s is not what the file says: %s", key.c_str(), e.c_str());
                        seen_b[key] = b;
                        if (chance(1, 2, "pin"))
                        {
                            const Row& r = pick(g->rows, "row");
                            if (!crex || r.crex) { Varinfo vi = nullptr; call([&] { vi = b->query(bc(r.code)); }); pinned.push_back(Pinned{vi, r, crex}); }
                        }
                    }
                    if (what == 1 || what == 3)
                    {
                        std::string key = g->d_path + (crex ? " crex" : "");
                        if (seen_d.count(key) && seen_d[key] != d) violation("two-copies", "loading %s twice gives two different tables", key.c_str());
                        if (!d) violation("no-table", "loading %s gives no table and no error", key.c_str());
                        if ((g->bad_d || g->no_d) && !seen_d.count(key)) violation("bad-accepted", "a malformed table %s is accepted", key.c_str());
                        std::string e = check_d(d, *g);
                        if (!e.empty()) violation("wrong-contents", "table %s is not what the file says: %s", key.c_str(), e.c_str());
                        seen_d[key] = d;
                    }
                    if (what == 3) { cur = g; cur_crex = crex; }
                    prev_failed = false;
                }
                else
                {
                    if (!fired && !expect_bad) violation("refused", "a good table %s cannot be loaded%s: %s", g->base.c_str(), last ? " after faults stopped" : "", o.str().c_str());
                    count(fired ? "probe.failed_by_fault" : "probe.malformed_refused");
                    if (what == 3)
                    {
                        // never half of one table and half of another
                        if (held(*t) != old && (t->btable || t->dtable))
                            violation("mixed-tables", "after a failed load of %s a set of tables that was %s has element table %s and sequence table %s", g->base.c_str(), cur ? cur->base.c_str() : "empty",
                                t->btable == old.first ? "as before" : t->btable ? "new" : "none", t->dtable == old.second ? "as before" : t->dtable ? "new" : "none");
                    }
                    if (k > 0 && prev_failed && fired && after > before)
                        violation("leak", "each failed load of %s leaves %lld objects behind %s", g->base.c_str(), (long long)(after - before), alloc::describe_live_since(before_seq).c_str());
                    if (k > 0 && prev_failed) count("probe.failed_again");
                    prev_failed = true;
                }
                if (k + 1 < repeat) { flt = saved; }
            }
            alloc::record_sites(false);
            disarm();
            // altered entries do not disturb the original ones
            if (!seen_b.empty() && chance(1, 2, "alter"))
            {
                const Row& r = pick(f->rows, "row");
                auto it = seen_b.find(f->b_path);
                if (it != seen_b.end() && r.unit != "CCITTIA5" && norm_unit(r.unit) == r.unit)
                {
                    int ns = (int)draw(9, "scale") - 3; unsigned nb = 1 + draw(30, "bits"); int nr = -(int)draw(1000, "ref");
                    Varinfo vi = nullptr;
                    if (chance(1, 4, "starve")) { alloc::fail_at(1 + draw(3, "alloc"), false); allocfault = true; }
                    Out o = call([&] { vi = it->second->query_altered(bc(r.code), ns, nb, nr); });
                    bool fired = disarm();
                    if (!o.ok() && !fired) violation("alteration-refused", "an alteration of %u in %s is refused: %s", r.code, f->base.c_str(), o.str().c_str());
                    if (o.ok())
                    {
                        count("probe.altered");
                        if (vi->scale != ns || vi->bit_len != nb || vi->bit_ref != nr || vi->code != bc(r.code) || vi->type != (ns ? Vartype::Decimal : Vartype::Integer))
                            violation("wrong-alteration", "an altered entry %u has scale %d bits %u reference %d instead of %d %u %d", r.code, vi->scale, vi->bit_len, vi->bit_ref, ns, nb, nr);
                        altered.push_back(Altered{it->second, r.code, ns, nb, nr, vi});
                    }
                }
            }
            if (!altered.empty())
            {
                // asked again, the same entry is given, and nothing is added
                int64_t had = alloc::live_objs();
                for (auto& a: altered)
                {
                    Varinfo vi = nullptr;
                    Out o = call([&] { vi = a.t->query_altered(bc(a.code), a.scale, a.bits, a.ref); });
                    if (!o.ok()) violation("alteration-refused", "an alteration of %u asked for again is refused: %s", a.code, o.str().c_str());
                    if (vi != a.info) violation("two-copies", "the same alteration of %u gives different entries", a.code);
                    if (vi->scale != a.scale || vi->bit_len != a.bits || vi->bit_ref != a.ref) violation("changed-under-use", "an altered entry of %u has changed", a.code);
                }
                if (alloc::live_objs() != had) violation("leak", "asking for known alterations again leaves %lld objects behind", (long long)(alloc::live_objs() - had));
            }
            if (chance(1, 2, "make")) make_entry();
            if (!made.empty() && chance(1, 4, "hand-over"))
            {
                // the set of tables goes to another owner
                bool assign = chance(1, 2, "assign");
                Out o = call([&] {
                    std::unique_ptr<Tables> n(assign ? new Tables : new Tables(std::move(*t)));
                    if (assign) { n->get_bitmap(WR_VAR(2, 22, 0), "+"); n->get_chardata(WR_VAR(2, 5, 9), 9); n->get_unknown(WR_VAR(0, 63, 255), 7); *n = std::move(*t); }
                    delete t;
                    t = n.release();
                });
                if (!o.ok()) violation("refused", "handing over a set of tables: %s", o.str().c_str());
                count("probe.handed_over");
            }
            for (auto& m: made)
            {
                check_made(m);
                Varinfo vi = nullptr;
                Out o = call([&] { vi = ask(m); });
                if (!o.ok() || vi != m.info) violation("two-copies", "an entry for %01d%02d%03d asked for again: %s, %s", WR_VAR_FXY(m.code), o.str().c_str(), vi == m.info ? "same" : "another one");
            }
            for (auto& p: pinned)
            {
                std::string e = check_info(p.info, p.row, p.crex);
                if (!e.empty()) violation("changed-under-use", "an entry handed out earlier has changed: %s", e.c_str());
            }
        }
    }
    // entries with other parameters are part of the table they were made in
    for (auto& a: altered)
    {
        unsigned n = 0;
        Out o = call([&] { a.t->iterate([&](Varinfo i) { n += i == a.info; return true; }); });
        if (!o.ok() || n != 1) violation("not-listed", "an entry for %05u with scale %d, %u bits and reference %d that was handed out is listed %u times in its table (%s)", a.code, a.scale, a.bits, a.ref, n, o.str().c_str());
    }
    // the set of tables still is the last one that was loaded
    if (cur)
    {
        std::string e = check_b(t->btable, *cur, cur_crex);
        if (e.empty()) e = check_d(t->dtable, *cur);
        if (!e.empty()) violation("set-damaged", "a loaded set of tables is damaged: %s", e.c_str());
        count("probe.set_checked");
    }
    sut([&] { delete t; });
}

// ---------------------------------------------------------------- P13

std::string header_bufr(const Want& w, bool ed4)
{
    std::string s = "BUFR";
    s += std::string("\0\0\0", 3);
    s += ed4 ? '\4' : '\3';
    if (ed4)
    {
        std::string t(22, '\0');
        t[2] = 22; t[3] = w.mt; t[4] = w.ce >> 8; t[5] = w.ce; t[6] = w.sc >> 8; t[7] = w.sc; t[13] = w.mtv; t[14] = w.local; t[15] = 7; t[16] = (char)0xe4; t[17] = t[18] = 1;
        s += t;
    } else {
        std::string t(18, '\0');
        t[2] = 18; t[3] = w.mt; t[4] = w.sc; t[5] = w.ce; t[10] = w.mtv; t[11] = w.local; t[12] = 20; t[13] = t[14] = 1;
        s += t;
    }
    s += std::string("\0\0\x0a\0\0\1\0\1\1\0", 10);
    s += std::string("\0\0\6\0\0\0", 6);
    s += "7777";
    s[6] = s.size();
    return s;
}

std::string header_crex(const Want& w)
{
    char b[128];
    snprintf(b, 128, "CREX++\r\r\nT%02d%02d%02d A000 B01001++\r\r\n01++\r\r\n7777", w.mt, w.ed, w.mtv);
    return b;
}

void run_p13()
{
    World w = draw_world(true, 14, false);
    setup_policy();
    if (w.files.empty()) return;
    unsigned n = 4 + draw(16, "queries");
    std::map<std::string, std::string> answers;
    // more directories, in use from then on
    std::set<std::string> names;
    unsigned more = chance(1, 2, "more-dirs") ? 0 : 1 + draw(6, "more-dirs");
    auto more_dirs = [&] {
        std::string d = "/sim/d" + std::to_string(w.dirs.size());
        bool again = chance(1, 4, "again");
        if (again) d = pick(w.dirs, "again");
        else
        {
            vfs::mkdirs(d);
            w.dirs.push_back(d);
            for (unsigned i = draw(4, "files"); i; --i) draw_file(w, w.dirs.size() - 1, names, true, false);
            --more;
            answers.clear();
        }
        std::string arg = d + (chance(1, 4, "slash") ? "/" : "");
        ev("directory added: %s", arg.c_str());
        Out o = call([&] { tabledir::Tabledirs::get().add_directory(arg); });
        if (!o.ok()) violation("directory-refused", "%s: %s", arg.c_str(), o.str().c_str());
        count("probe.directory_added");
    };
    for (unsigned i = 0; i < n; ++i)
    {
        while (more && chance(1, 3, "add-dir")) more_dirs();
        bool crex = chance(1, 3, "crex");
        Want want = draw_want(w, crex);
        bool faulty = chance(1, 3, "faulty");
        unsigned how = draw(4, "how");
        if (crex && how > 1)
        {
            // CREX messages say little
            auto b = sut([] { return CrexBulletin::create(); });
            want.ce = b->originating_centre; want.sc = b->originating_subcentre; want.local = b->master_table_version_number_local; want.mtvb = 0;
            Sut u; b.reset();
        }
        if (faulty) arm(w);
        std::string got;
        Out o = call([&] {
            std::string p;
            auto bid = BufrTableID(want.ce, want.sc, want.mt, want.mtv, want.local);
            auto cid = CrexTableID(want.ed, want.ce, want.sc, want.mt, want.mtv, want.mtvb, want.local);
            switch (how)
            {
                case 0: { Tables t; if (crex) t.load_crex(cid); else t.load_bufr(bid); p = t.btable->path().string(); std::string d = t.dtable->path().string(); if (p.substr(p.rfind('/') + 2) != d.substr(d.rfind('/') + 2) || p.substr(0, p.rfind('/')) != d.substr(0, d.rfind('/'))) p += " with " + d; break; }
                case 1: p = (crex ? Vartable::get_crex(cid) : Vartable::get_bufr(bid))->path().string(); break;
                default:
                {
                    if (crex)
                    {
                        std::string m;
                        { Host h; m = header_crex(want); }
                        auto b = CrexBulletin::decode_header(m);
                        p = b->tables.btable->path().string();
                        break;
                    }
                    bool ed4 = how == 2 || want.ce > 254 || want.sc > 254;
                    std::string m;
                    { Host h; m = header_bufr(want, ed4); }
                    auto b = BufrBulletin::decode_header(m);
                    p = b->tables.btable->path().string();
                    break;
                }
            }
            Host h; got = p;
        });
        bool fired = disarm();
        std::string q = str(want);
        ev("%s (%u): %s %s%s", q.c_str(), how, o.str().substr(0, 100).c_str(), got.c_str(), fired ? " (fault)" : "");
        phase("query %s", q.c_str());
        check_fds("looking for a table");
        auto sel = best(w, want);
        if (!o.ok())
        {
            if (fired) { count("probe.failed_by_fault"); continue; }
            if (!sel.empty()) violation("not-found", "no table is found for %s, but %s is there: %s", q.c_str(), sel[0]->b_path.c_str(), o.str().c_str());
            if (o.kind != Kind::Error || o.code != WR_ERR_NOTFOUND) violation("wrong-error", "a request for %s that cannot be satisfied gives %s", q.c_str(), o.str().c_str());
            count("probe.none_suitable");
            nontrivial();
            continue;
        }
        if (sel.empty()) violation("unsuitable", "table %s is used for %s", got.c_str(), q.c_str());
        bool ok = false;
        for (auto* f: sel) if (f->b_path == got) ok = true;
        if (!ok) violation("not-the-best", "table %s is used for %s, but %s is a better match", got.c_str(), q.c_str(), sel[0]->b_path.c_str());
        std::string key = q;
        if (answers.count(key) && answers[key] != got) violation("inconsistent", "%s is answered with %s, earlier with %s", q.c_str(), got.c_str(), answers[key].c_str());
        answers[key] = got;
        count("probe.selected");
        count(sel.size() > 1 ? "probe.tie" : "probe.unique_best");
        if (got.find("/" + sel[0]->base) != std::string::npos && sel[0]->mtv != want.mtv) count("probe.newer_used");
        nontrivial();
    }
    // by name
    for (unsigned i = 0; i < 3; ++i)
    {
        const File& f = pick(w.files, "by-name");
        const File* g = &f;
        for (auto& x: w.files) if (x.base == f.base && x.dir < g->dir) g = &x;
        std::string got;
        Out o = call([&] { std::string p = Vartable::get_bufr(f.base)->path().string(); Host h; got = p; });
        if (!o.ok()) violation("not-found", "table %s cannot be found by name: %s", f.base.c_str(), o.str().c_str());
        if (got != g->b_path) violation("not-the-best", "by name %s gives %s instead of %s", f.base.c_str(), got.c_str(), g->b_path.c_str());
        count("probe.by_name");
    }
    // names that do not exist
    for (unsigned i = 0; i < 3; ++i)
    {
        std::string name = i == 0 ? "B9999999999999999999" : pick(w.files, "like").base;
        if (i)
            switch (draw(5, "unlike"))
            {
                case 0: name.resize(draw(name.size(), "cut")); break;
                case 1: name += "0"; break;
                case 2: name = name.substr(1); break;
                case 3: name += ".txt"; break;
                default: name[draw(name.size(), "at")] ^= 32; break;
            }
        bool there = false;
        for (auto& f: w.files) if (f.base == name) there = true;
        if (there) continue;
        bool d = chance(1, 3, "as-crex");
        Out o = call([&] { if (d) Vartable::get_crex(name); else Vartable::get_bufr(name); });
        if (o.kind != Kind::Error || o.code != WR_ERR_NOTFOUND) violation("wrong-error", "a name that does not exist, '%s', gives %s", name.c_str(), o.str().c_str());
    }
    // what is there, and how it is chosen
    auto id_of = [](const File& f) {
        char b[80];
        if (f.kind == File::RAW) return std::string("(raw data)");
        if (f.kind == File::CREX_) snprintf(b, 80, "CREX(%02d, 00:00, %02d:%02d:00:00)", f.ed, f.mt, f.mtv);
        else snprintf(b, 80, "BUFR(%03d:%02d, 00:%02d:%02d)", f.ce, f.sc, f.mtv, f.local);
        return std::string(b);
    };
    if (chance(1, 2, "list"))
    {
        OutStream s;
        FILE* fp = s.open_seeded();
        Out o = call([&] { tabledir::Tabledirs::get().print(fp); });
        s.close();
        if (!o.ok()) violation("list", "listing the tables: %s", o.str().c_str());
        std::map<std::string, unsigned> lines;
        std::string last;
        size_t dir = 0;
        for (size_t p = 0, q; (q = s.data.find('\n', p)) != std::string::npos; p = q + 1)
        {
            std::string l = s.data.substr(p, q - p);
            while (dir < w.dirs.size() && l.compare(0, w.dirs[dir].size() + 1, w.dirs[dir] + "/") != 0) ++dir;
            if (dir == w.dirs.size()) violation("list", "the list of tables has '%s' in the wrong place or too much", l.c_str());
            ++lines[l];
        }
        for (auto& f: w.files)
        {
            std::string l = w.dirs[f.dir] + "/" + f.base + ":" + id_of(f);
            if (lines[l] != 1) violation("list", "the list of tables has '%s' %u times", l.c_str(), lines[l]);
        }
        count("probe.listed");
    }
    if (chance(1, 2, "explain"))
    {
        bool crex = chance(1, 3, "crex");
        Want want = draw_want(w, crex);
        OutStream s;
        FILE* fp = s.open_seeded();
        Out o = call([&] {
            auto& t = tabledir::Tabledirs::get();
            if (crex) t.explain_find_crex(CrexTableID(want.ed, want.ce, want.sc, want.mt, want.mtv, want.mtvb, want.local), fp);
            else t.explain_find_bufr(BufrTableID(want.ce, want.sc, want.mt, want.mtv, want.local), fp);
        });
        s.close();
        if (!o.ok()) violation("explain", "%s: %s", str(want).c_str(), o.str().c_str());
        auto sel = best(w, want);
        bool ok = false;
        auto ends = [&](const std::string& e) { std::string l = "Result chosen: " + e + "\n"; return s.data.size() >= l.size() && s.data.compare(s.data.size() - l.size(), l.size(), l) == 0; };
        if (sel.empty()) ok = ends("none");
        for (auto* f: sel) if (ends(id_of(*f))) ok = true;
        if (!ok) violation("explain", "%s is explained with '%s', but %s is the best match", str(want).c_str(), printable(s.data.substr(s.data.size() > 100 ? s.data.size() - 100 : 0), 200).c_str(), sel.empty() ? "none" : sel[0]->b_path.c_str());
        count("probe.explained");
    }
}

void prepare() {}

}

SIM_SCENARIO(P12, prepare_p12, run_p12)
SIM_SCENARIO(P13, prepare, run_p13)
