// P20: what is printed about a bulletin, and what comparing bulletins reports.
#include "lib.h"
#include "gen.h"
#include "peer.h"
#include "crexpeer.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/notes.h>
#include <cstdarg>
#include <sstream>

using namespace sim;
using namespace wreport;

namespace {

void prepare()
{
    gen::prepare_tables();
    peer::prepare();
    crexpeer::prepare();
    Sut s;
    Tables t;
    t.load_crex(CrexTableID(1, 0, 0, 0, 3, 0, 0));
    t.load_bufr(BufrTableID(0, 0, 0, 24, 0));
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// One message, of either kind
struct Case
{
    bool crex = false;
    peer::XMsg b;
    crexpeer::CMsg c;
    const std::vector<peer::XSubset>& subsets() const { return crex ? c.subsets : b.subsets; }
    const std::vector<peer::Code>& desc() const { return crex ? c.desc : b.desc; }
    std::string describe() const { return crex ? c.describe() : b.describe(); }
};

std::unique_ptr<Bulletin> make(const Case& k, bool decoded)
{
    std::unique_ptr<Bulletin> res;
    Out o = call([&] {
        if (k.crex)
        {
            if (decoded) res = CrexBulletin::decode(k.c.canon, "wire");
            else { auto r = CrexBulletin::create(); crexpeer::build(*r, k.c); res = std::move(r); }
        } else {
            if (decoded) res = BufrBulletin::decode(k.b.wire, "wire");
            else { auto r = BufrBulletin::create(); peer::build(*r, k.b); res = std::move(r); }
        }
    });
    if (!o.ok()) violation("make-failed", "%s: %s", o.str().c_str(), k.describe().c_str());
    return res;
}

// ------------------------------------------------------------ printed views

std::string text_of(const Var& v)
{
    OutStream s;
    FILE* f = s.open_plain();
    Out o = call([&] { v.print(f); });
    if (!o.ok()) violation("print-failed", "a value: %s", o.str().c_str());
    s.close();
    return s.data;
}

std::string head(const Bulletin& b, const Case& k, bool decoded)
{
    unsigned cat, sub, loc, ce, sc, up, y, mo, d, h, mi, se;
    if (k.crex)
    {
        cat = k.c.category; sub = k.c.subcat; loc = b.data_subcategory_local; ce = b.originating_centre; sc = b.originating_subcentre; up = b.update_sequence_number;
        y = b.rep_year; mo = b.rep_month; d = b.rep_day; h = b.rep_hour; mi = b.rep_minute; se = b.rep_second;
    } else {
        const auto& m = k.b;
        cat = m.category; sub = decoded && m.edition < 4 ? 255 : m.subcat; loc = m.localsubcat; ce = m.centre; sc = m.subcentre; up = m.update;
        y = m.year; mo = m.month; d = m.day; h = m.hour; mi = m.minute; se = m.edition == 4 ? m.second : b.rep_second;
    }
    std::string r = fmt("%s %u:%u:%u %u:%u %04u-%02u-%02u %02u:%02u:%02u %u %zu subsets\n", k.crex ? "CREX" : "BUFR", cat, sub, loc, ce, sc, y, mo, d, h, mi, se, up, k.subsets().size());
    r += " Tables: " + b.tables.btable->path().native() + " " + b.tables.dtable->path().native() + "\n Data descriptors:\n";
    for (auto c: k.desc()) r += fmt("  %u%02u%03u\n", peer::F(c), peer::X(c), peer::Y(c));
    if (k.crex) r += fmt(" CREX details: ed%u t%u:%u:0:%u %c\n", k.c.edition, k.c.master, k.c.version, (unsigned)dynamic_cast<const CrexBulletin&>(b).master_table_version_number_bufr, k.c.check_digit ? 'C' : '-');
    else r += fmt(" BUFR details: ed%u t%u:%u:%u %c osl%zu\n", k.b.edition, k.b.master, k.b.version, k.b.local, decoded && k.b.compressed ? 'c' : '-', k.b.optional.size());
    return r + " Variables:\n";
}

template<typename F> std::string printed(const Bulletin& b, const Case& k, const char* what, const std::string* exact, F&& f)
{
    OutStream s;
    s.yields = true;
    FILE* fp = s.open_seeded();
    Out o = call([&] { f(fp); });
    if (!o.ok()) violation("print-failed", "%s: %s: %s", what, o.str().c_str(), k.describe().c_str());
    s.close();
    if (exact && s.data != *exact)
    {
        size_t p = 0;
        while (p < s.data.size() && p < exact->size() && s.data[p] == (*exact)[p]) ++p;
        size_t from = p > 60 ? p - 60 : 0;
        violation("print", "%s differs at byte %zu: '%s' instead of '%s' (%s)", what, p, printable(s.data.substr(from), 160).c_str(), printable(exact->substr(from), 160).c_str(), k.describe().c_str());
    }
    // a sink that fails keeps a beginning of it
    if (chance(1, 4, "failing-sink"))
    {
        OutStream t;
        t.fail_at = draw(s.data.size() + 1, "fail-at");
        FILE* tp = t.open_seeded();
        Out q = call([&] { f(tp); });
        if (!q.ok() && q.kind != Kind::Error) violation("print-failed", "%s to a failing sink: %s", what, q.str().c_str());
        t.close();
        if (s.data.compare(0, t.data.size(), t.data) != 0) violation("print", "%s to a failing sink leaves something else than a beginning of it", what);
        if (t.fired) fault("fault.sink_failure");
    }
    return s.data;
}

void describe_ops(const Bulletin& b, const std::vector<peer::Code>& ops, unsigned indent, std::string& out, bool& pending)
{
    for (size_t i = 0; i < ops.size(); ++i)
    {
        peer::Code c = ops[i];
        // the definition of a bitmap is part of the operator that announced it
        if (peer::F(c) == 1 && pending) { i += peer::X(c) + (peer::Y(c) ? 0 : 1); pending = false; continue; }
        out += std::string(indent, ' ') + fmt("%u%02u%03u", peer::F(c), peer::X(c), peer::Y(c));
        switch (peer::F(c))
        {
            case 0:
            {
                Varinfo v = sut([&] { return b.tables.btable->query(c); });
                out += std::string(" ") + v->desc + "[" + v->unit + "]\n";
                break;
            }
            case 1:
            {
                out += fmt(" replicate %u descriptors", peer::X(c));
                if (peer::Y(c)) out += fmt(" %u times\n", peer::Y(c));
                else
                {
                    peer::Code dl = peer::mk(0, 31, 12);
                    if (i + 1 < ops.size() && peer::F(ops[i + 1]) == 0 && peer::X(ops[i + 1]) == 31) dl = ops[++i];
                    out += fmt(" (delayed %u%02u%03u) times\n", peer::F(dl), peer::X(dl), peer::Y(dl));
                }
                std::vector<peer::Code> body(ops.begin() + i + 1, ops.begin() + i + 1 + peer::X(c));
                i += peer::X(c);
                describe_ops(b, body, indent + 2, out, pending);
                break;
            }
            case 2:
            {
                unsigned y = peer::Y(c);
                switch (peer::X(c))
                {
                    case 1: out += fmt(" change data width to %d\n", y ? (int)y - 128 : 0); break;
                    case 2: out += fmt(" change data scale to %d\n", y ? (int)y - 128 : 0); break;
                    case 4: out += fmt(" %u bits of associated field\n", y); break;
                    case 5: out += " character data\n"; break;
                    case 6: ++i; out += fmt(" local descriptor %u%02u%03u %u bits long\n", peer::F(ops.at(i)), peer::X(ops.at(i)), peer::Y(ops.at(i)), y); break;
                    case 7: out += fmt(" change data scale, reference value and data width by %u\n", y); break;
                    case 8: out += fmt(" change width of string fields to %u\n", y); break;
                    case 22: out += " quality information with bitmap\n"; pending = true; break;
                    case 23: out += y ? " one substituted value\n" : " substituted values bitmap\n"; if (!y) pending = true; break;
                    case 36: out += " define data present bitmap for reuse\n"; break;
                    case 37: out += y ? " cancel reuse of the last defined bitmap\n" : " reuse last data present bitmap\n"; pending = false; break;
                    default: out += " (C modifier)\n"; break;
                }
                count("probe.description_operators");
                break;
            }
            case 3:
            {
                out += " (group)\n";
                std::vector<peer::Code> in;
                { Sut s; Opcodes o = b.tables.dtable->query(c); for (unsigned j = 0; j < o.size(); ++j) { Host h; in.push_back(o[j]); } }
                describe_ops(b, in, indent + 2, out, pending);
                break;
            }
        }
    }
}

void views(const Bulletin& b, const Case& k, bool decoded)
{
    std::string hd = head(b, k, decoded);
    // every value is itself: the bulletin is what was sent
    std::vector<std::vector<std::string>> texts;
    for (auto& s: b.subsets) { texts.emplace_back(); for (auto& v: s) texts.back().push_back(text_of(v)); }
    if (chance(2, 3, "flat"))
    {
        std::string want = hd;
        for (size_t i = 0; i < texts.size(); ++i)
            for (size_t j = 0; j < texts[i].size(); ++j)
                want += fmt("  [%zu][%zu] ", i, j) + texts[i][j];
        printed(b, k, "the flat view", &want, [&](FILE* f) { b.print(f); });
        count("probe.flat");
    }
    if (chance(2, 3, "structured"))
    {
        bool quirks = !k.crex && (k.b.uses_af || k.b.uses_bitmap);
        // each value at its place in the structure
        std::vector<std::string> lines;
        for (size_t i = 0; i < texts.size(); ++i)
            for (size_t j = 0; j < texts[i].size(); ++j)
            {
                const peer::XVar& x = k.subsets()[i][j];
                std::string l = fmt("%2zu.%2zu ", i, x.kind == peer::XVar::CHARS || x.kind == peer::XVar::BITMAP ? (size_t)0 : j + 1);
                for (auto c: x.path) l += fmt("%u%02u%03u/", peer::F(c), peer::X(c), peer::Y(c));
                l += fmt("%u%02u%03u: ", peer::F(x.code), peer::X(x.code), peer::Y(x.code)) + texts[i][j];
                lines.push_back(l);
            }
        std::string want = hd;
        for (auto& l: lines) want += l;
        std::string got = printed(b, k, "the structured view", quirks ? nullptr : &want, [&](FILE* f) { b.print_structured(f); });
        if (quirks)
        {
            if (got.compare(0, hd.size(), hd) != 0) violation("print", "the structured view does not start with the header of the bulletin (%s)", k.describe().c_str());
            size_t pos = hd.size();
            for (auto& l: lines)
            {
                size_t p = got.find(l, pos);
                if (p == std::string::npos) violation("print", "the structured view lacks '%s' or has it at another place (%s)", printable(l, 200).c_str(), k.describe().c_str());
                pos = p + l.size();
            }
            count("probe.structured_attributes");
        } else
            count("probe.structured");
    }
    if (chance(1, 2, "description"))
    {
        unsigned indent = draw(5, "indent");
        std::string want;
        bool pending = false;
        describe_ops(b, k.desc(), indent, want, pending);
        printed(b, k, "the view of the data description", &want, [&](FILE* f) { b.print_datadesc(f, indent); });
        count("probe.description");
    }
}

// ------------------------------------------------------------ comparing

struct Sink : public std::streambuf
{
    std::string data;
    unsigned owner;
    int overflow(int c) override { Host h; data += (char)c; check(); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { Host h; data.append(s, n); check(); yield_point("note"); return n; }
    void check() { if ((unsigned)task_id() != owner) violation("note-misdirected", "a note about differences goes to the stream of another thread"); }
};

// Compare both ways; returns whether a difference was found
bool differ(const Bulletin& a, const Bulletin& b, const char* what, const Case& k)
{
    bool res[2];
    for (int way = 0; way < 2; ++way)
    {
        const Bulletin& x = way ? b : a; const Bulletin& y = way ? a : b;
        bool collect = chance(1, 2, "collect");
        Sink sb; sb.owner = task_id();
        std::ostream os(&sb);
        unsigned d = 0;
        std::ostream* before = notes::get_target();
        Out o = call([&] { if (collect) { notes::Collect c(os); d = x.diff(y); } else d = x.diff(y); });
        (void)before;
        if (!o.ok()) violation("compare-failed", "%s: %s (%s)", what, o.str().c_str(), k.describe().c_str());
        res[way] = d != 0;
        if (collect && sb.data.empty() != (d == 0)) violation("notes", "%s: comparing reports %u differences and the notes '%s' (%s)", what, d, printable(sb.data).c_str(), k.describe().c_str());
    }
    if (res[0] != res[1]) violation("compare", "%s: comparing one way reports %s, the other way %s (%s)", what, res[0] ? "a difference" : "none", res[1] ? "a difference" : "none", k.describe().c_str());
    return res[0];
}

// Make one change to b, returning what it is; "" if it could not be made
std::string change(Bulletin& b, const Case& k)
{
    auto other = [](unsigned old, unsigned span) { return (old + 1 + draw(span - 1, "other")) % span; };
    BufrBulletin* bb = dynamic_cast<BufrBulletin*>(&b);
    CrexBulletin* cb = dynamic_cast<CrexBulletin*>(&b);
    switch (draw(24, "change"))
    {
        case 0: b.master_table_number = other(b.master_table_number, 256); return "master table number";
        case 1: b.data_category = other(b.data_category, 256); return "data category";
        case 2: b.data_subcategory = other(b.data_subcategory, 256); return "data subcategory";
        case 3: b.data_subcategory_local = other(b.data_subcategory_local, 256); return "local data subcategory";
        case 4: b.originating_centre = other(b.originating_centre, 65536); return "centre";
        case 5: b.originating_subcentre = other(b.originating_subcentre, 65536); return "subcentre";
        case 6: b.update_sequence_number = other(b.update_sequence_number, 256); return "update sequence number";
        case 7:
            switch (draw(6, "date"))
            {
                case 0: b.rep_year = other(b.rep_year, 65536); return "year";
                case 1: b.rep_month = other(b.rep_month, 256); return "month";
                case 2: b.rep_day = other(b.rep_day, 256); return "day";
                case 3: b.rep_hour = other(b.rep_hour, 256); return "hour";
                case 4: b.rep_minute = other(b.rep_minute, 256); return "minute";
                default: b.rep_second = other(b.rep_second, 256); return "second";
            }
        case 8: if (bb) bb->edition_number = other(bb->edition_number, 256); else cb->edition_number = other(cb->edition_number, 256); return "edition";
        case 9: if (bb) bb->master_table_version_number = other(bb->master_table_version_number, 256); else cb->master_table_version_number = other(cb->master_table_version_number, 256); return "table version";
        case 10: if (bb) bb->master_table_version_number_local = other(bb->master_table_version_number_local, 256); else cb->master_table_version_number_local = other(cb->master_table_version_number_local, 256); return "local table version";
        case 11:
            if (cb) { cb->has_check_digit = !cb->has_check_digit; return "check digits"; }
            else
            {
                std::string n = bb->optional_section;
                if (!n.empty() && chance(1, 2, "same-length")) n[draw(n.size(), "at")] ^= 1 << draw(8, "bit");
                else if (!n.empty() && chance(1, 2, "shorter")) n.pop_back();
                else n += (char)draw(256, "byte");
                Sut s; bb->optional_section = n; return "optional section";
            }
        case 12: { size_t i = draw(b.datadesc.size(), "at"); b.datadesc[i] = other(b.datadesc[i], 65536); return "data descriptor"; }
        case 13: { Sut s; if (chance(1, 2, "longer")) b.datadesc.push_back(b.datadesc.back()); else b.datadesc.pop_back(); return "number of data descriptors"; }
        case 14: { Sut s; if (chance(1, 2, "more")) b.subsets.push_back(b.subsets.back()); else b.subsets.pop_back(); return "number of subsets"; }
        case 15:
        {
            // the tables
            Tables t;
            Out o = call([&] {
                if (bb) { const auto& v = peer::versions(); t.load_bufr(BufrTableID(0, 0, 0, v[draw(v.size(), "version")], 0)); }
                else t.load_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0));
            });
            if (!o.ok() || t.btable == b.tables.btable) { Sut s; t.clear(); return ""; }
            b.tables.btable = t.btable;
            if (chance(1, 2, "both")) b.tables.dtable = t.dtable;
            return "tables";
        }
        case 16:
        {
            Tables t;
            Out o = call([&] {
                if (bb) { const auto& v = peer::versions(); t.load_bufr(BufrTableID(0, 0, 0, v[draw(v.size(), "version")], 0)); }
                else t.load_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0));
            });
            if (!o.ok() || t.dtable == b.tables.dtable) return "";
            b.tables.dtable = t.dtable;
            return "sequence table";
        }
        default: break;
    }
    // a value
    Subset& s = b.subsets[draw(b.subsets.size(), "subset")];
    if (s.empty()) return "";
    size_t at = draw(s.size(), "value");
    Var& v = s[at];
    std::string res;
    Out o = call([&] {
        switch (draw(8, "how"))
        {
            case 0: s.pop_back(); res = "last value gone"; return;
            case 1: { Var c(s.back()); s.push_back(std::move(c)); res = "one more value"; return; }
            case 2:
                if (!v.isset()) return;
                v.unset(); res = "value now missing"; return;
            case 3:
                // another element with the same value
                if (v.info()->type == Vartype::Binary) return;
                { Varinfo i = b.tables.btable->query(v.code() == WR_VAR(0, 1, 1) ? WR_VAR(0, 1, 2) : WR_VAR(0, 1, 1)); v = Var(i); res = "another element"; }
                return;
            case 4: case 5:
                // attributes
                if (!v.isset()) return;
                if (const Var* a = v.next_attr())
                {
                    Varcode c = a->code();
                    if (chance(1, 2, "drop") || !a->isset() || a->info()->type == Vartype::String || a->info()->type == Vartype::Binary || a->info()->imin == a->info()->imax) { v.unseta(c); res = "attribute gone"; }
                    else { Var n(a->info()); n.seti(a->enqi() == a->info()->imin ? a->info()->imax : a->info()->imin); v.seta(std::move(n)); res = "value of an attribute"; }
                } else {
                    v.seta(Var(b.tables.btable->query(WR_VAR(0, 33, 2)), 1)); res = "one more attribute";
                }
                return;
            default:
                switch (v.info()->type)
                {
                    case Vartype::Integer: case Vartype::Decimal:
                        if (v.isset() && v.info()->imin == v.info()->imax) return;
                        if (v.isset() && chance(1, 2, "close")) { int i = v.enqi(); v.seti(i == v.info()->imax ? i - 1 : i + 1); }
                        else v.seti(v.isset() && v.enqi() == v.info()->imin ? v.info()->imax : v.info()->imin);
                        res = "value";
                        return;
                    case Vartype::String:
                    {
                        std::string t = v.isset() ? v.enqc() : "";
                        { Host h; if (t.empty()) t = "A"; else { size_t p = chance(1, 2, "end") ? t.size() - 1 : draw(t.size(), "char"); t[p] = t[p] == 'A' ? 'B' : 'A'; } }
                        v.setc(t.c_str());
                        res = "text";
                        return;
                    }
                    case Vartype::Binary:
                    {
                        if (!v.isset()) return;
                        std::string t(v.enqc(), (v.info()->bit_len + 7) / 8);
                        { Host h; unsigned bits = v.info()->bit_len; unsigned bit = draw(bits, "bit"); unsigned byte = bit / 8; unsigned inb = byte == bits / 8 ? bit % 8 : bit % 8; t[byte] ^= 1 << inb; }
                        v.setc(t.c_str());
                        if (memcmp(v.enqc(), t.data(), t.size()) == 0) res = "binary value";
                        else res = "";
                        return;
                    }
                }
        }
    });
    if (!o.ok()) { ev("no change: %s", o.str().c_str()); return ""; }
    return res;
}

void exchange(unsigned who)
{
    Case k;
    k.crex = chance(1, 3, "crex");
    if (k.crex) k.c = crexpeer::draw_message(40, 3);
    else
    {
        peer::Opts po;
        po.max_vars = 50; po.max_subsets = 3;
        k.b = peer::draw_message(po);
    }
    ev("party %u: %s", who, k.describe().c_str());
    hash_bytes(k.crex ? k.c.canon.data() : k.b.wire.data(), k.crex ? k.c.canon.size() : k.b.wire.size());
    bool decoded = chance(1, 2, "decoded");
    std::unique_ptr<Bulletin> a = make(k, decoded);
    views(*a, k, decoded);
    bool decoded2 = chance(1, 2, "decoded");
    // fields that the older editions do not carry; attributes without a value may be left out
    if (!k.crex && (k.b.edition < 4 || k.b.uses_af)) decoded2 = decoded;
    std::unique_ptr<Bulletin> b = make(k, decoded2);
    auto fresh = [&] { Sut s; b.reset(); Host h; b = make(k, decoded2); };
    if (differ(*a, *a, "with itself", k)) violation("compare", "a bulletin differs from itself (%s)", k.describe().c_str());
    if (differ(*a, *b, "with its equal", k)) violation("compare", "two equal bulletins are reported to differ (%s)", k.describe().c_str());
    unsigned n = 1 + draw(6, "changes");
    for (unsigned i = 0; i < n; ++i)
    {
        std::string what = change(*b, k);
        ev("party %u: change: %s", who, what.c_str());
        if (what.empty()) { fresh(); continue; }
        if (!differ(*a, *b, what.c_str(), k)) violation("compare", "two bulletins are reported to be equal after a change of: %s (%s)", what.c_str(), k.describe().c_str());
        count("probe.change_found");
        // changed the same way they are equal again
        if (chance(1, 3, "starve"))
        {
            // out of memory while comparing has no effect on what is compared
            alloc::fail_at(1 + draw(6, "alloc"), false);
            call([&] { std::ostringstream os; notes::Collect c(os); a->diff(*b); });
            if (alloc::fired()) fault("fault.allocation");
            alloc::disarm();
            if (!differ(*a, *b, what.c_str(), k)) violation("compare", "two bulletins are reported to be equal after a change of: %s (%s)", what.c_str(), k.describe().c_str());
        }
        fresh();
        if (differ(*a, *b, "with its equal", k)) violation("compare", "two equal bulletins are reported to differ (%s)", k.describe().c_str());
        yield_point("change");
    }
    // another kind of bulletin is never equal
    if (chance(1, 6, "other-kind"))
    {
        std::unique_ptr<Bulletin> x;
        Out o = call([&] { if (k.crex) x = BufrBulletin::create(); else x = CrexBulletin::create(); });
        if (!o.ok()) violation("make-failed", "%s", o.str().c_str());
        if (!differ(*a, *x, "with another kind", k)) violation("compare", "bulletins of different kinds are reported to be equal");
        Sut s; x.reset();
    }
    nontrivial();
    Sut s; a.reset(); b.reset();
}

// everything that can be seen of a bulletin without values
std::string state_of(const Bulletin& b)
{
    OutStream s;
    FILE* f = s.open_plain();
    Out o = call([&] { b.print(f); });
    if (!o.ok()) violation("print-failed", "a bulletin without values: %s", o.str().c_str());
    s.close();
    std::string r = s.data;
    r += fmt("from '%s' at %lld, table %u, descriptors %zu, subsets %zu, B %d, D %d", b.fname.c_str(), (long long)b.offset, b.master_table_number, b.datadesc.size(), b.subsets.size(), b.tables.btable != nullptr, b.tables.dtable != nullptr);
    if (auto bb = dynamic_cast<const BufrBulletin*>(&b)) r += fmt(", version %u:%u, compression %d, optional %zu", bb->master_table_version_number, bb->master_table_version_number_local, bb->compression, bb->optional_section.size());
    if (auto cb = dynamic_cast<const CrexBulletin*>(&b)) r += fmt(", version %u:%u:%u", cb->master_table_version_number, cb->master_table_version_number_bufr, cb->master_table_version_number_local);
    return r;
}

// a bulletin that nothing was done with yet, or that was emptied
void blank()
{
    Case k;
    k.crex = chance(1, 2, "crex");
    if (k.crex) k.c = crexpeer::draw_message(20, 2);
    else { peer::Opts po; po.max_vars = 20; po.max_subsets = 2; k.b = peer::draw_message(po); }
    std::unique_ptr<Bulletin> b;
    Out o = call([&] { if (k.crex) b = CrexBulletin::create(); else b = BufrBulletin::create(); });
    if (!o.ok()) violation("make-failed", "%s", o.str().c_str());
    std::string fresh = state_of(*b);
    unsigned rounds = 1 + draw(3, "rounds");
    for (unsigned i = 0; i < rounds; ++i)
    {
        // used for something, then emptied, it is as new
        if (i && chance(1, 2, "decoded")) { { Sut u; b.reset(); } b = make(k, true); }
        else if (i)
        {
            o = call([&] { if (k.crex) crexpeer::build(dynamic_cast<CrexBulletin&>(*b), k.c); else peer::build(dynamic_cast<BufrBulletin&>(*b), k.b); });
            if (!o.ok()) violation("make-failed", "a bulletin that was emptied cannot be filled: %s (%s)", o.str().c_str(), k.describe().c_str());
        }
        if (i)
        {
            std::string seen;
            o = call([&] {
                std::string e = b->encode();
                Host h; seen = e;
            });
            if (chance(1, 2, "named")) { Sut u; b->fname = "elsewhere"; b->offset = 1 + draw(1000, "offset"); }
        }
        { Sut u; b->clear(); }
        std::string now = state_of(*b);
        if (now != fresh) violation("print", "a new bulletin is shown as '%s', an emptied one as '%s' (%s)", printable(fresh, 500).c_str(), printable(now, 500).c_str(), k.describe().c_str());
    }
    count("probe.blank");
    Sut u; b.reset();
}

// long and alike bulletins that differ in one place
void alike()
{
    bool crex = chance(1, 2, "crex");
    std::unique_ptr<Bulletin> b[2];
    static const unsigned sizes[] = {1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000};
    unsigned nd = sizes[draw(12, "descriptors")], ns = sizes[draw(9, "subsets")], nv = sizes[draw(9, "values")];
    unsigned what = draw(5, "what");
    unsigned sub = draw(ns, "at-subset"), val = draw(nv, "at-value"), dd = draw(nd, "at-descriptor");
    if (chance(1, 2, "last")) sub = ns - 1, val = nv - 1, dd = nd - 1;
    for (int i = 0; i < 2; ++i)
    {
        Out o = call([&] {
            if (crex) { auto r = CrexBulletin::create(); r->master_table_version_number = 3; r->edition_number = 1; r->originating_centre = r->originating_subcentre = 0; r->load_tables(); b[i] = std::move(r); }
            else { auto r = BufrBulletin::create(); r->master_table_version_number = 24; r->originating_centre = r->originating_subcentre = 0; r->load_tables(); b[i] = std::move(r); }
            for (unsigned j = 0; j < nd; ++j) b[i]->datadesc.push_back(WR_VAR(0, 12, 101));
            for (unsigned j = 0; j < ns; ++j)
            {
                Subset& s = b[i]->obtain_subset(j);
                for (unsigned v = 0; v < nv; ++v) s.store_variable_i(WR_VAR(0, 1, 1), 1 + (j * 7 + v) % 90);
            }
        });
        if (!o.ok()) violation("make-failed", "%s", o.str().c_str());
    }
    Case k;
    k.crex = crex;
    std::string size = fmt("%u descriptors, %u subsets of %u values", nd, ns, nv);
    ev("alike: %s", size.c_str());
    auto compare = [&](const char* how, bool want) {
        if (differ(*b[0], *b[1], how, k) != want) violation("compare", "two bulletins with %s are reported to %s, with %s", size.c_str(), want ? "be equal" : "differ", how);
    };
    compare("nothing changed", false);
    std::string how;
    Out o = call([&] {
        Bulletin& x = *b[1];
        switch (what)
        {
            case 0: x.datadesc[dd] = WR_VAR(0, 12, 102); { Host h; how = fmt("descriptor %u changed", dd); } break;
            case 1: { Var& v = x.subsets[sub][val]; v.seti(v.enqi() + 1); Host h; how = fmt("value %u of subset %u changed", val, sub); break; }
            case 2: { x.subsets[sub][val].seta(Var(x.tables.btable->query(WR_VAR(0, 33, 7)), 50)); Host h; how = fmt("value %u of subset %u given an attribute", val, sub); break; }
            case 3: { x.subsets[sub][val].unset(); Host h; how = fmt("value %u of subset %u unset", val, sub); break; }
            default:
            {
                // compensating: two values exchanged
                unsigned w = (val + 1) % nv;
                Var& p = x.subsets[sub][val]; Var& q = x.subsets[sub][w];
                int pi = p.enqi(), qi = q.enqi();
                if (pi == qi) { p.seti(pi + 1); } else { p.seti(qi); q.seti(pi); }
                Host h; how = fmt("values %u and %u of subset %u exchanged", val, w, sub);
            }
        }
    });
    if (!o.ok()) violation("make-failed", "%s", o.str().c_str());
    compare(how.c_str(), true);
    count("probe.alike");
    Sut u; b[0].reset(); b[1].reset();
}

void run_p20()
{
    static const int fills[] = {0x00, 0xff, 0xa5, 0x01};
    alloc::set_fill(fills[draw(4, "fill")]);
    unsigned parties = 1 + (draw(4, "parties") == 3) + (draw(4, "parties") == 3);
    std::vector<std::function<void()>> tasks;
    for (unsigned c = 0; c < parties; ++c)
        tasks.push_back([c] {
            unsigned n = 1 + draw(2, "messages");
            for (unsigned i = 0; i < n; ++i)
            {
                if (chance(1, 6, "blank")) blank();
                if (chance(1, 30, "alike")) alike();
                exchange(c);
            }
        });
    run_tasks(tasks);
}

}

SIM_SCENARIO(P20, prepare, run_p20)
