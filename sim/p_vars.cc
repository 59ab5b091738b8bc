// P11: variables and subsets behave as independent values whatever is done to
// them, also when memory runs out in the middle.
#include "lib.h"
#include "gen.h"
#include <wreport/var.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <wreport/options.h>
#include <wreport/notes.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <sstream>

using namespace sim;
using namespace wreport;

namespace {

std::vector<_Varinfo> own_infos;
std::vector<Varinfo> infos;       // what variables are made of
std::vector<Varinfo> attr_infos;  // what attributes are made of
std::vector<Varinfo> tab_infos;   // those the B table of the subsets has
const Tables* tabs = nullptr;

void prepare()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    // tables stay in memory once loaded
    for (unsigned v: {12, 13, 14, 19, 23, 24}) { Sut u; Tables t; t.load_bufr(BufrTableID(0, 0, 0, v, 0)); }
    {
        Sut s;
        Tables* t = new Tables;
        t->load_bufr(BufrTableID(0, 0, 0, 24, 0));
        tabs = t;
    }
    own_infos.resize(19);
    unsigned n = 0;
    auto str = [&](Varcode c, unsigned len) { own_infos[n].set_string(c, "text", len); ++n; };
    auto bin = [&](Varcode c, unsigned bits) { own_infos[n].set_binary(c, "opaque", bits); ++n; };
    auto num = [&](Varcode c, const char* u, int scale, unsigned len, int ref, int bits) { own_infos[n].set_bufr(c, "number", u, scale, len, ref, bits); ++n; };
    str(WR_VAR(0, 63, 1), 1);
    str(WR_VAR(0, 63, 2), 9);
    str(WR_VAR(0, 63, 3), 64);
    str(WR_VAR(0, 63, 4), 4);
    bin(WR_VAR(0, 63, 5), 6);
    bin(WR_VAR(0, 63, 6), 16);
    bin(WR_VAR(0, 63, 7), 320);
    num(WR_VAR(0, 63, 8), "K", 1, 4, 0, 12);
    num(WR_VAR(0, 63, 8), "K", 2, 5, 0, 16);     // the same code with another scale
    num(WR_VAR(0, 63, 3), "NUMERIC", 0, 3, 0, 8); // the same code as a text
    num(WR_VAR(0, 63, 6), "NUMERIC", 0, 10, 0, 32); // the same code as an opaque value, any integer
    num(WR_VAR(0, 63, 9), "M", -2, 4, -400, 14);
    num(WR_VAR(0, 63, 10), "NUMERIC", 0, 5, -30000, 16);
    str(WR_VAR(0, 63, 2), 20);                   // the same code, another length
    bin(WR_VAR(0, 63, 6), 96);
    num(WR_VAR(0, 63, 11), "NUMERIC", 3, 10, 0, 32);
    num(WR_VAR(0, 63, 12), "NUMERIC", -12, 10, 0, 32);
    num(WR_VAR(0, 63, 13), "NUMERIC", 0, 9, -500000000, 31);
    num(WR_VAR(0, 63, 14), "NUMERIC", 4, 9, 0, 29);
    for (auto& i: own_infos) infos.push_back(&i);
    Sut s;
    for (Varcode c: {WR_VAR(0, 1, 1), WR_VAR(0, 1, 11), WR_VAR(0, 12, 101), WR_VAR(0, 5, 1), WR_VAR(0, 1, 15), WR_VAR(0, 20, 11), WR_VAR(0, 10, 4)})
    {
        tab_infos.push_back(tabs->btable->query(c));
        infos.push_back(tab_infos.back());
    }
    for (Varcode c: {WR_VAR(0, 33, 7), WR_VAR(0, 33, 2), WR_VAR(0, 33, 50), WR_VAR(0, 1, 15), WR_VAR(0, 8, 21), WR_VAR(0, 12, 101)})
        attr_infos.push_back(tabs->btable->query(c));
    attr_infos.push_back(&own_infos[6]);
    attr_infos.push_back(&own_infos[1]);
}

struct Val
{
    bool set = false;
    int i = 0;
    std::string s;
    bool operator==(const Val& o) const { return set == o.set && (!set || (i == o.i && s == o.s)); }
};
struct MAttr { Varinfo info; Val v; bool operator==(const MAttr& o) const { return info == o.info && v == o.v; } };
struct M
{
    Varinfo info;
    Val v;
    std::vector<MAttr> attrs;
    void put(const MAttr& a)
    {
        for (auto& x: attrs) if (x.info->code == a.info->code) { x = a; return; }
        attrs.push_back(a);
        std::sort(attrs.begin(), attrs.end(), [](const MAttr& p, const MAttr& q) { return p.info->code < q.info->code; });
    }
    bool operator==(const M& o) const { return info == o.info && v == o.v && attrs == o.attrs; }
};

bool is_num(Varinfo i) { return i->type == Vartype::Integer || i->type == Vartype::Decimal; }
bool is_txt(Varinfo i) { return i->type == Vartype::String; }
double to_d(Varinfo i, int v)
{
    double p = 1;
    for (int k = 0; k < std::abs(i->scale); ++k) p *= 10;
    return i->scale > 0 ? v / p : i->scale < 0 ? v * p : v;
}

std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char c: s) { char b[4]; snprintf(b, 4, "%02X", c); r += b; }
    return r;
}

std::string show(const Val& v, Varinfo i)
{
    if (!v.set) return "unset";
    return is_num(i) ? std::to_string(v.i) : "\"" + printable(v.s, 40) + "\"";
}
std::string show(const M& m)
{
    std::string r = varcode_format(m.info->code) + "=" + show(m.v, m.info);
    for (auto& a: m.attrs) r += " {" + varcode_format(a.info->code) + "=" + show(a.v, a.info) + "}";
    return r;
}

// What the library says a variable holds, read in every way there is
Val read_val(const Var& v, const char* when)
{
    Val r;
    Out o = call([&] {
        r.set = v.isset();
        if (!r.set) return;
        switch (v.info()->type)
        {
            case Vartype::Integer: case Vartype::Decimal: r.i = v.enqi(); break;
            default: { std::string s = v.enqs(); Host h; r.s = s.c_str(); r.s = std::string(s.data(), s.size()); }
        }
    });
    if (!o.ok()) violation("unreadable", "%s: a set variable cannot be read: %s", when, o.str().c_str());
    return r;
}

void check_var(const Var& v, const M& m, const char* when)
{
    if (v.info() != m.info) violation("wrong-info", "%s: the variable is %s, %u long, instead of %s, %u long", when, varcode_format(v.info()->code).c_str(), v.info()->len, varcode_format(m.info->code).c_str(), m.info->len);
    Val r = read_val(v, when);
    if (!(r == m.v)) violation("wrong-value", "%s: %s holds %s instead of %s", when, varcode_format(m.info->code).c_str(), show(r, m.info).c_str(), show(m.v, m.info).c_str());
    // the other ways of reading
    std::string fs; double d = 0; std::string c;
    OutStream sink; FILE* f = sink.open_plain();
    Out o = call([&] {
        std::string t = v.format("none");
        v.format(f, "none");
        if (m.v.set)
        {
            const char* p = v.enqc();
            Host h;
            c = is_num(m.info) || is_txt(m.info) ? std::string(p) : std::string(p, m.info->len);
        }
        if (m.v.set && is_num(m.info)) d = v.enqd();
        Host h; fs = t.c_str();
    });
    sink.close();
    if (!o.ok()) violation("unreadable", "%s: a variable cannot be read: %s", when, o.str().c_str());
    if (fs != sink.data) violation("formats-differ", "%s: %s is formatted as '%s' and written as '%s'", when, show(m).c_str(), fs.c_str(), sink.data.c_str());
    if (!m.v.set) { if (fs != "none") violation("wrong-format", "%s: an unset variable is formatted as '%s'", when, fs.c_str()); }
    else if (is_num(m.info))
    {
        if (d != to_d(m.info, m.v.i)) violation("wrong-value", "%s: %s reads %g as a number", when, show(m).c_str(), d);
        if (c != std::to_string(m.v.i)) violation("wrong-text", "%s: %s reads '%s' as text", when, show(m).c_str(), c.c_str());
        char b[64]; snprintf(b, 64, "%.*f", std::max(0, m.info->scale), d);
        if (fs != b) violation("wrong-format", "%s: %s is formatted as '%s' instead of '%s'", when, show(m).c_str(), fs.c_str(), b);
    }
    else if (fs != (is_txt(m.info) ? std::string(m.v.s.c_str()) : hex(m.v.s))) violation("wrong-format", "%s: %s is formatted as '%s'", when, show(m).c_str(), printable(fs).c_str());
    else if (c != m.v.s) violation("wrong-text", "%s: %s reads '%s' as text", when, show(m).c_str(), printable(c).c_str());
    // attributes: by iteration and by code
    size_t k = 0;
    for (const Var* a = v.next_attr(); a; a = a->next_attr(), ++k)
    {
        if (k >= m.attrs.size()) violation("wrong-attributes", "%s: %s has an extra attribute %s", when, show(m).c_str(), varcode_format(a->code()).c_str());
        Val av = read_val(*a, when);
        if (a->info() != m.attrs[k].info || !(av == m.attrs[k].v)) violation("wrong-attributes", "%s: attribute %zu of %s is %s=%s", when, k, show(m).c_str(), varcode_format(a->code()).c_str(), show(av, a->info()).c_str());
    }
    if (k != m.attrs.size()) violation("wrong-attributes", "%s: %s has only %zu attributes", when, show(m).c_str(), k);
    for (auto ai: attr_infos)
    {
        const Var* a = sut([&] { return v.enqa(ai->code); });
        bool want = false;
        for (auto& x: m.attrs) if (x.info->code == ai->code) { want = true; if (a) { Val av = read_val(*a, when); if (!(av == x.v)) violation("wrong-attributes", "%s: attribute %s of %s reads %s", when, varcode_format(ai->code).c_str(), show(m).c_str(), show(av, a->info()).c_str()); } }
        if (want != (a != nullptr)) violation("wrong-attributes", "%s: attribute %s of %s is %s", when, varcode_format(ai->code).c_str(), show(m).c_str(), a ? "found" : "not found");
    }
}

// After memory ran out in the middle of an operation the variable must be
// consistent: as before, as after, or unset / without attributes
void settle(const Var& v, M& before, const M& after, const char* when)
{
    M now;
    now.info = v.info();
    if (now.info != before.info && now.info != after.info) violation("wrong-info", "%s: lack of memory left a variable of another kind", when);
    now.v = read_val(v, when);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) now.attrs.push_back(MAttr{a->info(), read_val(*a, when)});
    if (now.v.set && !(now.info == before.info && now.v == before.v) && !(now.info == after.info && now.v == after.v))
        violation("torn-value", "%s: lack of memory left %s, which is neither the value before (%s) nor the one after (%s)", when, show(now).c_str(), show(before).c_str(), show(after).c_str());
    if (!now.attrs.empty() && !(now.attrs == before.attrs) && !(now.attrs == after.attrs))
        violation("torn-attributes", "%s: lack of memory left %s, instead of %s or %s", when, show(now).c_str(), show(before).c_str(), show(after).c_str());
    before = now;
}

Val draw_val(Varinfo i, const char* label)
{
    Val v;
    if (chance(1, 12, "unset")) return v;
    v.set = true;
    switch (i->type)
    {
        case Vartype::Integer: case Vartype::Decimal:
            switch (draw(6, label))
            {
                case 5:
                {
                    // where the number of digits changes
                    int64_t p = 1;
                    for (unsigned k = draw(10, label); k; --k) p *= 10;
                    p += (int64_t)draw(3, label) - 1;
                    if (draw(3, label) == 0) p = -p;
                    v.i = std::max<int64_t>(i->imin, std::min<int64_t>(i->imax, p));
                    break;
                }
                case 0: v.i = std::max(i->imin, std::min(i->imax, (int)draw(100, label))); break;
                case 1: v.i = i->imax; break;
                case 2: v.i = i->imin; break;
                case 3: v.i = std::max(i->imin, std::min(i->imax, -(int)draw(2000, label))); break;
                case 4: v.i = i->imin + (int64_t)(draw64(label) % (uint64_t)((int64_t)i->imax - i->imin + 1)); break;
            }
            break;
        case Vartype::String:
        {
            unsigned n = draw(3, label) ? draw(i->len + 1, label) : i->len;
            for (unsigned k = 0; k < n; ++k) v.s += (char)(chance(1, 12, label) ? 0x80 + draw(128, label) : ' ' + draw(95, label));
            break;
        }
        case Vartype::Binary:
            for (unsigned k = 0; k < i->len; ++k) v.s += (char)draw(256, label);
            if (i->bit_len % 8) v.s.back() &= (1 << (i->bit_len % 8)) - 1;
            break;
    }
    return v;
}

bool preempted = false;

struct Slot { std::unique_ptr<Var> v; M m; };

struct Task
{
    std::vector<Slot> slots;
    std::unique_ptr<Tables> tables;   // own the bitmaps made on the way
    std::unique_ptr<Subset> sub[2];
    std::vector<M> subm[2];
    const char* text = nullptr;    // text handed out by the library earlier
    std::string text_copy;
    unsigned id = 0;

    bool armed = false;
    void arm()
    {
        if (preempted) return;     // a failing allocation would hit any thread
        armed = chance(1, 4, "starve");
        if (armed) alloc::fail_at(1 + draw(6, "alloc-fail-at"), chance(1, 3, "sticky"));
    }
    // Run an operation that has to succeed, or run out of memory when that was arranged
    template<typename F> bool op(const char* what, F&& f)
    {
        Out o = call(f);
        bool fired = armed && alloc::fired();
        alloc::disarm();
        armed = false;
        if (o.kind == Kind::BadAlloc && fired) { count("probe.starved"); return false; }
        if (!o.ok()) violation("refused", "%s: %s", what, o.str().c_str());
        return true;
    }

    void check_all(const char* when)
    {
        for (auto& s: slots) if (s.v) check_var(*s.v, s.m, when);
    }
    void check_sub(unsigned k, const char* when)
    {
        if (sub[k]->size() != subm[k].size()) violation("wrong-subset", "%s: the subset has %zu variables instead of %zu", when, sub[k]->size(), subm[k].size());
        for (size_t i = 0; i < subm[k].size(); ++i) check_var((*sub[k])[i], subm[k][i], when);
    }

    Slot& any(const char* l) { return slots[draw(slots.size(), l)]; }

    void build(Slot& s)
    {
        // a new variable with a value, in one of the ways there are
        Varinfo i = infos[draw(infos.size(), "info")];
        M m{i, draw_val(i, "value"), {}};
        std::unique_ptr<Var> v;
        unsigned how = draw(4, "how");
        std::string txt = is_num(i) ? std::to_string(m.v.i) : m.v.s;
        arm();
        bool ok = op("creating a variable", [&] {
            if (!m.v.set) v.reset(new Var(i));
            else if (is_num(i))
                switch (how)
                {
                    case 0: v.reset(new Var(i, m.v.i)); break;
                    case 1: v.reset(new Var(i, to_d(i, m.v.i))); break;
                    case 2: v.reset(new Var(i, txt.c_str())); break;
                    case 3: v.reset(new Var(i, txt)); break;
                }
            else if (i->type == Vartype::Binary || how % 2)
                v.reset(new Var(i, txt));
            else
                v.reset(new Var(i, txt.c_str()));
        });
        if (!ok) return;
        Sut u;
        s.v = std::move(v);
        s.m = m;
    }

    void set_value(Slot& s)
    {
        Varinfo i = s.m.info;
        M after = s.m;
        after.v = draw_val(i, "value");
        unsigned how = draw(6, "how");
        std::string txt = is_num(i) ? std::to_string(after.v.i) : after.v.s;
        // texts longer than the room there is are cut
        if (is_txt(i) && after.v.set && after.v.s.size() == i->len && chance(1, 3, "longer")) txt += "and then some";
        double d = after.v.set && is_num(i) ? to_d(i, after.v.i) : 0;
        arm();
        bool ok = op("setting a value", [&] {
            if (!after.v.set) { s.v->unset(); return; }
            switch (i->type)
            {
                case Vartype::Integer: case Vartype::Decimal:
                    switch (how)
                    {
                        case 0: s.v->seti(after.v.i); break;
                        case 1: s.v->setd(d); break;
                        case 2: s.v->setc(txt.c_str()); break;
                        case 3: s.v->sets(txt); break;
                        case 4: s.v->set(after.v.i); break;
                        case 5: { char b[64]; snprintf(b, 64, "%.*f", std::max(0, i->scale), d); s.v->setf(b); break; }
                    }
                    break;
                case Vartype::String:
                    switch (how)
                    {
                        case 0: case 1: s.v->setc(txt.c_str()); break;
                        case 2: s.v->setc_truncate(txt.c_str()); break;
                        case 3: s.v->sets(txt); break;
                        case 4: s.v->set(txt); break;
                        case 5: if (txt.empty()) s.v->setc(""); else s.v->setf(txt.c_str()); break;
                    }
                    break;
                case Vartype::Binary: if (how % 2) s.v->sets(txt); else s.v->setc(txt.c_str()); break;
            }
        });
        if (ok) s.m = after; else settle(*s.v, s.m, after, "after setting a value");
    }

    void out_of_domain(Slot& s)
    {
        Varinfo i = s.m.info;
        if (!is_num(i)) return;
        // what is past the limits
        static const double far[] = {1e12, -1e12, 4294967296.0, 4294967297.0, -4294967297.0, 1e300, -1e300, INFINITY, -INFINITY, NAN};
        double d; int64_t iv;
        bool low;
        unsigned how = draw(4, "how");
        std::string txt;
        if (chance(1, 3, "far"))
        {
            d = far[draw(10, "far")];
            if (i->len >= 10 && i->scale) return;
            static const char* const texts[] = {"4294967296", "4294967297", "-4294967297", "99999999999", "18446744073709551617", "-99999999999999999999999"};
            txt = texts[draw(6, "text")];
            iv = INT64_MAX;
            low = how < 2 ? d < 0 : txt[0] == '-';
            if (how >= 2 && i->scale < 0) return;
        } else {
            if (i->len >= 10) return;
            low = chance(1, 2, "low");
            iv = low ? (int64_t)i->imin - 1 - draw(50, "beyond") : (int64_t)i->imax + 1 + draw(50, "beyond");
            d = to_d(i, iv);
            txt = std::to_string(iv);
        }
        if (how == 0 && iv == INT64_MAX) how = 1;
        unsigned opt = draw(3, "domain-errors");
        if (opt == 2 && std::isnan(d) && how == 1) opt = 0;
        Out o = call([&] {
            auto g1 = options::local_override(options::var_silent_domain_errors, opt == 1);
            auto g2 = options::local_override(options::var_clamp_domain_errors, opt == 2);
            switch (how)
            {
                case 0: s.v->seti((int)iv); break;
                case 1: s.v->setd(d); break;
                case 2: s.v->setc(txt.c_str()); break;
                case 3: s.v->sets(txt); break;
            }
        });
        char what[96]; snprintf(what, 96, "setting %s to %s", varcode_format(i->code).c_str(), how == 1 ? std::to_string(d).substr(0, 24).c_str() : how ? txt.c_str() : std::to_string(iv).c_str());
        count("probe.out_of_domain");
        switch (opt)
        {
            case 0:
                if (o.kind != Kind::Error || o.code != WR_ERR_DOMAIN) violation("domain", "%s: %s instead of a domain error", what, o.str().c_str());
                s.m.v.set = false;
                break;
            case 1:
                if (!o.ok()) violation("domain", "%s with silent domain errors: %s", what, o.str().c_str());
                s.m.v.set = false;
                break;
            case 2:
                if (!o.ok()) violation("domain", "%s with clamping: %s", what, o.str().c_str());
                s.m.v.set = true; s.m.v.s.clear();
                s.m.v.i = low ? i->imin : i->imax;
                break;
        }
    }

    void attribute(Slot& s)
    {
        Varinfo ai = attr_infos[draw(attr_infos.size(), "attr")];
        MAttr a{ai, draw_val(ai, "attr-value")};
        M after = s.m;
        switch (draw(8, "attr-op"))
        {
            case 0: case 1: case 2: case 3:
            {
                after.put(a);
                unsigned how = draw(3, "how");
                std::unique_ptr<Var> av;
                // an attribute that has attributes of its own loses them
                bool nested = chance(1, 5, "nested");
                { Sut u; av.reset(new Var(ai)); if (a.v.set) { if (is_num(ai)) av->seti(a.v.i); else av->sets(a.v.s); } if (nested) av->seta(Var(attr_infos[0], 1)); }
                M am{ai, a.v, {}}; if (nested) am.put(MAttr{attr_infos[0], Val{true, 1, ""}});
                arm();
                bool ok = op("setting an attribute", [&] {
                    switch (how)
                    {
                        case 0: s.v->seta(*av); break;
                        case 1: s.v->seta(std::move(*av)); break;
                        case 2: s.v->seta(std::unique_ptr<Var>(std::move(av))); break;
                    }
                });
                if (ok)
                {
                    s.m = after;
                    if (how == 0) check_var(*av, am, "the attribute that was copied");
                    if (how == 1 && av->isset()) violation("not-moved", "the attribute that was moved into a variable is still set");
                } else
                    settle(*s.v, s.m, after, "after setting an attribute");
                Sut u; av.reset();
                break;
            }
            case 4: case 5:
                for (size_t k = 0; k < s.m.attrs.size(); ++k) if (s.m.attrs[k].info->code == ai->code) { s.m.attrs.erase(s.m.attrs.begin() + k); break; }
                op("removing an attribute", [&] { s.v->unseta(ai->code); });
                break;
            case 6:
                s.m.attrs.clear();
                op("removing the attributes", [&] { s.v->clear_attrs(); });
                break;
            case 7:
            {
                Slot& o = any("from");
                if (!o.v) return;
                after.attrs = o.m.attrs;
                arm();
                if (op("copying attributes", [&] { s.v->setattrs(*o.v); })) s.m = after;
                else settle(*s.v, s.m, after, "after copying attributes");
                break;
            }
        }
    }

    // copies and moves between variables, also of other kinds, also onto themselves
    void copy(Slot& s)
    {
        Slot& o = any("from");
        if (!o.v) return;
        M om = o.m;
        switch (draw(6, "copy-op"))
        {
            case 0:
            {
                std::unique_ptr<Var> v;
                arm();
                bool ok = op("copying a variable", [&] { v.reset(new Var(*o.v)); });
                if (ok) { Sut u; s.v = std::move(v); s.m = om; }
                break;
            }
            case 1:
            {
                std::unique_ptr<Var> v;
                arm();
                bool ok = op("moving a variable", [&] { v.reset(new Var(std::move(*o.v))); });
                if (ok)
                {
                    o.m.v = Val(); o.m.attrs.clear();
                    check_var(*o.v, o.m, "a variable that was moved elsewhere");
                    Sut u; s.v = std::move(v); s.m = om;
                } else settle(*o.v, o.m, om, "after moving a variable");
                break;
            }
            case 2: case 3:
            {
                arm();
                if (op("assigning a variable", [&] { *s.v = *o.v; })) s.m = om;
                else settle(*s.v, s.m, om, "after assigning a variable");
                break;
            }
            case 4: case 5:
            {
                M sm = s.m;
                arm();
                bool ok = op("assigning a moved variable", [&] { *s.v = std::move(*o.v); });
                if (&o == &s) { if (!ok) settle(*s.v, s.m, om, "after a move"); break; }
                if (ok) { s.m = om; o.m.v = Val(); o.m.attrs.clear(); }
                else { settle(*s.v, s.m, om, "after moving"); settle(*o.v, o.m, om, "after moving"); }
                break;
            }
        }
    }

    // values taken from variables of other kinds
    void convert(Slot& s)
    {
        Slot& o = any("from");
        if (!o.v) return;
        bool make = chance(1, 3, "make");
        M after = s.m;
        Varinfo si = s.m.info, oi = o.m.info;
        bool refuse = false;
        if (!o.m.v.set) after.v = Val();
        else if (is_num(si))
        {
            if (!is_num(oi)) refuse = true;
            else
            {
                if (strcmp(si->unit, oi->unit) != 0) return;   // unit conversion is arithmetic, not our subject
                int64_t x = o.m.v.i;
                for (int k = oi->scale; k < si->scale; ++k) { x *= 10; if (x > INT_MAX || x < INT_MIN) return; }
                for (int k = oi->scale; k > si->scale; --k) { if (x % 10) return; x /= 10; }
                if (x < si->imin || x > si->imax) return;
                after.v.set = true; after.v.i = x; after.v.s.clear();
            }
        } else {
            std::string t = is_num(oi) ? std::to_string(o.m.v.i) : o.m.v.s;
            after.v = Val(); after.v.set = true;
            if (is_txt(si))
            {
                t = t.c_str();
                after.v.s = t.substr(0, si->len);
            } else {
                t.resize(si->len);
                if (si->bit_len % 8) t.back() &= (1 << (si->bit_len % 8)) - 1;
                if (si->bit_len % 8 && (is_num(oi) ? std::to_string(o.m.v.i).size() : o.m.v.s.size()) < si->len) return;
                after.v.s = t;
            }
        }
        if (make)
        {
            // a new variable of this kind from the other one
            std::unique_ptr<Var> v;
            if (refuse)
            {
                alloc::Mark m = alloc::mark();
                Out r = call([&] { Var t(si, *o.v); });
                if (r.kind != Kind::Error) violation("conversion", "making %s from %s: %s", varcode_format(si->code).c_str(), show(o.m).c_str(), r.str().c_str());
                if (!preempted && alloc::mark().live_objs != m.live_objs) violation("leak", "a refused conversion leaks");
                return;
            }
            arm();
            bool ok = op("making a variable from another", [&] { v.reset(new Var(si, *o.v)); });
            if (!ok) return;
            // whether attributes come along is not settled by the documentation
            if (v->next_attr()) after.attrs = o.m.attrs; else after.attrs.clear();
            check_var(*v, after, "a variable made from another");
            count("probe.converted");
            Sut u; s.v = std::move(v); s.m = after;
            return;
        }
        if (refuse)
        {
            Out r = call([&] { s.v->setval(*o.v); });
            if (r.kind != Kind::Error) violation("conversion", "setting %s from %s: %s", varcode_format(si->code).c_str(), show(o.m).c_str(), r.str().c_str());
            settle(*s.v, s.m, s.m, "after a refused conversion");
            return;
        }
        bool whole = chance(1, 3, "whole");
        if (whole) after.attrs = o.m.attrs;
        arm();
        bool ok = op("setting a value from another variable", [&] { if (whole) s.v->set(*o.v); else s.v->setval(*o.v); });
        if (ok) { s.m = after; count("probe.converted"); }
        else settle(*s.v, s.m, after, "after setting from another variable");
    }

    void compare(Slot& s)
    {
        Slot& o = any("with");
        if (!o.v) return;
        bool eq = false, veq = false, veq2 = false, ne = false; unsigned df = 0, df2 = 0;
        std::ostringstream os;
        bool starve = !preempted && chance(1, 6, "starve");
        if (starve) { alloc::fail_at(1 + draw(6, "alloc-fail-at"), false); }
        Out r = call([&] {
            notes::Collect c(os);
            eq = *s.v == *o.v; ne = *s.v != *o.v; veq = s.v->value_equals(*o.v); veq2 = o.v->value_equals(*s.v); df = s.v->diff(*o.v); df2 = o.v->diff(*s.v);
        });
        bool fired = starve && alloc::fired();
        alloc::disarm();
        if (r.kind == Kind::BadAlloc && fired) return;
        if (!r.ok()) violation("refused", "comparing %s with %s: %s", show(s.m).c_str(), show(o.m).c_str(), r.str().c_str());
        bool want_veq = s.m.v == o.m.v && (!s.m.v.set || is_num(s.m.info) == is_num(o.m.info));
        bool known = !s.m.v.set || !o.m.v.set || s.m.info->type == o.m.info->type || is_num(s.m.info) != is_num(o.m.info);
        // a binary value against a text, or numbers with different scale: not settled
        if (is_num(s.m.info) && is_num(o.m.info) && s.m.info->scale != o.m.info->scale && s.m.v.set && o.m.v.set) known = false;
        if (veq != veq2) violation("asymmetric", "%s and %s: values are %s one way and %s the other", show(s.m).c_str(), show(o.m).c_str(), veq ? "equal" : "different", veq2 ? "equal" : "different");
        if (known && veq != want_veq) violation("equality", "the values of %s and %s are reported as %s", show(s.m).c_str(), show(o.m).c_str(), veq ? "equal" : "different");
        if (eq == ne) violation("equality", "%s and %s are both equal and different", show(s.m).c_str(), show(o.m).c_str());
        if (s.m.info == o.m.info)
        {
            bool same = s.m.v == o.m.v && s.m.attrs == o.m.attrs;
            if (eq != same) violation("equality", "%s and %s are reported as %s", show(s.m).c_str(), show(o.m).c_str(), eq ? "equal" : "different");
            if (same && df) violation("difference", "%s differs from its equal: %s", show(s.m).c_str(), os.str().c_str());
            if (!(s.m.v == o.m.v) && (!df || !df2)) violation("difference", "%s and %s: no difference is found", show(s.m).c_str(), show(o.m).c_str());
            if (s.m.v.set && !same && (!df || !df2)) violation("difference", "%s and %s: no difference is found", show(s.m).c_str(), show(o.m).c_str());
        }
        if (s.m.info->code != o.m.info->code && (eq || !df || !df2)) violation("equality", "%s and %s are reported as the same", show(s.m).c_str(), show(o.m).c_str());
        count("probe.compared");
    }

    // names of codes and kinds, and numbers as a kind of variable rounds them
    void names(Slot& s)
    {
        Varcode c = draw(65536, "code");
        std::string name, back_name; Varcode back = 0, digits = 0;
        Out o = call([&] {
            std::string t = varcode_format(c);
            back = varcode_parse(t.c_str());
            std::string d = t; d[0] = "0123"[WR_VAR_F(c)];
            digits = varcode_parse(d.c_str());
            Host h; name = t.c_str();
        });
        char want[16]; snprintf(want, 16, "%c%02u%03u", "BRCD"[c >> 14], (c >> 8) & 63, c & 255);
        if (!o.ok() || name != want || back != c || digits != c) violation("names", "the code %s is named '%s', which reads as %04x and %04x instead of %04x: %s", want, name.c_str(), back, digits, c, o.str().c_str());
        // cut short, or with something else than digits
        name.resize(draw(6, "cut"));
        if (chance(1, 3, "letter")) { name = want; name[1 + draw(5, "at")] = "A .-z"[draw(5, "letter")]; }
        std::unique_ptr<char[]> exact(new char[name.size() + 1]);
        memcpy(exact.get(), name.c_str(), name.size() + 1);
        Varcode x = 0;
        o = call([&] { x = varcode_parse(exact.get()); });
        if (o.kind != Kind::Error) violation("names", "'%s' is read as the code %04x: %s", name.c_str(), x, o.str().c_str());
        for (Vartype t: {Vartype::Integer, Vartype::Decimal, Vartype::String, Vartype::Binary})
        {
            Vartype b = t;
            o = call([&] { b = vartype_parse(vartype_format(t)); });
            if (!o.ok() || b != t) violation("names", "a kind of variable does not read back from its name '%s': %s", vartype_format(t), o.str().c_str());
        }
        o = call([&] { vartype_parse("strin"); });
        if (o.kind != Kind::Error) violation("names", "a kind that does not exist is accepted: %s", o.str().c_str());
        Varinfo i = s.m.info;
        if (!is_num(i)) return;
        Val v = draw_val(i, "value");
        if (!v.set) return;
        double exact_d = to_d(i, v.i), unit = to_d(i, 1), r = 0, r2 = 0, bin = 0; int e = 0, e2 = 0;
        double near = exact_d + unit * ((int)draw(9, "off") - 4) / 10;
        uint32_t u = 0, u2 = 0;
        int64_t raw = (int64_t)v.i - i->bit_ref;
        bool fits = i->bit_len && raw >= 0 && raw <= 0xffffffffLL;
        o = call([&] {
            r = i->round_decimal(exact_d); r2 = i->round_decimal(near);
            e = i->encode_decimal(exact_d); e2 = i->encode_decimal(near);
            if (fits) { u = i->encode_binary(exact_d); u2 = i->encode_binary(near); bin = i->decode_binary(u); }
        });
        if (!o.ok()) violation("rounding", "%g as %s: %s", near, varcode_format(i->code).c_str(), o.str().c_str());
        double tol = fabs(exact_d) * 1e-12;
        if (fabs(r - exact_d) > tol || fabs(r2 - exact_d) > tol) violation("rounding", "%.12g and %.12g are rounded to %.12g and %.12g with scale %d", exact_d, near, r, r2, i->scale);
        if (e != v.i || e2 != v.i) violation("rounding", "%.12g and %.12g become %d and %d with scale %d", exact_d, near, e, e2, i->scale);
        if (fits && (u != (uint32_t)raw || u2 != u || fabs(bin - exact_d) > tol)) violation("rounding", "%.12g and %.12g become %u and %u, and then %.12g, with scale %d and reference %d", exact_d, near, u, u2, bin, i->scale, i->bit_ref);
        if (i->bit_len)
        {
            double below = to_d(i, 1) * ((double)i->bit_ref - 1 - draw(100, "below"));
            o = call([&] { i->encode_binary(below); });
            if (o.kind != Kind::Error) violation("rounding", "%.12g, below the reference %d, is encoded: %s", below, i->bit_ref, o.str().c_str());
        }
        count("probe.named_and_rounded");
    }

    void subset_op()
    {
        unsigned k = draw(2, "subset");
        std::vector<M>& mm = subm[k];
        std::unique_ptr<Subset>& sb = sub[k];
        std::vector<M> after = mm;
        // a failed operation leaves the subset as it was
        auto done = [&](bool ok, const char* what) { if (ok) mm = after; check_sub(k, what); };
        switch (draw(12, "subset-op"))
        {
            case 11:
            {
                // a subset that takes the place of another brings its tables along
                static const unsigned vers[] = {12, 13, 14, 19, 23};
                unsigned how = draw(6, "how"), ver = vers[draw(5, "version")];
                static const Varcode codes[] = {WR_VAR(0, 1, 1), WR_VAR(0, 12, 101), WR_VAR(0, 1, 19)};
                Varcode code = codes[draw(3, "code")];
                unsigned have = draw(3, "have");
                Varinfo got = nullptr, got2 = nullptr, want = nullptr;
                size_t n = 0;
                bool ok = op("handing over a subset", [&] {
                    Tables other;
                    other.load_bufr(BufrTableID(0, 0, 0, ver, 0));
                    want = other.btable->query(code);
                    Subset a(*tables), b(other);
                    for (unsigned i = 0; i < have; ++i) { b.store_variable_undef(WR_VAR(0, 1, 2)); a.store_variable_undef(WR_VAR(0, 1, 2)); }
                    if (how == 0) a = b;
                    else if (how == 1) a = std::move(b);
                    else if (how == 2) { Subset c(b); a = std::move(c); }
                    else if (how == 3) { std::vector<Subset> v; v.push_back(a); v.push_back(b); v.erase(v.begin()); a = v[0]; }
                    else if (how == 4) std::swap(a, b);
                    else { std::vector<Subset> v(1, a); v.insert(v.begin(), std::move(b)); a = std::move(v[0]); }
                    a.store_variable_undef(code);
                    n = a.size();
                    got = a.back().info();
                    a.store_variable_undef(code);
                    got2 = a.back().info();
                });
                if (ok && (got != want || got2 != want || n != have + 1)) violation("subset", "a subset that took the place of another (%u) makes variables from other tables (%zu variables, had %u)", how, n, have);
                if (ok) count("probe.subset_tables");
                return;
            }
            case 0: case 1:
            {
                Slot& o = any("from");
                if (!o.v) return;
                bool mv = chance(1, 2, "move");
                after.push_back(o.m);
                M om = o.m;
                arm();
                bool ok = op("storing a variable", [&] { if (mv) sb->store_variable(std::move(*o.v)); else sb->store_variable(*o.v); });
                done(ok, "after storing a variable");
                if (mv && ok) { o.m.v = Val(); o.m.attrs.clear(); }
                if (mv && !ok) settle(*o.v, o.m, om, "after storing a variable");
                break;
            }
            case 2: case 3:
            {
                Varinfo i = tab_infos[draw(tab_infos.size(), "info")];
                M m{i, draw_val(i, "value"), {}};
                unsigned how = draw(3, "how");
                after.push_back(m);
                std::string txt = is_num(i) ? std::to_string(m.v.i) : m.v.s;
                double d = m.v.set && is_num(i) ? to_d(i, m.v.i) : 0;
                arm();
                bool ok = op("storing a value", [&] {
                    if (!m.v.set) { if (how % 2) sb->store_variable_undef(i); else sb->store_variable_undef(i->code); }
                    else if (!is_num(i) || how == 2) sb->store_variable_c(i->code, txt.c_str());
                    else if (how == 1) sb->store_variable_d(i->code, d);
                    else sb->store_variable_i(i->code, m.v.i);
                });
                done(ok, "after storing a value");
                break;
            }
            case 4:
            {
                if (mm.empty()) return;
                // remove one in the middle: the ones after it are moved down
                size_t p = draw(mm.size(), "at");
                after.erase(after.begin() + p);
                bool ok = op("removing a variable", [&] { sb->erase(sb->begin() + p); });
                done(ok, "after removing a variable");
                break;
            }
            case 5:
            {
                Slot& o = any("from");
                if (!o.v) return;
                size_t p = draw(mm.size() + 1, "at");
                after.insert(after.begin() + p, o.m);
                bool ok = op("inserting a variable", [&] { sb->insert(sb->begin() + p, *o.v); });
                done(ok, "after inserting a variable");
                break;
            }
            case 6:
            {
                // copy one subset over the other or replace it with a copy
                unsigned how = draw(4, "how");
                std::vector<M> other = subm[1 - k];
                std::unique_ptr<Subset> n;
                bool ok;
                switch (how)
                {
                    case 0: arm(); ok = op("copying a subset", [&] { n.reset(new Subset(*sub[1 - k])); }); if (ok) { Sut u; sb = std::move(n); mm = other; } break;
                    case 1: arm(); ok = op("moving a subset", [&] { n.reset(new Subset(std::move(*sub[1 - k]))); }); if (ok) { Sut u; sb = std::move(n); mm = other; sub[1 - k].reset(new Subset(*tables)); subm[1 - k].clear(); } break;
                    case 2: ok = op("assigning a subset", [&] { *sb = *sub[1 - k]; }); if (ok) mm = other; break;
                    case 3: ok = op("assigning a moved subset", [&] { *sb = std::move(*sub[1 - k]); }); if (ok) { Sut u; mm = other; sub[1 - k].reset(new Subset(*tables)); subm[1 - k].clear(); } break;
                }
                check_sub(k, "after copying a subset");
                check_sub(1 - k, "the other subset, after copying");
                count("probe.subset_copied");
                break;
            }
            case 7:
            {
                // a bitmap for the variables that have a given attribute
                Varinfo ai = attr_infos[draw(3, "attr")];
                for (unsigned n = draw(4, "bitmaps-before"); n > 1; --n)
                {
                    // bitmaps one after the other, which describe no variable
                    { Sut u; sb->append_fixed_dpb(WR_VAR(2, 22, 0), n); }
                    M b{sb->back().info(), Val{true, 0, std::string(n, '+')}, {}};
                    mm.push_back(b); after.push_back(b);
                }
                unsigned nvars = 0;
                for (auto& m: mm) if (WR_VAR_F(m.info->code) == 0) ++nvars;
                unsigned size = chance(1, 2, "more") ? nvars + draw(4, "size") : draw(nvars + 1, "size");
                if (!size) return;
                std::string bm; int want = 0;
                for (auto& m: mm)
                {
                    if (bm.size() >= size) break;
                    if (WR_VAR_F(m.info->code) != 0) continue;
                    bool has = false;
                    for (auto& a: m.attrs) if (a.info->code == ai->code) has = true;
                    bm += has ? '+' : '-';
                    if (has) ++want;
                }
                bm.resize(size, '-');
                int got = -1;
                bool fixed = chance(1, 4, "all-present");
                if (fixed) { bm.assign(size, '+'); want = -1; }
                arm();
                bool ok = op("adding a bitmap", [&] { if (fixed) sb->append_fixed_dpb(WR_VAR(2, 22, 0), size); else got = sb->append_dpb(WR_VAR(2, 22, 0), size, ai->code); });
                if (ok)
                {
                    if (got != want) violation("bitmap", "a bitmap of %u for %s announces %d attributes instead of %d", size, varcode_format(ai->code).c_str(), got, want);
                    Varinfo i = sb->back().info();
                    if (i->code != WR_VAR(2, 22, 0)) violation("bitmap", "the bitmap has code %s", varcode_format(i->code).c_str());
                    after.push_back(M{i, Val{true, 0, bm}, {}});
                    count("probe.bitmap_added");
                }
                done(ok, "after adding a bitmap");
                break;
            }
            case 9:
            {
                // a copy of a variable, under its entry in the table
                Slot& o = any("from");
                if (!o.v || std::find(tab_infos.begin(), tab_infos.end(), o.m.info) == tab_infos.end()) return;
                after.push_back(o.m);
                arm();
                bool ok = op("storing a variable by code", [&] { sb->store_variable(o.m.info->code, *o.v); });
                done(ok, "after storing a variable by code");
                count("probe.stored_by_code");
                break;
            }
            case 10:
            {
                OutStream sink; FILE* f = sink.open_plain();
                Out o = call([&] { sb->print(f); });
                sink.close();
                if (!o.ok()) violation("refused", "printing a subset: %s", o.str().c_str());
                std::string want;
                for (size_t i = 0; i < mm.size(); ++i) want += std::to_string(i) + " " + printed(mm[i]);
                if (sink.data != want) violation("print", "a subset is printed as '%s' instead of '%s'", printable(sink.data, 600).c_str(), printable(want, 600).c_str());
                break;
            }
            case 8:
            {
                bool same = subm[0] == subm[1];
                unsigned d = 0;
                std::ostringstream os;
                Out r = call([&] { notes::Collect c(os); d = sub[0]->diff(*sub[1]); });
                if (!r.ok()) violation("refused", "comparing subsets: %s", r.str().c_str());
                if (same && d) violation("difference", "equal subsets differ: %s", os.str().c_str());
                if (subm[0].size() != subm[1].size() && !d) violation("difference", "subsets of different length do not differ");
                if (subm[0].size() == subm[1].size() && !d)
                    for (size_t i = 0; i < subm[0].size(); ++i)
                    {
                        const M &a = subm[0][i], &b = subm[1][i];
                        if (a.info->code != b.info->code || (a.info == b.info && !(a.v == b.v)) || (a.info == b.info && a.v.set && !(a.attrs == b.attrs)))
                            violation("difference", "no difference is found between subsets that hold %s and %s at %zu", show(a).c_str(), show(b).c_str(), i);
                    }
                break;
            }
        }
        if (mm.size() > 14) { Sut u; while (sb->size() > 6) sb->pop_back(); mm.resize(6, M{nullptr, {}, {}}); }
        count("probe.subset_op");
    }

    // The printed form of a variable
    static std::string line(Varinfo i, const Val& v, bool named = false)
    {
        char code[16]; snprintf(code, 16, "%01d%02d%03d", WR_VAR_FXY(i->code));
        std::string r = (named ? varcode_format(i->code) : std::string(code)) + " " + i->desc + "(" + i->unit + "): ";
        if (!v.set) r += "(undef)";
        else if (is_num(i)) { char b[64]; snprintf(b, 64, "%.*f", std::max(0, i->scale), to_d(i, v.i)); r += b; }
        else if (is_txt(i)) r += v.s.c_str();
        else r += hex(v.s);
        return r + "\n";
    }
    static std::string printed(const M& m, bool named = false)
    {
        std::string r = line(m.info, m.v, named);
        for (auto& a: m.attrs) r += "           " + line(a.info, a.v, named);
        return r;
    }

    void print(Slot& s)
    {
        OutStream sink; FILE* f = sink.open_plain();
        std::ostringstream os;
        Out o = call([&] { s.v->print(f); s.v->print(os); s.v->print_without_attrs(f); });
        sink.close();
        if (!o.ok()) violation("refused", "printing %s: %s", show(s.m).c_str(), o.str().c_str());
        std::string want = printed(s.m) + line(s.m.info, s.m.v);
        if (sink.data != want) violation("print", "a variable is printed as '%s' instead of '%s'", printable(sink.data, 400).c_str(), printable(want, 400).c_str());
        // the same on a C++ stream, where only the line ends are different
        auto bare = [](const std::string& t) { std::string r; for (char c: t) if (!isspace((unsigned char)c)) r += c; return r; };
        want = printed(s.m, true);
        if (bare(os.str()) != bare(want)) violation("print", "a variable is printed as '%s' instead of '%s'", printable(os.str(), 400).c_str(), printable(want, 400).c_str());
    }

    void step()
    {
        // text handed out earlier belongs to this caller until it asks again
        if (text)
        {
            if (text_copy != text) violation("text-changed", "a text read by one thread was '%s' and has become '%s' while another thread was reading", text_copy.c_str(), printable(text, 40).c_str());
            text = nullptr;
            count("probe.text_kept");
        }
        Slot& s = any("slot");
        if (!s.v) { build(s); return; }
        unsigned what = draw(15, "op");
        switch (what)
        {
            case 0: build(s); break;
            case 1: case 2: set_value(s); break;
            case 3: case 4: attribute(s); break;
            case 5: case 6: copy(s); break;
            case 7: convert(s); break;
            case 8: compare(s); break;
            case 9: out_of_domain(s); break;
            case 10: case 11: case 12: subset_op(); break;
            case 13: print(s); break;
            case 14: names(s); break;
        }
        ev("t%u op %u", id, what);
        check_all("after an operation");
        if (s.v && s.m.v.set && is_num(s.m.info) && chance(1, 2, "keep-text"))
        {
            Out o = call([&] { text = s.v->enqc(); });
            if (!o.ok()) violation("unreadable", "reading text: %s", o.str().c_str());
            text_copy = std::to_string(s.m.v.i);
        }
    }

    void run(unsigned steps)
    {
        slots.resize(2 + draw(3, "slots"));
        { Sut u; tables.reset(new Tables); tables->load_bufr(BufrTableID(0, 0, 0, 24, 0)); sub[0].reset(new Subset(*tables)); sub[1].reset(new Subset(*tables)); }
        for (unsigned i = 0; i < steps; ++i) { step(); yield_point("between operations"); }
        for (unsigned k = 0; k < 2; ++k) check_sub(k, "at the end");
        check_all("at the end");
        uint64_t h = 0;
        for (auto& s: slots) if (s.v) h = fnv(show(s.m), h);
        hash_bytes(&h, 8);
        Sut u;
        for (auto& s: slots) s.v.reset();
        sub[0].reset(); sub[1].reset();
        tables.reset();
    }
};

void run_p11()
{
    static const int fills[] = {0xa5, 0x00, 0xff};
    alloc::set_fill(fills[draw(3, "fill")]);
    unsigned n = chance(1, 3, "threads") ? 2 : 1;
    unsigned steps = 4 + draw(40, "steps");
    alloc::record_sites(true);
    std::vector<std::function<void()>> tasks;
    for (unsigned i = 0; i < n; ++i)
        tasks.push_back([i, steps] {
            Task t; t.id = i;
            t.run(steps);
        });
    alloc::Mark m = alloc::mark();
    preempted = n > 1 && chance(1, 2, "preempt");
    if (preempted) { set_preempt(true); count("probe.preempted"); }
    run_tasks(tasks, 1, 2);
    set_preempt(false);
    alloc::Mark e = alloc::mark();
    int64_t kept = e.live_objs - m.live_objs;
    if (kept) violation("leak", "%lld objects (%lld bytes) remain after all the variables are gone %s", (long long)kept, (long long)(e.live_bytes - m.live_bytes), alloc::describe_live_since(m.seq).c_str());
    if (n > 1) count("probe.threads");
    nontrivial();
}

}

SIM_SCENARIO(P11, prepare, run_p11)
