#include "crexpeer.h"
#include "lib.h"
#include <wreport/bulletin.h>
#include <wreport/vartable.h>
#include <wreport/tables.h>
#include <algorithm>
#include <climits>

namespace sim { namespace crexpeer {

using peer::mk; using peer::F; using peer::X; using peer::Y; using peer::fxy;

namespace {
struct Elem { bool str; int scale; unsigned len; };
struct Tab
{
    unsigned edition, version;
    std::map<Code, Elem> b;
    std::map<Code, std::vector<Code>> d;
    std::vector<Code> num, str, seq;
};
std::vector<Tab> tabs, more;

std::string trim(const std::string& s)
{
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char)s[a])) ++a;
    while (b > a && isspace((unsigned char)s[b - 1])) --b;
    return s.substr(a, b - a);
}

int64_t number(const std::string& s)
{
    int64_t r = 0; bool neg = false;
    for (char c: s) { if (c == '-') neg = true; else if (isdigit((unsigned char)c)) r = r * 10 + (c - '0'); else if (r) break; }
    return neg ? -r : r;
}

std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r;
    size_t p = 0;
    while (p < s.size())
    {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) e = s.size();
        std::string l = s.substr(p, e - p);
        while (!l.empty() && l.back() == '\r') l.pop_back();
        r.push_back(l);
        p = e + 1;
    }
    return r;
}

int letter(char c) { return c == 'B' ? 0 : c == 'R' ? 1 : c == 'C' ? 2 : c == 'D' ? 3 : -1; }

// how many values a list of descriptors may give; 0: not usable here
unsigned usable(const Tab& t, const std::vector<Code>& ops, unsigned depth)
{
    if (depth > 8) return 0;
    unsigned n = 0;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        Code c = ops[i];
        unsigned m = 0;
        switch (F(c))
        {
            case 0:
                if (!t.b.count(c) || X(c) == 31) return 0;
                m = 1;
                break;
            case 1:
            {
                size_t j = i + 1;
                if (Y(c) == 0)
                {
                    if (j < ops.size() && F(ops[j]) == 0 && X(ops[j]) == 31)
                    {
                        if (ops[j] != mk(0, 31, 0) && ops[j] != mk(0, 31, 1) && ops[j] != mk(0, 31, 2)) return 0;
                        if (!t.b.count(ops[j])) return 0;
                        ++j;
                    }
                    ++n;
                }
                if (j + X(c) > ops.size()) return 0;
                m = usable(t, std::vector<Code>(ops.begin() + j, ops.begin() + j + X(c)), depth + 1);
                if (!m) return 0;
                m *= Y(c) ? Y(c) : 2;
                i = j + X(c) - 1;
                break;
            }
            case 2: return 0;
            case 3:
            {
                auto d = t.d.find(c);
                if (d == t.d.end()) return 0;
                m = usable(t, d->second, depth + 1);
                if (!m) return 0;
                break;
            }
        }
        n += m;
        if (n > 60) return 0;
    }
    return n;
}
}

void prepare()
{
    Host h;
    if (!tabs.empty()) return;
    for (auto ev: std::vector<std::pair<unsigned, unsigned>>{{1, 3}, {2, 3}, {1, 1}})
    {
        char name[64];
        snprintf(name, 64, "/tables/B00%02u%02u.txt", ev.first, ev.second);
        std::string b = slurp_real(repo_dir() + name);
        name[8] = 'D';
        std::string d = slurp_real(repo_dir() + name);
        if (b.empty() || d.empty()) continue;
        Tab t;
        t.edition = ev.first; t.version = ev.second;
        for (auto& l: lines(b))
        {
            if (l.size() < 150) continue;
            Code c = mk(0, number(l.substr(2, 2)), number(l.substr(4, 3)));
            Elem e;
            e.str = trim(l.substr(119, 24)) == "CHARACTER";
            e.scale = number(l.substr(143, 4));
            e.len = number(l.substr(149));
            if (e.len == 0) continue;
            t.b[c] = e;
            if (X(c) != 31) (e.str ? t.str : t.num).push_back(c);
        }
        Code cur = 0;
        for (auto& l: lines(d))
        {
            if (l.size() < 17) continue;
            if (l[1] == 'D') { cur = mk(3, number(l.substr(2, 2)), number(l.substr(4, 3))); t.d[cur]; }
            int f = letter(l[11]);
            if (f < 0 || !cur) continue;
            t.d[cur].push_back(mk(f, number(l.substr(12, 2)), number(l.substr(14, 3))));
        }
        for (auto& s: t.d) if (usable(t, s.second, 0)) t.seq.push_back(s.first);
        tabs.push_back(t);
    }
    if (tabs.empty() || tabs[0].num.size() < 100 || tabs[0].seq.size() < 10) harness_error("no CREX tables under %s", repo_dir().c_str());
}

namespace {
int64_t p10(unsigned n) { int64_t r = 1; while (n--) r *= 10; return r; }

struct Producer
{
    const Tab& t;
    CMsg& m;
    XSubset& out;
    std::vector<std::string>& words;     // text of each value, without check digit
    unsigned max_vars;
    std::vector<Code> stack;

    void number_word(int64_t v, unsigned len)
    {
        char b[64];
        snprintf(b, 64, "%s%0*lld", v < 0 ? "-" : "", (int)len, (long long)(v < 0 ? -v : v));
        words.push_back(b);
    }

    void element(Code c)
    {
        const Elem& e = t.b.at(c);
        XVar x;
        x.code = c; x.base_info = true; x.bits = 0; x.ref = 0; x.scale = e.str ? 0 : e.scale;
        x.kind = e.str ? XVar::STR : XVar::NUM;
        x.set = !chance(1, 5, "missing");
        if (!x.set) { words.push_back(std::string(e.len, '/')); x.path = stack; out.push_back(x); return; }
        if (e.str)
        {
            unsigned n = 1 + draw(e.len, "strlen");
            static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.,;:!?()-_*#&%$@=<>[]{}^~|\\'\"`";
            if (chance(1, 6, "odd-string"))
            {
                // text that looks like structure
                static const char odd[] = "/+ 7-EBDRCT";
                for (unsigned i = 0; i < n; ++i) x.s += odd[draw(sizeof(odd) - 1, "char")];
            } else
                for (unsigned i = 0; i < n; ++i) x.s += chance(1, 10, "space") ? ' ' : alpha[draw(sizeof(alpha) - 1, "char")];
            if (x.s[0] == ' ') x.s[0] = 'a';
            if (x.s.find_first_not_of("/ ") == std::string::npos) x.s[0] = 'b';
            std::string padded = x.s;
            padded.resize(e.len, ' ');
            words.push_back(padded);
            while (!x.s.empty() && x.s.back() == ' ') x.s.pop_back();
            m.uses_str = true;
        } else {
            int64_t lo = -(p10(std::min(e.len, 10u)) - 1), hi = p10(std::min(e.len, 10u)) - 2;
            if (e.len >= 10) { lo = INT_MIN + 1; hi = INT_MAX; }
            switch (draw(6, "value"))
            {
                case 0: x.ival = std::min<int64_t>(hi, draw(10, "small")); break;
                case 1: x.ival = hi; break;
                case 2: x.ival = lo; break;
                case 3: x.ival = -std::min<int64_t>(-lo, draw(10, "small")); break;
                default: x.ival = lo + (int64_t)(draw64("value") % (uint64_t)(hi - lo + 1)); break;
            }
            if (x.ival < 0) m.uses_neg = true;
            number_word(x.ival, e.len);
        }
        x.path = stack;
        out.push_back(x);
    }

    void run(const std::vector<Code>& ops)
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            Code c = ops[i];
            switch (F(c))
            {
                case 0: element(c); break;
                case 1:
                {
                    unsigned n = Y(c);
                    stack.push_back(c);
                    size_t j = i + 1;
                    if (n == 0)
                    {
                        Code fc = mk(0, 31, 12);
                        if (j < ops.size() && F(ops[j]) == 0 && X(ops[j]) == 31) fc = ops[j++];
                        unsigned width = fc == mk(0, 31, 0) ? t.b.at(fc).len : 4;
                        if (fc == mk(0, 31, 0)) n = draw(2, "factor");
                        else if (out.size() < max_vars) n = chance(1, 12, "big-factor") ? draw(40, "factor") : draw(4, "factor");
                        number_word(n, width);
                        XVar x;
                        x.code = fc; x.base_info = true; x.kind = XVar::NUM; x.set = true; x.ival = n; x.bits = 0; x.ref = 0; x.scale = 0;
                        x.path = stack;
                        out.push_back(x);
                    }
                    m.uses_repl = true;
                    std::vector<Code> body(ops.begin() + j, ops.begin() + j + X(c));
                    for (unsigned k = 0; k < n; ++k) run(body);
                    stack.pop_back();
                    i = j + X(c) - 1;
                    break;
                }
                case 3: m.uses_seq = true; stack.push_back(c); run(t.d.at(c)); stack.pop_back(); break;
            }
        }
    }
};

void draw_ops(const Tab& t, std::vector<Code>& ops, unsigned n, unsigned depth)
{
    for (unsigned i = 0; i < n; ++i)
        switch (draw(10, "descriptor"))
        {
            case 0: case 1: case 2: case 3: ops.push_back(pick(t.num, "element")); break;
            case 4: case 5: ops.push_back(pick(t.str, "element")); break;
            case 6: case 7:
                ops.push_back(pick(t.seq, "sequence"));
                break;
            default:
            {
                if (depth >= 3) { ops.push_back(pick(t.num, "element")); break; }
                std::vector<Code> body;
                draw_ops(t, body, 1 + draw(3, "body"), depth + 1);
                ops.push_back(mk(1, body.size(), chance(1, 2, "delayed") ? 0 : 1 + draw(3, "times")));
                // the body counts descriptors, not values
                ops.insert(ops.end(), body.begin(), body.end());
            }
        }
}

// Any layout a producer may choose between groups
std::string gap(bool free)
{
    if (!free) return " ";
    switch (draw(4, "gap"))
    {
        case 0: return " ";
        case 1: return "\r\r\n";
        case 2: return "  ";
        default: return "\n";
    }
}
}

unsigned other_master = 0;

// Text longer than any in the tables that come with the library
static const unsigned long_text[] = { 200, 253, 254, 255, 256, 257, 300, 999 };

std::string more_elements()
{
    std::string r;
    for (unsigned i = 0; i < 8; ++i)
    {
        std::string l(157, ' ');
        char b[16];
        snprintf(b, 16, "063%03u", i + 1); l.replace(1, 6, b);
        l.replace(8, 9, "LONG TEXT"); l.replace(73, 8, "CCITTIA5"); l.replace(119, 9, "CHARACTER");
        l[100] = l[113] = l[145] = '0';
        snprintf(b, 16, "%4u", long_text[i] * 8 % 1000); l.replace(114, 4, b);
        snprintf(b, 16, "%8u", long_text[i]); l.replace(149, 8, b);
        r += l + "\n";
    }
    return r;
}

CMsg draw_message(unsigned max_vars, unsigned max_subsets)
{
    CMsg m;
    if (other_master && draw(4, "master") == 3) m.master = other_master;
    if (m.master && more.empty())
    {
        more = tabs;
        for (auto& x: more)
            for (unsigned i = 0; i < 8; ++i)
            {
                Elem e; e.str = true; e.scale = 0; e.len = long_text[i];
                Code c = mk(0, 63, i + 1);
                x.b[c] = e;
                x.str.insert(x.str.begin(), c); x.str.push_back(c);
            }
    }
    const Tab& t = (m.master ? more : tabs)[draw(tabs.size(), "tables")];
    m.edition = t.edition; m.version = t.version;
    m.category = chance(1, 3, "category") ? draw(256, "category") : draw(13, "category");
    m.subcat = chance(1, 2, "has-subcat") ? draw(255, "subcat") : 255;
    m.check_digit = chance(1, 3, "check-digit");
    for (unsigned tries = 0; ; ++tries)
    {
        m.desc.clear();
        draw_ops(t, m.desc, 1 + draw(6, "ndesc"), 0);
        unsigned n = usable(t, m.desc, 0);
        if (n && n <= max_vars) break;
        if (tries == 4) { m.desc.assign(1, t.num[0]); break; }
    }
    unsigned nsub = 1 + draw(max_subsets, "subsets");
    std::vector<std::vector<std::string>> words;
    for (unsigned i = 0; i < nsub; ++i)
    {
        m.subsets.emplace_back();
        words.emplace_back();
        Producer p{t, m, m.subsets.back(), words.back(), max_vars};
        p.run(m.desc);
    }
    auto assemble = [&](bool canon) {
        char b[64];
        bool free = !canon && chance(1, 2, "free-layout");
        std::string s = "CREX++";
        s += free ? gap(true) : "\r\r\n";
        snprintf(b, 64, "T%02u%02u%02u", m.master, m.edition, m.version);
        s += b; s += gap(free);
        snprintf(b, 64, m.subcat == 255 ? "A%03u" : "A%03u%03u", m.category, m.subcat);
        s += b;
        for (Code c: m.desc) { s += gap(free); snprintf(b, 64, "%c%02u%03u", "BRCD"[F(c)], X(c), Y(c)); s += b; }
        if (m.check_digit) { s += gap(free); s += "E"; }
        s += "++"; s += free ? gap(true) : "\r\r\n";
        unsigned digit = 1;
        bool first = true;
        for (auto& w: words)
        {
            if (!first) s += free ? "+" + gap(true) : "+\r\r\n";
            first = false;
            bool f = true;
            for (auto& v: w)
            {
                if (canon || !f || chance(1, 2, "lead")) s += gap(free);
                f = false;
                if (m.check_digit) { s += '0' + digit; digit = (digit + 1) % 10; }
                s += v;
            }
        }
        s += "++";
        s += "\r\r\n";
        if (free && chance(1, 3, "supp"))
        {
            s += "SUPP";
            unsigned n = draw(20, "supp-len");
            for (unsigned i = 0; i < n; ++i) s += "ABC 123+/\n"[draw(10, "supp")];
            // the section ends at the first two plus signs
            for (size_t p = s.rfind("SUPP") + 4; p + 1 < s.size(); ++p) if (s[p] == '+' && s[p + 1] == '+') s[p] = ' ';
            if (s.back() == '+') s.back() = ' ';
            s += "++\r\r\n";
        }
        s += "7777";
        if (canon) s += "\r\r\n";
        return s;
    };
    m.canon = assemble(true);
    m.wire = assemble(false);
    return m;
}

std::string CMsg::describe() const
{
    char b[64];
    snprintf(b, 64, "T%02u%02u%02u A%03u/%u%s %zu subsets:", master, edition, version, category, subcat, check_digit ? " E" : "", subsets.size());
    std::string r = b;
    for (Code c: desc) r += " " + fxy(c);
    return r;
}

std::string compare(const wreport::CrexBulletin& b, const CMsg& m)
{
    char t[1024];
#define H(field, want) if ((unsigned)b.field != (unsigned)(want)) { snprintf(t, 1024, #field " is %u instead of %u", (unsigned)b.field, (unsigned)(want)); return t; }
    H(master_table_number, m.master) H(edition_number, m.edition) H(master_table_version_number, m.version)
    H(data_category, m.category) H(data_subcategory, m.subcat) H(has_check_digit, m.check_digit)
#undef H
    if (b.datadesc != m.desc) return "data descriptors differ";
    if (b.subsets.size() != m.subsets.size()) { snprintf(t, 1024, "%zu subsets instead of %zu", b.subsets.size(), m.subsets.size()); return t; }
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        const wreport::Subset& s = b.subsets[i];
        const XSubset& x = m.subsets[i];
        for (size_t j = 0; j < x.size() && j < s.size(); ++j)
        {
            std::string r = peer::compare_var(s[j], x[j]);
            if (r.empty() && s[j].next_attr()) r = fxy(x[j].code) + " has an attribute that was not sent";
            if (!r.empty()) { snprintf(t, 1024, "subset %zu value %zu: %s", i, j, r.c_str()); return t; }
        }
        if (s.size() != x.size()) { snprintf(t, 1024, "subset %zu has %zu values instead of %zu", i, s.size(), x.size()); return t; }
    }
    return "";
}

void build(wreport::CrexBulletin& b, const CMsg& m)
{
    b.master_table_number = m.master; b.edition_number = m.edition; b.master_table_version_number = m.version;
    b.master_table_version_number_bufr = 0; b.master_table_version_number_local = 0;
    b.data_category = m.category; b.data_subcategory = m.subcat;
    b.data_subcategory_local = m.subcat == 255 ? 0 : 255;   // not carried by CREX: what decoding gives
    b.has_check_digit = m.check_digit;
    b.load_tables();
    b.datadesc.assign(m.desc.begin(), m.desc.end());
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        wreport::Subset& s = b.obtain_subset(i);
        for (auto& x: m.subsets[i])
        {
            wreport::Var v(b.tables.btable->query(x.code));
            peer::set_value(v, x);
            s.store_variable(std::move(v));
        }
    }
}

}}
