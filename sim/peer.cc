#include "peer.h"
#include "lib.h"
#include <wreport/bulletin.h>
#include <wreport/vartable.h>
#include <wreport/tables.h>
#include <algorithm>
#include <cmath>
#include <climits>

namespace sim { namespace peer {

std::string fxy(Code c)
{
    char b[16]; snprintf(b, 16, "%u%02u%03u", F(c), X(c), Y(c)); return b;
}

void XVar::put_attr(const XVar& a)
{
    for (auto& o: attrs) if (o.code == a.code) { o = a; return; }
    attrs.push_back(a);
}

// ---------------------------------------------------------------- tables

static std::map<unsigned, TableSet> tabs;
static std::vector<unsigned> vers;
const TableSet& table(unsigned v) { return tabs.at(v); }
const std::vector<unsigned>& versions() { return vers; }

static std::string trim(const std::string& s)
{
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char)s[a])) ++a;
    while (b > a && isspace((unsigned char)s[b - 1])) --b;
    return s.substr(a, b - a);
}

// A number in a column: the sign may be detached from the digits
static int64_t field_at(const std::string& l, size_t pos)
{
    while (pos < l.size() && l[pos] == ' ') ++pos;
    bool neg = pos < l.size() && l[pos] == '-';
    if (neg) { ++pos; while (pos < l.size() && l[pos] == ' ') ++pos; }
    int64_t r = 0;
    while (pos < l.size() && isdigit((unsigned char)l[pos])) r = r * 10 + (l[pos++] - '0');
    return neg ? -r : r;
}

static Code parse_code(const std::string& s)   // FXXYYY
{
    return mk(s[0] - '0', atoi(s.substr(1, 2).c_str()), atoi(s.substr(3, 3).c_str()));
}

// Can this be used wherever a sequence may appear, whatever the operators in
// force?  Returns the largest number of values it may produce, 0 if not usable
static unsigned usable_seq(const TableSet& t, const std::vector<Code>& ops, unsigned depth)
{
    if (depth > 8) return 0;
    unsigned n = 0;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        Code c = ops[i];
        switch (F(c))
        {
            case 0:
            {
                auto e = t.b.find(c);
                if (e == t.b.end() || X(c) == 31 || X(c) == 33 || X(c) == 0) return 0;
                if (!e->second.str && (e->second.bits == 0 || e->second.bits > 32)) return 0;
                if (e->second.str && e->second.bits % 8) return 0;
                ++n;
                break;
            }
            case 1:
            {
                unsigned x = X(c), y = Y(c);
                size_t j = i + 1;
                if (y == 0)
                {
                    if (j >= ops.size() || (ops[j] != mk(0, 31, 0) && ops[j] != mk(0, 31, 1) && ops[j] != mk(0, 31, 2))) return 0;
                    ++j; ++n;
                }
                if (j + x > ops.size()) return 0;
                std::vector<Code> body(ops.begin() + j, ops.begin() + j + x);
                unsigned m = usable_seq(t, body, depth + 1);
                if (!m) return 0;
                n += m * (y ? y : 2);
                i = j + x - 1;
                break;
            }
            case 2: return 0;
            case 3:
            {
                auto d = t.d.find(c);
                if (d == t.d.end()) return 0;
                unsigned m = usable_seq(t, d->second, depth + 1);
                if (!m) return 0;
                n += m;
                break;
            }
        }
        if (n > 60) return 0;
    }
    return n;
}

static void load_version(unsigned v)
{
    char name[64];
    snprintf(name, 64, "/tables/B00000000000000%02u000.txt", v);
    std::string b = slurp_real(repo_dir() + name);
    snprintf(name, 64, "/tables/D00000000000000%02u000.txt", v);
    std::string d = slurp_real(repo_dir() + name);
    if (b.empty() || d.empty()) return;
    TableSet& t = tabs[v];
    t.version = v;
    size_t p = 0;
    while (p < b.size())
    {
        size_t e = b.find('\n', p);
        if (e == std::string::npos) e = b.size();
        std::string l = b.substr(p, e - p);
        p = e + 1;
        if (l.size() < 118) continue;
        Elem x;
        x.code = parse_code(l.substr(1, 6));
        x.unit = trim(l.substr(73, 24));
        x.str = x.unit == "CCITTIA5";
        x.table = x.unit.compare(0, 4, "CODE") == 0 || x.unit.compare(0, 4, "FLAG") == 0;
        x.scale = field_at(l, 98);
        x.ref = field_at(l, 102);
        x.bits = field_at(l, 115);
        t.b[x.code] = x;
    }
    p = 0;
    Code cur = 0;
    while (p < d.size())
    {
        size_t e = d.find('\n', p);
        if (e == std::string::npos) e = d.size();
        std::string l = d.substr(p, e - p);
        p = e + 1;
        if (l.size() < 17) continue;
        if (l[1] == '3') cur = parse_code(l.substr(1, 6));
        if (!cur) continue;
        t.d[cur].push_back(parse_code(l.substr(11, 6)));
    }
    for (auto& i: t.b)
    {
        const Elem& x = i.second;
        if (X(x.code) == 31 || X(x.code) == 0) continue;
        if (x.str) { if (x.bits >= 8 && x.bits % 8 == 0) t.str.push_back(x.code); continue; }
        if (x.bits == 0 || x.bits > 32) continue;
        if (X(x.code) == 33) { if (x.table || x.unit == "%") t.qual.push_back(x.code); continue; }
        if (x.table) t.codeflag.push_back(x.code); else t.num.push_back(x.code);
    }
    for (auto& i: t.d)
        if (usable_seq(t, i.second, 0)) t.seq.push_back(i.first);
    if (t.num.size() < 100 || t.str.size() < 5 || t.qual.size() < 4 || t.seq.size() < 20)
        harness_error("cannot make sense of the tables for version %u (%zu %zu %zu %zu)", v, t.num.size(), t.str.size(), t.qual.size(), t.seq.size());
    vers.push_back(v);
}

void prepare()
{
    Host h;
    if (!vers.empty()) return;
    for (unsigned v: {24u, 14u, 33u, 12u, 28u, 19u}) load_version(v);
    if (vers.size() < 3) harness_error("master tables not found");
}

// ---------------------------------------------------------------- bits

struct Bits
{
    std::string out;
    unsigned nbits = 0;
    void put(uint64_t v, unsigned n)
    {
        for (unsigned i = n; i-- > 0; )
        {
            unsigned bit = i < 64 ? (v >> i) & 1 : 0;
            if (nbits % 8 == 0) out += '\0';
            if (bit) out.back() = (char)((uint8_t)out.back() | (0x80 >> (nbits % 8)));
            ++nbits;
        }
    }
    void ones(unsigned n) { for (unsigned i = 0; i < n; ++i) put(1, 1); }
    void bytes(const std::string& s) { for (unsigned char c: s) put(c, 8); }
};

// One transmitted field
struct Field
{
    unsigned bits = 0;
    bool is_str = false;
    bool missing = false;
    uint64_t raw = 0;           // number on the wire
    uint64_t canon = 0;         // number in the canonical encoding
    bool canon_missing = false;
    std::string s;              // wire bytes (is_str)
    std::string canon_s;
    bool uniform = false;       // may not vary across subsets when compressed
    bool af = false;
    unsigned tail_bits = 0;     // BIN fields: bits in the last partial byte
};

static uint64_t ones(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }

static void write_plain(Bits& o, const Field& f, bool canon)
{
    if (f.is_str)
    {
        const std::string& s = canon ? f.canon_s : f.s;
        if (f.tail_bits)
        {
            for (size_t i = 0; i + 1 < s.size(); ++i) o.put((uint8_t)s[i], 8);
            o.put((uint8_t)s.back(), f.tail_bits);
        } else
            o.bytes(s);
        return;
    }
    bool miss = canon ? f.canon_missing : f.missing;
    if (miss) o.ones(f.bits); else o.put(canon ? f.canon : f.raw, f.bits);
}

static void write_compressed(Bits& o, const std::vector<const Field*>& col)
{
    const Field& f0 = *col[0];
    bool same = true;
    for (auto f: col)
        if (f->is_str ? f->s != f0.s : (f->missing != f0.missing || (!f->missing && f->raw != f0.raw))) same = false;
    if (f0.is_str)
    {
        unsigned chars = f0.bits / 8;
        if (same && (chars > 63 || !chance(1, 5, "string-increments-anyway")))
        {
            o.bytes(f0.s);
            o.put(0, 6);
            return;
        }
        // how many characters the longest value needs
        unsigned need = 1;
        for (auto f: col)
        {
            bool miss = f->s == std::string(f->s.size(), '\xff');
            if (miss) continue;
            size_t n = f->s.size();
            while (n > 1 && (f->s[n - 1] == ' ' || f->s[n - 1] == 0)) --n;
            if (n > need) need = n;
        }
        unsigned n = std::min(63u, chars);
        if (need < n) n = need + draw(n - need + 1, "string-increment-chars");
        if (draw(3, "string-base") == 2) o.bytes(f0.s); else o.bytes(std::string(chars, '\0'));
        o.put(n, 6);
        for (auto f: col) o.bytes(f->s.substr(0, n));
        return;
    }
    if (same)
    {
        bool redundant = !f0.uniform && !f0.af && chance(1, 6, "redundant-increments");
        if (!redundant)
        {
            if (f0.missing) o.ones(f0.bits); else o.put(f0.raw, f0.bits);
            o.put(0, 6);
            return;
        }
    }
    if (f0.uniform) harness_error("a uniform field varies across subsets");
    uint64_t lo = ~0ull, hi = 0;
    bool any = false;
    for (auto f: col) if (!f->missing) { any = true; lo = std::min(lo, f->raw); hi = std::max(hi, f->raw); }
    if (!any) { lo = 0; hi = 0; }
    // the base may be below the smallest value
    if (lo > 0 && chance(1, 4, "low-base")) lo -= std::min<uint64_t>(lo, draw(4, "low-base-by"));
    unsigned n = 1;
    while (hi - lo >= ones(n)) ++n;
    unsigned maxn = f0.af ? 32 : 32;
    if (n < maxn && chance(1, 4, "wide-increments")) n += draw(std::min(maxn - n, 8u) + 1, "increment-bits");
    o.put(lo, f0.bits);
    o.put(n, 6);
    for (auto f: col)
        if (f->missing) o.ones(n); else o.put(f->raw - lo, n);
}

// ---------------------------------------------------------------- producer

static int64_t p10(unsigned n) { int64_t r = 1; while (n--) r *= 10; return r; }

// Range of values an element can carry, as scaled integers.  The library
// keeps values in as many decimal digits as the bits need.
static bool value_range(Code, unsigned bits, int64_t ref, int64_t& lo, int64_t& hi)
{
    unsigned digits = 0;
    { int64_t v = bits >= 34 ? INT64_MAX : (int64_t)1 << bits; while (v) { ++digits; v /= 10; } }
    lo = ref; hi = ref + (int64_t)ones(bits) - 1;
    if (digits < 10)
    {
        lo = std::max(lo, -(p10(digits) - 1));
        hi = std::min(hi, p10(digits) - 2);
    }
    lo = std::max<int64_t>(lo, INT_MIN + 1);
    hi = std::min<int64_t>(hi, INT_MAX);
    return lo <= hi;
}

struct Plan
{
    // for each bitmap in order: size (0: delayed, any) and how many values are present
    struct Bm { unsigned size; int present; bool full; };
    std::vector<Bm> bitmaps;
};

struct Producer
{
    const TableSet& t;
    XMsg& m;
    const Plan& plan;
    const Opts& o;
    std::vector<unsigned> cols;              // subsets being produced together
    std::vector<std::vector<Field>>& fields; // per subset
    // operators in force
    int width = 0, scale = 0, inc = 0;
    unsigned strlen_ = 0;
    unsigned c03_bits = 0;
    std::map<Code, int64_t> c03;
    unsigned af_bits = 0, af_sig = 63;
    Code pending = 0;
    // bitmap in use
    struct Bitmap { std::vector<unsigned> refs; size_t next = 0; };
    bool active = false, have_last = false;
    Bitmap cur, last;
    size_t bitmap_no = 0;
    unsigned produced = 0;
    std::vector<Code> stack;

    void store(size_t i, XVar x) { x.path = stack; sub(i).push_back(x); }

    Producer(const TableSet& t, XMsg& m, const Plan& plan, const Opts& o, std::vector<unsigned> cols, std::vector<std::vector<Field>>& fields)
        : t(t), m(m), plan(plan), o(o), cols(std::move(cols)), fields(fields) {}

    XSubset& sub(unsigned i) { return m.subsets[cols[i]]; }

    void encoding(Code c, XVar& x)
    {
        const Elem& e = t.b.at(c);
        x.code = c; x.scale = e.scale; x.ref = e.ref; x.bits = e.bits;
        x.kind = e.str ? XVar::STR : XVar::NUM;
        if (e.str) { if (strlen_) x.bits = strlen_ * 8; }
        else if (!e.table)
        {
            x.scale += scale + inc;
            x.bits += width + (inc ? (10 * inc + 2) / 3 : 0);
            if (inc) x.ref *= p10(inc);
        }
        auto r = c03.find(c);
        if (r != c03.end()) x.ref = r->second;
        x.base_info = x.scale == e.scale && x.ref == e.ref && x.bits == e.bits;
    }

    int64_t draw_num(const XVar& x, int64_t lo, int64_t hi)
    {
        uint64_t span = (uint64_t)(hi - lo) + 1;
        switch (o.edges ? draw(6, "value-kind") : 5)
        {
            case 0: return lo;
            case 1: return hi;
            case 2: return std::min<int64_t>(std::max<int64_t>(0, lo), hi);
            case 3: return lo + (int64_t)draw(std::min<uint64_t>(span, 16), "value-low");
            case 4: return hi - (int64_t)draw(std::min<uint64_t>(span, 16), "value-high");
            default: return lo + (int64_t)(span > 0x7fffffff ? draw64("value") % span : draw(span, "value"));
        }
    }

    std::string draw_str(unsigned chars)
    {
        unsigned n;
        switch (draw(4, "string-size"))
        {
            case 0: n = 1; break;
            case 1: n = chars; break;
            default: n = 1 + draw(chars, "string-len"); break;
        }
        std::string s;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned v = draw(80, "string-char");
            if (v < 26) s += 'A' + v;
            else if (v < 52) s += 'a' + v - 26;
            else if (v < 62) s += '0' + v - 52;
            else if (v < 70) s += ' ';
            else s += "_-/\xc3\xa0.+,:7"[v - 70];
        }
        if (s.back() == ' ') s.back() = '.';
        return s;
    }

    // draw the values of one element for all columns
    void draw_values(const XVar& proto, std::vector<XVar>& vals, bool never_missing = false, bool uniform = false)
    {
        vals.assign(cols.size(), proto);
        int64_t lo = 0, hi = 0;
        if (X(proto.code) == 31) never_missing = true;
        bool can = proto.kind != XVar::NUM || value_range(proto.code, proto.bits, proto.ref, lo, hi);
        unsigned mode = cols.size() > 1 ? draw(5, "column-mode") : 2;   // 0 all same, 1 all missing, 2+ independent
        for (size_t i = 0; i < vals.size(); ++i)
        {
            XVar& x = vals[i];
            if (i && (mode <= 1 || uniform)) { x = vals[0]; continue; }
            if (!can || (!never_missing && (mode == 1 || chance(1, 8, "missing")))) { x.set = false; continue; }
            x.set = true;
            if (x.kind == XVar::NUM)
            {
                if (i && vals[0].set && mode == 3)
                    x.ival = std::min(hi, std::max(lo, vals[0].ival + (int64_t)draw(9, "near") - 4));
                else
                    x.ival = draw_num(x, lo, hi);
            }
            else
                x.s = draw_str(m.compressed ? std::min(63u, x.bits / 8) : x.bits / 8);
        }
        // an all-ones increment means missing to every decoder, so nothing else to avoid here
    }

    Field field_of(const XVar& x)
    {
        Field f;
        f.bits = x.bits;
        if (x.kind == XVar::NUM)
        {
            f.missing = f.canon_missing = !x.set;
            f.raw = f.canon = x.set ? (uint64_t)(x.ival - x.ref) : 0;
        } else if (x.kind == XVar::STR) {
            f.is_str = true;
            unsigned n = x.bits / 8;
            if (!x.set) f.s = f.canon_s = std::string(n, '\xff');
            else
            {
                f.canon_s = x.s + std::string(n - x.s.size(), ' ');
                bool nul = n > x.s.size() && chance(1, 8, "nul-padding");
                f.s = nul ? x.s + std::string(n - x.s.size(), '\0') : f.canon_s;
            }
        }
        return f;
    }

    void emit(size_t i, const Field& f) { fields[cols[i]].push_back(f); }

    void variable(Code c)
    {
        if (c03_bits)
        {
            // a new reference value for this element
            const Elem& e = t.b.at(c);
            int64_t lim = std::min<int64_t>((int64_t)ones(c03_bits - 1), 1000000);
            int64_t v;
            switch (draw(4, "refval-kind"))
            {
                case 0: v = 0; break;
                case 1: v = std::max<int64_t>(-lim, std::min<int64_t>(lim, e.ref)); break;
                case 2: v = -(int64_t)draw(lim + 1, "refval"); break;
                default: v = draw(lim + 1, "refval"); break;
            }
            Field f;
            f.bits = c03_bits;
            f.raw = f.canon = v < 0 ? ((uint64_t)-v | (1ull << (c03_bits - 1))) : (uint64_t)v;
            emit(0, f);
            c03[c] = v;
            return;
        }
        XVar proto;
        encoding(c, proto);
        std::vector<XVar> vals;
        if (X(c) == 33 && active)
        {
            draw_values(proto, vals);
            unsigned pos = next_ref();
            for (size_t i = 0; i < cols.size(); ++i)
            {
                emit(i, field_of(vals[i]));
                if (vals[i].set) sub(i)[pos].put_attr(vals[i]);
            }
            return;
        }
        draw_values(proto, vals);
        if (af_bits) associated(vals);
        for (size_t i = 0; i < cols.size(); ++i)
        {
            emit(i, field_of(vals[i]));
            store(i, vals[i]);
        }
        ++produced;
    }

    Code af_code() const
    {
        switch (af_sig)
        {
            case 1: case 8: return mk(0, 33, 2);
            case 2: return mk(0, 33, 3);
            case 6: return mk(0, 33, 50);
            case 7: return mk(0, 33, 40);
            case 21: return mk(0, 33, 41);
        }
        return 0;
    }

    void associated(std::vector<XVar>& vals)
    {
        Code a = af_code();
        XVar proto;
        int64_t lo = 0, hi = 0;
        if (a)
        {
            const Elem& e = t.b.at(a);
            proto.code = a; proto.kind = XVar::NUM; proto.scale = e.scale; proto.ref = e.ref; proto.bits = e.bits; proto.base_info = true;
            value_range(a, e.bits, e.ref, lo, hi);
            hi = std::min<int64_t>(hi, (int64_t)ones(af_bits) - 1);
            if (af_sig == 21) hi = lo = 0;
        } else {
            hi = (int64_t)ones(af_bits) - 1;
            if (hi < 0) hi = 0;
        }
        bool all_missing = cols.size() > 1 && chance(1, 5, "af-all-missing");
        for (size_t i = 0; i < vals.size(); ++i)
        {
            Field f;
            f.bits = af_bits; f.af = true;
            bool miss = all_missing || chance(1, 5, "af-missing");
            int64_t v = lo + draw(hi - lo + 1, "af-value");
            f.missing = miss;
            f.raw = v;
            if (a)
            {
                f.canon_missing = miss; f.canon = v;
                XVar x = proto;
                x.set = !miss; x.ival = v;
                // no quality information at all for these when missing, unless asked for
                bool optional = af_sig == 6 || af_sig == 8 || af_sig == 21;
                x.maybe = miss && (m.compressed || !o.undef_attrs);
                if (!miss || !optional || o.undef_attrs) vals[i].put_attr(x);
            } else
                f.canon_missing = true;       // the meaning is unknown: nothing to keep
            emit(i, f);
        }
    }

    unsigned next_ref()
    {
        unsigned r = cur.refs[cur.next++];
        if (cur.next == cur.refs.size()) { last = cur; have_last = true; active = false; }
        return r;
    }

    // a value that steers decoding: the same in all columns
    int64_t semantic(Code c, int64_t v, bool set, bool keep)
    {
        const Elem& e = t.b.at(c);
        XVar x;
        x.code = c; x.scale = e.scale; x.ref = e.ref; x.bits = e.bits; x.base_info = true;
        x.set = set; x.ival = v;
        for (size_t i = 0; i < cols.size(); ++i)
        {
            Field f = field_of(x);
            f.uniform = true;
            emit(i, f);
            if (keep) store(i, x);
        }
        return v;
    }

    void bitmap(unsigned fixed, Code delayed)
    {
        const Plan::Bm& p = plan.bitmaps.at(bitmap_no++);
        XSubset& s0 = sub(0);
        unsigned total = 0;
        for (auto& v: s0) if (F(v.code) == 0) ++total;
        unsigned size = fixed;
        if (!size)
        {
            unsigned max = std::min<unsigned>(total, delayed == mk(0, 31, 1) ? 255 : 60000);
            size = p.full ? max : 1 + draw(max, "bitmap-size");
            semantic(delayed, size, true, false);
        }
        if (size > total) harness_error("bitmap of %u for %u values", size, total);
        // positions, first to last
        std::vector<unsigned> pos;
        for (size_t i = s0.size(); i-- > 0 && pos.size() < size; )
            if (F(s0[i].code) == 0) pos.push_back(i);
        std::reverse(pos.begin(), pos.end());
        std::string bm(size, '-');
        if (p.present >= 0)
        {
            // choose exactly that many
            unsigned left = p.present;
            for (unsigned i = 0; i < size && left; ++i)
                if (size - i == left || chance(left, size - i, "present")) { bm[i] = '+'; --left; }
        } else {
            unsigned kind = draw(4, "bitmap-kind");
            for (unsigned i = 0; i < size; ++i)
                bm[i] = kind == 0 ? '+' : kind == 1 ? '-' : chance(1, 2, "present") ? '+' : '-';
        }
        XVar x;
        x.kind = XVar::BITMAP; x.code = pending; x.set = true; x.s = bm; x.bits = size * 8;
        for (size_t c = 0; c < cols.size(); ++c)
        {
            for (unsigned i = 0; i < size; ++i)
            {
                Field f; f.bits = 1; f.raw = f.canon = bm[i] == '+' ? 0 : 1; f.uniform = true;
                emit(c, f);
            }
            store(c, x);
        }
        cur = Bitmap();
        for (unsigned i = 0; i < size; ++i) if (bm[i] == '+') cur.refs.push_back(pos[i]);
        active = !cur.refs.empty();
        if (!active) { last = cur; have_last = true; }
        pending = 0;
        count(bm.find('+') == std::string::npos ? "peer.bitmap_empty" : "peer.bitmap");
    }

    void run(const std::vector<Code>& ops, unsigned depth = 0)
    {
        if (depth > 12) harness_error("descriptors nest too deep");
        for (size_t i = 0; i < ops.size(); ++i)
        {
            Code c = ops[i];
            switch (F(c))
            {
                case 0: variable(c); break;
                case 1:
                {
                    unsigned x = X(c), y = Y(c);
                    Code dl = 0;
                    if (!y) dl = ops.at(++i);
                    std::vector<Code> body(ops.begin() + i + 1, ops.begin() + i + 1 + x);
                    i += x;
                    if (pending) { bitmap(y, dl); break; }
                    unsigned n = y;
                    stack.push_back(c);
                    if (!y)
                    {
                        bool quality = body.size() == 1 && (X(body[0]) == 33 || body[0] == mk(2, 23, 255)) && plan.bitmaps.size() && bitmap_no;
                        if (quality) n = active ? cur.refs.size() - cur.next : 0;
                        else if (dl == mk(0, 31, 0)) n = draw(2, "short-replication");
                        else if (produced > o.max_vars) n = 0;
                        else n = draw(4, "replication");
                        if (!quality && dl == mk(0, 31, 1) && body.size() == 1 && F(body[0]) == 0 && chance(1, 40, "max-replication")) n = 253 + draw(3, "large-replication");
                        if (!quality && dl == mk(0, 31, 2) && body.size() == 1 && F(body[0]) == 0 && chance(1, 40, "large-replication")) n = 254 + draw(60, "large-replication");
                        semantic(dl, n, true, true);
                        ++produced;
                    }
                    for (unsigned k = 0; k < n; ++k) run(body, depth + 1);
                    stack.pop_back();
                    break;
                }
                case 3: stack.push_back(c); run(t.d.at(c), depth + 1); stack.pop_back(); break;
                case 2: op(c, ops, i); break;
            }
        }
    }

    void op(Code c, const std::vector<Code>& ops, size_t& i)
    {
        int y = Y(c);
        switch (X(c))
        {
            case 1: width = y ? y - 128 : 0; break;
            case 2: scale = y ? y - 128 : 0; break;
            case 3: if (y == 255) c03_bits = 0; else if (y == 0) { c03_bits = 0; c03.clear(); } else c03_bits = y; break;
            case 4:
                af_bits = y;
                if (y)
                {
                    ++i;   // B31021
                    static const unsigned sigs[] = {1, 2, 6, 7, 8, 63, 21, 30, 4};
                    af_sig = sigs[draw(9, "af-significance")];
                    if (af_sig == 21 && y != 1) af_sig = 1;
                    if (af_code() && !t.b.count(af_code())) af_sig = 63;
                    semantic(mk(0, 31, 21), af_sig == 63 ? 0 : af_sig, af_sig != 63, true);
                    ++produced;
                }
                break;
            case 5:
            {
                XVar x; x.kind = XVar::CHARS; x.code = c; x.bits = y * 8; x.set = true;
                for (int k = 0; k < y; ++k) x.s += (char)(32 + draw(95, "raw-char"));
                Field f; f.bits = x.bits; f.is_str = true; f.s = f.canon_s = x.s;
                emit(0, f);
                store(0, x);
                break;
            }
            case 6:
            {
                Code d = ops.at(++i);
                if (t.b.count(d) && (int)t.b.at(d).bits == y) { count("peer.known_local"); variable(d); break; }
                XVar x; x.kind = XVar::BIN; x.code = d; x.bits = y; x.set = true;
                unsigned nb = (y + 7) / 8;
                for (unsigned k = 0; k < nb; ++k) x.s += (char)draw(256, "local-byte");
                Field f; f.bits = y; f.is_str = true; f.tail_bits = y % 8;
                if (y % 8) x.s.back() = (char)((uint8_t)x.s.back() & ones(y % 8));
                if ((uint8_t)x.s[0] == 0xff) x.s[0] = 0x7f;
                if (y < 8 && (uint8_t)x.s[0] == ones(y)) x.s[0] = 0;
                f.s = f.canon_s = x.s;
                emit(0, f);
                store(0, x);
                ++produced;
                break;
            }
            case 7: inc = y; break;
            case 8: strlen_ = y; break;
            case 22: pending = c; break;
            case 23:
                if (y == 0) pending = c;
                else
                {
                    unsigned pos = next_ref();
                    XVar proto = sub(0)[pos];
                    proto.attrs.clear(); proto.set = false; proto.s.clear(); proto.ival = 0;
                    std::vector<XVar> vals;
                    draw_values(proto, vals);
                    for (size_t k = 0; k < cols.size(); ++k)
                    {
                        emit(k, field_of(vals[k]));
                        if (vals[k].set) sub(k)[pos].put_attr(vals[k]);
                    }
                }
                break;
            case 36: break;
            case 37:
                if (y == 0)
                {
                    if (!have_last) harness_error("no bitmap to reuse");
                    cur = last; cur.next = 0; active = !cur.refs.empty(); pending = 0;
                    // it is in use now: it becomes the last one again once used up
                } else have_last = false;
                break;
            default: harness_error("operator %s", fxy(c).c_str());
        }
    }
};

// ---------------------------------------------------------------- templates

struct TemplateGen
{
    const TableSet& t;
    XMsg& m;
    Plan plan;
    std::vector<Code> out;
    unsigned min_vars = 0;      // values every subset has, at least
    unsigned max_est = 0;
    bool ops_ok;                // operators that only exist in plain messages
    bool has_chars = false, has_local = false;
    unsigned last_chars = 0;

    TemplateGen(const TableSet& t, XMsg& m) : t(t), m(m), ops_ok(!m.compressed) {}

    bool fits(const Elem& e, int w, int s, int inc, int64_t ref)
    {
        if (e.str || e.table) return true;
        int bits = (int)e.bits + w + (inc ? (10 * inc + 2) / 3 : 0);
        int sc = e.scale + s + inc;
        if (bits < 1 || bits > 32 || sc < -16 || sc > 16) return false;
        int64_t r = ref;
        for (int i = 0; i < inc; ++i) { r *= 10; if (std::llabs(r) > INT_MAX) return false; }
        int64_t lo, hi;
        return value_range(e.code, bits, r, lo, hi);
    }

    Code elem(bool allow_str = true)
    {
        unsigned k = draw(10, "element-kind");
        if (k == 0 && allow_str) return pick(t.str, "string-element");
        if (k == 1) return pick(t.codeflag, "code-element");
        return pick(t.num, "numeric-element");
    }

    void items(std::vector<Code>& o, unsigned n, unsigned depth, unsigned mult)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            switch (draw(depth < 3 ? 10 : 4, "item"))
            {
                default: o.push_back(elem()); max_est += mult; if (depth == 0) ++min_vars; break;
                case 4: case 5:      // fixed replication
                {
                    std::vector<Code> body;
                    unsigned y = 1 + draw(4, "repeat");
                    if (chance(1, 30, "long-repeat")) y = 100 + draw(156, "long-repeat-n");
                    unsigned save = min_vars;
                    if (y >= 100) { body.push_back(elem(false)); max_est += mult * y; }
                    else items(body, 1 + draw(3, "body"), depth + 1, mult * y);
                    if (depth == 0 && y >= 100) min_vars = save + y; else min_vars = save;
                    if (body.size() > 63) { min_vars = save; break; }
                    o.push_back(mk(1, body.size(), y));
                    o.insert(o.end(), body.begin(), body.end());
                    m.uses_repl = true;
                    break;
                }
                case 6: case 7:      // delayed replication
                {
                    std::vector<Code> body;
                    unsigned save = min_vars;
                    items(body, 1 + draw(3, "body"), depth + 1, mult * 3);
                    min_vars = save + (depth == 0 ? 1 : 0);
                    if (body.size() > 63) { min_vars = save; break; }
                    o.push_back(mk(1, body.size(), 0));
                    static const Code f[] = {mk(0, 31, 1), mk(0, 31, 0), mk(0, 31, 2)};
                    o.push_back(f[draw(3, "factor")]);
                    o.insert(o.end(), body.begin(), body.end());
                    max_est += mult;
                    m.uses_repl = true;
                    break;
                }
                case 8:              // sequence
                {
                    Code d = pick(t.seq, "sequence");
                    unsigned k = usable_seq(t, t.d.at(d), 0);
                    if (max_est + k * mult > 150) { o.push_back(elem()); max_est += mult; if (depth == 0) ++min_vars; break; }
                    o.push_back(d);
                    max_est += k * mult;
                    m.uses_seq = true;
                    break;
                }
                case 9:              // an operator around a few elements
                    scoped(o, depth, mult);
                    break;
            }
        }
    }

    void body_elems(std::vector<Code>& o, unsigned n, int w, int s, int inc, unsigned depth, unsigned mult)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            Code c = elem();
            for (unsigned tries = 0; tries < 12 && !fits(t.b.at(c), w, s, inc, t.b.at(c).ref); ++tries) c = elem();
            if (!fits(t.b.at(c), w, s, inc, t.b.at(c).ref)) continue;
            if (depth == 0) ++min_vars;
            if (chance(1, 6, "replicate-inside"))
            {
                unsigned y = 1 + draw(3, "repeat");
                o.push_back(mk(1, 1, y));
                max_est += mult * y;
            } else
                max_est += mult;
            o.push_back(c);
        }
    }

    void scoped(std::vector<Code>& o, unsigned depth, unsigned mult)
    {
        m.uses_ops = true;
        unsigned n = 1 + draw(4, "scope");
        switch (draw(ops_ok ? 8 : 5, "operator"))
        {
            case 0:
            {
                int w = (int)draw(15, "width") - 7;
                if (w == 0) w = 1;
                o.push_back(mk(2, 1, 128 + w));
                body_elems(o, n, w, 0, 0, depth, mult);
                o.push_back(mk(2, 1, 0));
                break;
            }
            case 1:
            {
                int w = (int)draw(12, "width"), s = (int)draw(9, "scale") - 4;
                if (w) o.push_back(mk(2, 1, 128 + w));
                o.push_back(mk(2, 2, 128 + s));
                body_elems(o, n, w, s, 0, depth, mult);
                o.push_back(mk(2, 2, 0));
                if (w) o.push_back(mk(2, 1, 0));
                break;
            }
            case 2:
            {
                int inc = 1 + draw(chance(1, 4, "large-increase") ? 9 : 4, "increase");
                o.push_back(mk(2, 7, inc));
                body_elems(o, n, 0, 0, inc, depth, mult);
                o.push_back(mk(2, 7, 0));
                break;
            }
            case 3:
            {
                unsigned l = 1 + draw(chance(1, 6, "long-string") ? 255 : 40, "string-width");
                o.push_back(mk(2, 8, l));
                for (unsigned i = 0; i < n; ++i)
                {
                    o.push_back(draw(3, "string-or-not") == 2 ? elem() : pick(t.str, "string-element"));
                    max_est += mult; if (depth == 0) ++min_vars;
                }
                o.push_back(mk(2, 8, 0));
                break;
            }
            case 4:
            {
                if (depth || m.uses_af) { body_elems(o, n, 0, 0, 0, depth, mult); break; }
                m.uses_af = true;
                unsigned bits = 1 + draw(8, "af-bits");
                o.push_back(mk(2, 4, bits));
                o.push_back(mk(0, 31, 21));
                if (depth == 0) ++min_vars;
                for (unsigned i = 0; i < n; ++i)
                {
                    o.push_back(elem());
                    max_est += mult; if (depth == 0) ++min_vars;
                }
                if (chance(1, 3, "af-replication"))
                {
                    o.push_back(mk(1, 1, 0));
                    o.push_back(mk(0, 31, 1));
                    o.push_back(pick(t.num, "numeric-element"));
                    if (depth == 0) ++min_vars;
                }
                o.push_back(mk(2, 4, 0));
                break;
            }
            case 5:     // new reference values
            {
                if (depth) { body_elems(o, n, 0, 0, 0, depth, mult); break; }
                unsigned bits = 8 + draw(20, "refval-bits");
                std::vector<Code> cs;
                for (unsigned i = 0; i < n && i < 3; ++i)
                {
                    Code c = pick(t.num, "numeric-element");
                    // one that was already used with its old reference value
                    if (!o.empty() && chance(1, 3, "refval-again"))
                    {
                        Code old = pick(o, "refval-of");
                        if (F(old) == 0 && t.b.count(old) && !t.b.at(old).str && !t.b.at(old).table && X(old) != 31) c = old;
                    }
                    const Elem& e = t.b.at(c);
                    if (e.bits > 24 || std::find(cs.begin(), cs.end(), c) != cs.end()) continue;
                    cs.push_back(c);
                }
                if (cs.empty()) break;
                o.push_back(mk(2, 3, bits));
                for (auto c: cs) o.push_back(c);
                o.push_back(mk(2, 3, 255));
                for (unsigned k = 0; k < 1 + draw(2, "refval-uses"); ++k)
                    for (auto c: cs) { o.push_back(c); max_est += mult; if (depth == 0) ++min_vars; }
                if (chance(1, 2, "refval-cancel")) o.push_back(mk(2, 3, 0));
                break;
            }
            case 6:     // character data
                {
                    // lengths that differ by a power of two are kept apart
                    static const unsigned char lens[] = {1, 2, 127, 128, 129, 130, 254, 255};
                    unsigned n = chance(1, 4, "many-chars") ? lens[draw(8, "chars")] : 1 + draw(30, "chars");
                    if (last_chars && chance(1, 2, "like-before")) { unsigned k = last_chars ^ (1u << draw(8, "bit")); if (k) n = k; }
                    last_chars = n;
                    o.push_back(mk(2, 5, n));
                }
                has_chars = true;
                break;
            case 7:     // local descriptor
            {
                unsigned bits = 1 + draw(40, "local-bits");
                Code c = mk(0, 48 + draw(16, "local-x"), 192 + draw(64, "local-y"));
                unsigned known = draw(4, "known-descriptor");
                if (known == 2) { c = elem(); bits = t.b.at(c).bits; if (bits > 255) break; o.push_back(mk(2, 6, bits)); o.push_back(c); max_est += mult; if (depth == 0) ++min_vars; break; }
                // a width other than the one in the tables: they are about something else
                if (known == 3) { c = elem(); int off = (int)draw(9, "other-width") - 4; int other = (int)t.b.at(c).bits + off; if (!off || other < 1 || other > 255) break; bits = other; }
                else if (t.b.count(c)) break;
                o.push_back(mk(2, 6, bits));
                has_local = true;
                o.push_back(c);
                max_est += mult; if (depth == 0) ++min_vars;
                break;
            }
        }
    }

    void quality(unsigned no)
    {
        m.uses_bitmap = true;
        bool substitute = draw(3, "quality-or-substitute") == 2 && !has_local;
        out.push_back(substitute ? mk(2, 23, 0) : mk(2, 22, 0));
        bool reuse = no > 0 && draw(2, "reuse-bitmap") == 1;
        bool delayed_q = plan_delayed;
        int present = -1;
        if (reuse)
        {
            out.push_back(mk(2, 37, 0));
            present = plan.bitmaps.back().present;
        } else {
            if (chance(1, 3, "keep-bitmap")) out.push_back(mk(2, 36, 0));
            Plan::Bm b;
            b.full = true;
            // a fixed size must not exceed what every subset has
            if (no == 0 && min_vars > 0 && draw(2, "bitmap-fixed") == 0)
            {
                b.size = 1 + draw(std::min(min_vars, 255u), "bitmap-size");
                out.push_back(mk(1, 1, b.size));
                if (draw(2, "quality-fixed") == 0) { present = 1 + draw(b.size, "present"); delayed_q = false; }
                else delayed_q = true;
            } else {
                b.size = 0;
                b.full = no > 0 || draw(2, "bitmap-full") == 1;
                out.push_back(mk(1, 1, 0));
                out.push_back(mk(0, 31, 2));
                delayed_q = true;
            }
            b.present = present;
            plan.bitmaps.push_back(b);
            plan_delayed = delayed_q;
            out.push_back(mk(0, 31, 31));
        }
        if (!reuse || no == 0)
            if (draw(2, "centre-application")) { out.push_back(mk(0, 1, 31)); out.push_back(mk(0, 1, 32)); }
        Code body;
        if (substitute) { body = mk(2, 23, 255); if (used_sub) body = 0; used_sub = true; }
        else
        {
            body = 0;
            for (unsigned k = 0; k < 8 && !body; ++k)
            {
                Code q = pick(t.qual, "quality-element");
                if (std::find(used_q.begin(), used_q.end(), q) == used_q.end()) body = q;
            }
            used_q.push_back(body);
        }
        if (!body)
        {
            // nothing follows: take the operator back
            out.resize(saved_size);
            if (!reuse) plan.bitmaps.pop_back();
            plan_delayed = saved_delayed;
            return;
        }
        if (plan_delayed) { out.push_back(mk(1, 1, 0)); out.push_back(mk(0, 31, 2)); }
        else if (present > 1 || draw(2, "one-by-one") == 0) out.push_back(mk(1, 1, present));
        out.push_back(body);
    }
    bool plan_delayed = true, used_sub = false, saved_delayed = true;
    size_t saved_size = 0;
    std::vector<Code> used_q{mk(0, 33, 2), mk(0, 33, 3), mk(0, 33, 50), mk(0, 33, 40), mk(0, 33, 41)};

    void make()
    {
        items(out, 1 + draw(9, "items"), 0, 1);
        if (out.empty()) { out.push_back(elem()); ++min_vars; }
        if (!has_chars && chance(1, 3, "quality-section"))
        {
            unsigned n = 1 + (draw(3, "quality-sections") == 2);
            for (unsigned i = 0; i < n; ++i)
            {
                saved_size = out.size(); saved_delayed = plan_delayed;
                quality(plan.bitmaps.size());
            }
        }
        m.desc = out;
    }
};

static void put_be(std::string& s, uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0; ) s += (char)(v >> (8 * i)); }

static std::string assemble(const XMsg& m, const std::string& data, bool compressed, bool canon)
{
    std::string s1;
    if (m.edition < 4)
    {
        s1 += (char)m.master;
        s1 += (char)m.subcentre; s1 += (char)m.centre;
        s1 += (char)m.update; s1 += (char)((canon ? !m.optional.empty() : m.has_optional) ? 0x80 : 0);
        s1 += (char)m.category; s1 += (char)m.localsubcat;
        s1 += (char)m.version; s1 += (char)m.local;
        s1 += (char)(m.year == 2000 ? 100 : m.year % 100);
        s1 += (char)m.month; s1 += (char)m.day; s1 += (char)m.hour; s1 += (char)m.minute;
        s1 += (char)(m.year / 100);
        if (!canon && chance(1, 4, "sec1-extra")) s1 += std::string(2 * draw(9, "sec1-local"), (char)0x41);
    } else {
        s1 += (char)m.master;
        put_be(s1, m.centre, 2); put_be(s1, m.subcentre, 2);
        s1 += (char)m.update; s1 += (char)((canon ? !m.optional.empty() : m.has_optional) ? 0x80 : 0);
        s1 += (char)m.category; s1 += (char)m.subcat; s1 += (char)m.localsubcat;
        s1 += (char)m.version; s1 += (char)m.local;
        put_be(s1, m.year, 2);
        s1 += (char)m.month; s1 += (char)m.day; s1 += (char)m.hour; s1 += (char)m.minute; s1 += (char)m.second;
        if (!canon && chance(1, 4, "sec1-extra")) s1 += std::string(draw(18, "sec1-local"), (char)0x42);
    }
    std::string r = "BUFR";
    r += std::string(3, '\0');
    r += (char)m.edition;
    put_be(r, s1.size() + 3, 3); r += s1;
    if (canon ? !m.optional.empty() : m.has_optional)
    {
        std::string opt = m.optional;
        if (canon && opt.size() % 2) opt += '\0';
        put_be(r, 4 + opt.size(), 3); r += '\0'; r += opt;
    }
    std::string s3;
    s3 += '\0';
    put_be(s3, m.subsets.size(), 2);
    s3 += (char)(0x80 | (compressed ? 0x40 : 0));
    for (Code c: m.desc) put_be(s3, c, 2);
    // length is odd now: pad to even (required up to edition 3)
    if (canon || m.edition < 4 || draw(2, "sec3-pad") == 0) s3 += '\0';
    put_be(r, s3.size() + 3, 3); r += s3;
    std::string s4;
    s4 += '\0';
    s4 += data;
    if (canon || m.edition < 4)
    {
        if (canon ? (r.size() + 3 + s4.size()) % 2 : (3 + s4.size()) % 2) s4 += '\0';
    }
    else if (chance(1, 4, "sec4-pad")) s4 += std::string(draw(4, "sec4-padding"), '\0');
    put_be(r, s4.size() + 3, 3); r += s4;
    r += "7777";
    r[4] = (char)(r.size() >> 16); r[5] = (char)(r.size() >> 8); r[6] = (char)r.size();
    return r;
}

XMsg draw_message(const Opts& o)
{
    Host h;
    XMsg m;
    m.version = pick(vers, "table-version");
    const TableSet& t = table(m.version);
    m.edition = 2 + (2 + draw(3, "edition")) % 3;    // 4 first
    if (m.edition == 4)
    {
        m.centre = chance(1, 2, "centre-any") ? draw(65536, "centre") : 0;
        m.subcentre = chance(1, 2, "subcentre-any") ? draw(65536, "subcentre") : 0;
        m.subcat = draw(256, "subcategory");
        m.year = draw(4, "year-kind") ? 1990 + draw(60, "year") : draw(65536, "year");
        m.second = draw(60, "second");
    } else {
        m.centre = draw(256, "centre"); m.subcentre = draw(256, "subcentre");
        m.year = 1951 + draw(100, "year");
    }
    // centres for which the repository has local tables would select those
    if (m.centre == 98 || m.centre == 85 || m.centre == 254 || m.centre == 255 || m.centre == 200) m.centre = 0;
    // whatever local version it says: there are only the standard tables for it
    if (chance(1, 3, "local-any")) m.local = draw(256, "local-version");
    m.update = draw(256, "update"); m.category = draw(256, "category"); m.localsubcat = draw(256, "localsubcat");
    m.month = 1 + draw(12, "month"); m.day = 1 + draw(28, "day"); m.hour = draw(24, "hour"); m.minute = draw(60, "minute");
    if (chance(1, 4, "optional-section"))
    {
        m.has_optional = true;
        unsigned n = 2 + 2 * draw(30, "optional-len");
        if (m.edition == 4) n = draw(3, "optional-odd") == 2 ? n - 1 - (n == 2 ? draw(2, "optional-empty") : 0) : n;
        for (unsigned i = 0; i < n; ++i) m.optional += (char)draw(256, "optional-byte");
    }
    m.compressed = o.allow_compressed && draw(5, "compressed") >= 3;
    unsigned nsub = 1 + draw(o.max_subsets, "subsets");
    if (chance(1, 40, "many-subsets")) nsub = 250 + draw(20, "subset-count");
    TemplateGen g(t, m);
    if (nsub > 50) { m.desc.push_back(g.elem()); m.desc.push_back(g.elem()); }
    else g.make();
    m.subsets.resize(nsub);
    std::vector<std::vector<Field>> fields(nsub);
    if (m.compressed)
    {
        std::vector<unsigned> cols;
        for (unsigned i = 0; i < nsub; ++i) cols.push_back(i);
        Producer p(t, m, g.plan, o, cols, fields);
        p.run(m.desc);
    } else {
        for (unsigned i = 0; i < nsub; ++i)
        {
            Producer p(t, m, g.plan, o, {i}, fields);
            p.run(m.desc);
        }
    }
    Bits canon;
    for (auto& s: fields) for (auto& f: s) write_plain(canon, f, true);
    Bits wire;
    if (m.compressed)
    {
        size_t n = fields[0].size();
        for (size_t j = 0; j < n; ++j)
        {
            std::vector<const Field*> col;
            for (auto& s: fields) col.push_back(&s.at(j));
            write_compressed(wire, col);
        }
    } else
        for (auto& s: fields) for (auto& f: s) write_plain(wire, f, false);
    m.canon = assemble(m, canon.out, false, true);
    m.wire = assemble(m, wire.out, m.compressed, false);
    return m;
}

std::string XMsg::describe() const
{
    std::string r = "ed" + std::to_string(edition) + " v" + std::to_string(version) + (compressed ? " compressed" : "") + " " + std::to_string(subsets.size()) + " subsets:";
    for (Code c: desc) r += " " + fxy(c);
    return r;
}

// ---------------------------------------------------------------- judging

std::string compare_var(const wreport::Var& v, const XVar& x)
{
    char b[512];
    if (v.code() != x.code) { snprintf(b, 512, "code is %s instead of %s", fxy(v.code()).c_str(), fxy(x.code).c_str()); return b; }
    if (x.kind == XVar::NUM || x.kind == XVar::STR)
        if (v.info()->bit_len != x.bits || (x.kind == XVar::NUM && (v.info()->scale != x.scale || v.info()->bit_ref != x.ref)))
        {
            snprintf(b, 512, "%s has bits %u scale %d ref %d instead of bits %u scale %d ref %lld", fxy(x.code).c_str(), v.info()->bit_len, v.info()->scale, v.info()->bit_ref, x.bits, x.scale, (long long)x.ref);
            return b;
        }
    wreport::Vartype want_type = x.kind == XVar::NUM ? (x.scale ? wreport::Vartype::Decimal : wreport::Vartype::Integer) : x.kind == XVar::BIN ? wreport::Vartype::Binary : wreport::Vartype::String;
    if (v.info()->type != want_type) { snprintf(b, 512, "%s is of type %s instead of %s", fxy(x.code).c_str(), wreport::vartype_format(v.info()->type), wreport::vartype_format(want_type)); return b; }
    if (v.isset() != x.set) { snprintf(b, 512, "%s is %s instead of %s", fxy(x.code).c_str(), v.isset() ? ("set to " + v.enqs()).c_str() : "missing", x.set ? "set" : "missing"); return b; }
    if (!x.set) return "";
    switch (x.kind)
    {
        case XVar::NUM:
        {
            std::string want = std::to_string(x.ival);
            std::string got = v.enqs();
            if (got != want) { snprintf(b, 512, "%s is %s instead of %s", fxy(x.code).c_str(), got.c_str(), want.c_str()); return b; }
            long double d = x.ival;
            for (int i = 0; i < x.scale; ++i) d /= 10;
            for (int i = 0; i > x.scale; --i) d *= 10;
            if (fabsl((long double)v.enqd() - d) > 1e-9L * fabsl(d)) { snprintf(b, 512, "%s is %.12g instead of %.12Lg", fxy(x.code).c_str(), v.enqd(), d); return b; }
            if (std::string(v.enqc()) != want) { snprintf(b, 512, "%s as text is %s instead of %s", fxy(x.code).c_str(), v.enqc(), want.c_str()); return b; }
            break;
        }
        case XVar::BIN:
            if (memcmp(v.enqc(), x.s.data(), x.s.size()) != 0) { snprintf(b, 512, "%s differs (binary)", fxy(x.code).c_str()); return b; }
            break;
        default:
            if (std::string(v.enqc()) != x.s) { snprintf(b, 512, "%s is \"%s\" instead of \"%s\"", fxy(x.code).c_str(), printable(v.enqc()).c_str(), printable(x.s).c_str()); return b; }
            break;
    }
    return "";
}

std::string compare(const wreport::BufrBulletin& b, const XMsg& m, bool check_header)
{
    char t[1024];
    if (check_header)
    {
#define H(field, want) if ((unsigned)b.field != (unsigned)(want)) { snprintf(t, 1024, #field " is %u instead of %u", (unsigned)b.field, (unsigned)(want)); return t; }
        H(edition_number, m.edition) H(master_table_number, m.master) H(master_table_version_number, m.version) H(master_table_version_number_local, m.local)
        H(originating_centre, m.centre) H(originating_subcentre, m.subcentre) H(update_sequence_number, m.update)
        H(data_category, m.category) H(data_subcategory, m.edition == 4 ? m.subcat : 255) H(data_subcategory_local, m.localsubcat)
        H(rep_year, m.year) H(rep_month, m.month) H(rep_day, m.day) H(rep_hour, m.hour) H(rep_minute, m.minute)
        if (m.edition == 4) { H(rep_second, m.second) }
        if (b.optional_section != m.optional) return "the optional section differs";
#undef H
    }
    if (b.datadesc != m.desc) return "data descriptors differ";
    if (b.subsets.size() != m.subsets.size()) { snprintf(t, 1024, "%zu subsets instead of %zu", b.subsets.size(), m.subsets.size()); return t; }
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        const wreport::Subset& s = b.subsets[i];
        const XSubset& x = m.subsets[i];
        for (size_t j = 0; j < x.size() && j < s.size(); ++j)
        {
            std::string r = compare_var(s[j], x[j]);
            size_t na = 0;
            if (r.empty())
                for (const wreport::Var* a = s[j].next_attr(); a; a = a->next_attr())
                {
                    ++na;
                    const XVar* w = nullptr;
                    for (auto& y: x[j].attrs) if (y.code == a->code()) w = &y;
                    if (!w) { r = fxy(x[j].code) + " has an attribute " + fxy(a->code()) + " that was not sent"; break; }
                    r = compare_var(*a, *w);
                    if (!r.empty()) { r = "attribute of " + fxy(x[j].code) + ": " + r; break; }
                }
            size_t least = 0;
            for (auto& y: x[j].attrs) if (!y.maybe) ++least;
            if (r.empty() && (na < least || na > x[j].attrs.size()))
            {
                r = fxy(x[j].code) + " has " + std::to_string(na) + " attributes instead of " + std::to_string(x[j].attrs.size());
            }
            if (!r.empty()) { snprintf(t, 1024, "subset %zu value %zu: %s", i, j, r.c_str()); return t; }
        }
        if (s.size() != x.size()) { snprintf(t, 1024, "subset %zu has %zu values instead of %zu", i, s.size(), x.size()); return t; }
    }
    return "";
}

void set_value(wreport::Var& v, const XVar& x)
{
    if (!x.set) return;
    switch (x.kind)
    {
        case XVar::NUM:
            if (v.info()->type == wreport::Vartype::Decimal && x.ival % 2)
            {
                double d = x.ival;
                if (x.scale > 0) d /= std::pow(10.0, x.scale); else d *= std::pow(10.0, -x.scale);
                v.setd(d);
            } else
                v.seti(x.ival);
            break;
        default:
            v.setc(x.s.c_str());
    }
}

void build(wreport::BufrBulletin& b, const XMsg& m)
{
    b.edition_number = m.edition;
    b.master_table_number = m.master; b.master_table_version_number = m.version; b.master_table_version_number_local = m.local;
    b.originating_centre = m.centre; b.originating_subcentre = m.subcentre; b.update_sequence_number = m.update;
    b.data_category = m.category; b.data_subcategory = m.subcat; b.data_subcategory_local = m.localsubcat;
    b.rep_year = m.year; b.rep_month = m.month; b.rep_day = m.day; b.rep_hour = m.hour; b.rep_minute = m.minute; b.rep_second = m.second;
    b.optional_section = m.optional;
    b.compression = false;
    b.load_tables();
    b.datadesc.assign(m.desc.begin(), m.desc.end());
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        wreport::Subset& s = b.obtain_subset(i);
        for (auto& x: m.subsets[i])
        {
            wreport::Varinfo info;
            switch (x.kind)
            {
                case XVar::BITMAP: info = b.tables.get_bitmap(x.code, x.s); break;
                case XVar::CHARS: info = b.tables.get_chardata(x.code, x.bits / 8); break;
                case XVar::BIN: info = b.tables.get_unknown(x.code, x.bits); break;
                default: info = x.base_info ? b.tables.btable->query(x.code) : b.tables.btable->query_altered(x.code, x.scale, x.bits, x.ref);
            }
            wreport::Var v(info);
            set_value(v, x);
            for (auto& a: x.attrs)
            {
                wreport::Varinfo ai = a.base_info ? b.tables.btable->query(a.code) : b.tables.btable->query_altered(a.code, a.scale, a.bits, a.ref);
                wreport::Var av(ai);
                set_value(av, a);
                v.seta(av);
            }
            s.store_variable(std::move(v));
        }
    }
}

}}
