// P07/P08: whatever arrives, decoding gives a bulletin or an error.
#include "lib.h"
#include "gen.h"
#include "peer.h"
#include "crexpeer.h"
#include "vfs.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/tableinfo.h>
#include <wreport/notes.h>
#include <algorithm>
#include <sstream>

using namespace sim;
using namespace wreport;

namespace {

void prepare()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    peer::prepare();
    crexpeer::prepare();
    Sut s;
    Tables t;
    for (unsigned v: {24u, 14u, 33u}) t.load_bufr(BufrTableID(0, 0, 0, v, 0));
    t.load_crex(CrexTableID(1, 0, 0, 0, 3, 0, 0));
    t.load_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0));
}

// ---------------------------------------------------------------- damage

uint32_t be(const std::string& s, size_t p, unsigned n)
{
    uint32_t r = 0;
    for (unsigned i = 0; i < n; ++i) r = (r << 8) | (p + i < s.size() ? (uint8_t)s[p + i] : 0);
    return r;
}
void put_be(std::string& s, size_t p, unsigned n, uint32_t v)
{
    for (unsigned i = 0; i < n; ++i) if (p + i < s.size()) s[p + i] = (char)(v >> (8 * (n - 1 - i)));
}

struct Layout { bool ok = false; size_t sec[6]; };
Layout layout(const std::string& s)
{
    Layout l;
    if (s.size() < 30) return l;
    unsigned ed = (uint8_t)s[7];
    l.sec[0] = 0; l.sec[1] = 8;
    l.sec[2] = 8 + be(s, 8, 3);
    bool opt = (uint8_t)s[8 + (ed == 4 ? 9 : 7)] & 0x80;
    l.sec[3] = l.sec[2] + (opt ? be(s, l.sec[2], 3) : 0);
    l.sec[4] = l.sec[3] + be(s, l.sec[3], 3);
    if (l.sec[4] + 3 > s.size()) return l;
    l.sec[5] = l.sec[4] + be(s, l.sec[4], 3);
    if (l.sec[5] > s.size() || l.sec[4] < l.sec[3] + 7) return l;
    l.ok = true;
    return l;
}

// How much work do these descriptors ask for, in the worst case, for data they
// do not consume?  A message can legitimately ask for any amount: those that ask
// for too much are not sent.
struct Cost { double work; bool bits; };
Cost cost(const std::vector<peer::Code>& ops, unsigned depth)
{
    Cost r{0, false};
    if (depth > 40) return Cost{1e12, true};
    for (size_t i = 0; i < ops.size(); ++i)
    {
        peer::Code c = ops[i];
        switch (peer::F(c))
        {
            case 0: r.work += 1; r.bits = true; break;
            case 1:
            {
                unsigned x = peer::X(c), y = peer::Y(c);
                size_t j = i + 1;
                if (y == 0 && j < ops.size() && peer::F(ops[j]) == 0 && peer::X(ops[j]) == 31) ++j;
                if (j + x > ops.size()) return r;   // an error from here on
                Cost b = cost(std::vector<peer::Code>(ops.begin() + j, ops.begin() + j + x), depth + 1);
                r.work += 1 + (b.work + 1) * (y ? y : b.bits ? 64 : 65535);
                r.bits = r.bits || b.bits || y == 0;
                i = j + x - 1;
                break;
            }
            case 2: r.work += 1; if (peer::X(c) == 5 || peer::X(c) == 4 || peer::X(c) == 6) r.bits = true; break;
            case 3:
            {
                const std::vector<peer::Code>* d = nullptr;
                for (unsigned v: peer::versions())
                {
                    auto e = peer::table(v).d.find(c);
                    if (e != peer::table(v).d.end() && (!d || e->second.size() > d->size())) d = &e->second;
                }
                Cost b = d ? cost(*d, depth + 1) : Cost{60, true};
                r.work += b.work; r.bits = r.bits || b.bits;
                break;
            }
        }
        if (r.work > 1e15) return r;
    }
    return r;
}

bool bounded(const std::string& s)
{
    Layout l = layout(s);
    if (!l.ok) return true;
    unsigned n = be(s, l.sec[3] + 4, 2);
    bool compressed = (uint8_t)s[l.sec[3] + 6] & 0x40;
    std::vector<peer::Code> ops;
    for (size_t p = l.sec[3] + 7; p + 2 <= l.sec[4]; p += 2) ops.push_back(be(s, p, 2));
    Cost c = cost(ops, 0);
    double total = c.work * (compressed || !c.bits ? n : 1);
    if (compressed) total *= 4;
    return total < 2e5 && (!compressed || n <= 500);
}

const std::vector<peer::Code>& odd_codes()
{
    using peer::mk;
    static const std::vector<peer::Code> v = {
        mk(2, 1, 120), mk(2, 1, 140), mk(2, 1, 255), mk(2, 1, 1), mk(2, 1, 0), mk(2, 2, 125), mk(2, 2, 140), mk(2, 2, 0), mk(2, 2, 255),
        mk(2, 3, 8), mk(2, 3, 1), mk(2, 3, 32), mk(2, 3, 33), mk(2, 3, 254), mk(2, 3, 255), mk(2, 3, 0), mk(2, 4, 1), mk(2, 4, 8), mk(2, 4, 32), mk(2, 4, 33), mk(2, 4, 0), mk(2, 4, 255),
        mk(2, 5, 0), mk(2, 5, 1), mk(2, 5, 20), mk(2, 5, 255), mk(2, 6, 0), mk(2, 6, 1), mk(2, 6, 8), mk(2, 6, 33), mk(2, 6, 255), mk(2, 7, 1), mk(2, 7, 3), mk(2, 7, 9), mk(2, 7, 10), mk(2, 7, 255), mk(2, 7, 0),
        mk(2, 8, 0), mk(2, 8, 1), mk(2, 8, 30), mk(2, 8, 255), mk(2, 9, 0), mk(2, 21, 3), mk(2, 22, 0), mk(2, 22, 1), mk(2, 23, 0), mk(2, 23, 255), mk(2, 23, 7), mk(2, 24, 0), mk(2, 24, 255), mk(2, 25, 0), mk(2, 32, 0), mk(2, 32, 255),
        mk(2, 35, 0), mk(2, 36, 0), mk(2, 37, 0), mk(2, 37, 255), mk(2, 37, 3), mk(2, 41, 0), mk(2, 43, 0), mk(2, 63, 255),
        mk(0, 31, 0), mk(0, 31, 1), mk(0, 31, 2), mk(0, 31, 11), mk(0, 31, 12), mk(0, 31, 21), mk(0, 31, 31), mk(0, 33, 7), mk(0, 33, 2), mk(0, 33, 50), mk(0, 8, 21), mk(0, 0, 0), mk(0, 63, 255), mk(0, 1, 31), mk(0, 1, 15), mk(0, 12, 101),
        mk(3, 1, 1), mk(3, 0, 0), mk(3, 63, 255), mk(3, 7, 80), mk(3, 9, 52),
        mk(1, 1, 0), mk(1, 1, 1), mk(1, 1, 5), mk(1, 2, 0), mk(1, 0, 3), mk(1, 0, 0), mk(1, 63, 1), mk(1, 63, 0), mk(1, 1, 255), mk(1, 2, 4), mk(1, 3, 2),
    };
    return v;
}

peer::Code any_code()
{
    switch (draw(4, "code"))
    {
        case 0: return pick(odd_codes(), "code");
        case 1: { const auto& t = peer::table(24); return pick(t.num, "code"); }
        case 2:
        {
            const auto& t = peer::table(24);
            switch (draw(4, "code"))
            {
                case 0: return pick(t.str, "code");
                case 1: return pick(t.qual, "code");
                case 2: return pick(t.codeflag, "code");
                default: return pick(t.seq, "code");
            }
        }
        default: return draw(65536, "code");
    }
}

// A message that is well formed on the outside, with any descriptors and any data inside
std::string arbitrary_bufr()
{
    unsigned ed = 2 + draw(3, "edition");
    std::string s = "BUFR";
    s += std::string("\0\0\0", 3); s += (char)ed;
    if (ed == 4)
    {
        std::string t(22, '\0');
        t[2] = 22; t[10] = draw(12, "cat"); t[13] = peer::versions()[draw(peer::versions().size(), "version")]; t[15] = 7; t[16] = (char)0xe4; t[17] = t[18] = 1;
        s += t;
    } else {
        std::string t(18, '\0');
        t[2] = 18; t[8] = draw(12, "cat"); t[10] = peer::versions()[draw(peer::versions().size(), "version")]; t[12] = 20; t[13] = t[14] = 1;
        s += t;
    }
    size_t p3 = s.size();
    s += std::string(7, '\0');
    unsigned nd = chance(1, 20, "no-desc") ? 0 : 1 + draw(12, "ndesc");
    for (unsigned i = 0; i < nd; ++i)
    {
        // a bitmap definition now and then, or the structure stays shallow
        if (chance(1, 6, "bitmap"))
        {
            using peer::mk;
            for (peer::Code c: {pick(std::vector<peer::Code>{mk(2, 22, 0), mk(2, 23, 0)}, "bm"), mk(2, 36, 0), mk(1, 1, 1 + draw(6, "bmsize")), mk(0, 31, 31)}) { s += (char)(c >> 8); s += (char)c; }
            continue;
        }
        // an operator at the edge of what it can express, and what it applies to
        if (chance(1, 6, "operator"))
        {
            static const unsigned char ys[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 20, 31, 32, 33, 63, 64, 65, 100, 118, 127, 128, 129, 138, 139, 159, 160, 161, 200, 254, 255};
            const auto& t = peer::table(24);
            unsigned x = 1 + draw(8, "x");
            for (peer::Code c: {peer::mk(2, x, ys[draw(sizeof ys, "y")]), x == 8 || chance(1, 5, "text") ? pick(t.str, "code") : pick(t.num, "code"), pick(t.num, "code")}) { s += (char)(c >> 8); s += (char)c; }
            continue;
        }
        peer::Code c = any_code();
        s += (char)(c >> 8); s += (char)c;
    }
    if (chance(1, 2, "pad")) s += '\0';
    put_be(s, p3, 3, s.size() - p3);
    bool comp = chance(1, 3, "compressed");
    put_be(s, p3 + 4, 2, chance(1, 15, "odd-subsets") ? draw(65536, "subsets") : draw(6, "subsets") + (chance(1, 10, "zero") ? 0 : 1));
    s[p3 + 6] = (comp ? 0x40 : 0) | (chance(1, 2, "obs") ? 0x80 : 0);
    size_t p4 = s.size();
    s += std::string(4, '\0');
    unsigned dl = chance(1, 3, "short-data") ? draw(8, "data") : draw(200, "data");
    unsigned style = draw(4, "style");
    for (unsigned i = 0; i < dl; ++i)
        switch (style)
        {
            case 0: s += '\0'; break;
            case 1: s += chance(1, 8, "ones") ? (char)draw(256, "byte") : '\0'; break;
            case 2: s += (char)draw(256, "byte"); break;
            case 3: s += chance(7, 8, "ones") ? '\xff' : (char)draw(256, "byte"); break;
        }
    put_be(s, p4, 3, s.size() - p4);
    s += "7777";
    put_be(s, 4, 3, s.size());
    return s;
}

void damage_bytes(std::string& s, const std::string& other)
{
    if (s.empty()) return;
    switch (draw(8, "damage"))
    {
        case 0: { size_t p = draw(s.size() * 8, "bit"); s[p / 8] ^= 1 << (p % 8); fault("fault.bit_flip"); break; }
        case 1: s[draw(s.size(), "at")] = (char)draw(256, "byte"); fault("fault.byte_overwrite"); break;
        case 2: s[draw(s.size(), "at")] = chance(1, 2, "ff") ? '\xff' : '\0'; fault("fault.byte_overwrite"); break;
        case 3: s.resize(draw(s.size(), "cut")); fault("fault.truncated"); break;
        case 4: { std::string ins; unsigned n = 1 + draw(4, "n"); for (unsigned i = 0; i < n; ++i) ins += (char)draw(256, "byte"); s.insert(draw(s.size() + 1, "at"), ins); fault("fault.bytes_inserted"); break; }
        case 5: { size_t p = draw(s.size(), "at"); s.erase(p, 1 + draw(std::min<size_t>(64, s.size() - p), "n")); fault("fault.bytes_lost"); break; }
        case 6: { size_t p = draw(s.size(), "at"); size_t n = 1 + draw(std::min<size_t>(64, s.size() - p), "n"); s.insert(draw(s.size() + 1, "to"), s.substr(p, n)); fault("fault.bytes_repeated"); break; }
        case 7: { if (other.empty()) break; s = s.substr(0, draw(s.size() + 1, "at")) + other.substr(draw(other.size(), "from")); fault("fault.splice"); break; }
    }
}

void damage_bufr(std::string& s, const std::string& other)
{
    Layout l = layout(s);
    if (l.ok && chance(3, 5, "targeted"))
    {
        switch (draw(10, "target"))
        {
            case 0: // a section length
            {
                size_t p = l.sec[1 + draw(4, "sec")];
                uint32_t v = be(s, p, 3);
                switch (draw(4, "len"))
                {
                    case 0: v = draw(24, "len"); break;
                    case 1: v += draw(9, "len"); break;
                    case 2: v -= draw(9, "len"); break;
                    case 3: v = draw(1 << 24, "len"); break;
                }
                put_be(s, p, 3, v);
                fault("fault.section_length");
                break;
            }
            case 1: put_be(s, l.sec[3] + 4, 2, chance(1, 2, "few") ? draw(40, "subsets") : draw(65536, "subsets")); fault("fault.subset_count"); break;
            case 2: s[l.sec[3] + 6] ^= chance(1, 2, "comp") ? 0x40 : 1 << draw(8, "bit"); fault("fault.flags"); break;
            case 3: case 4: case 5: // a descriptor
                if (l.sec[4] >= l.sec[3] + 9)
                {
                    unsigned n = (l.sec[4] - l.sec[3] - 7) / 2;
                    // often another operand of the same operator
                    size_t at = l.sec[3] + 7 + 2 * draw(n, "at");
                    for (unsigned i = 0; i < n && chance(1, 2, "look"); ++i) { size_t q = l.sec[3] + 7 + 2 * i; if (peer::F(be(s, q, 2)) == 2) { at = q; if (chance(1, 2, "this")) break; } }
                    if (peer::F(be(s, at, 2)) == 2 && chance(1, 2, "operand")) s[at + 1] = (char)draw(256, "operand");
                    else put_be(s, at, 2, any_code());
                    fault("fault.descriptor");
                }
                break;
            case 6: s[7] = chance(1, 2, "ed") ? 2 + draw(3, "ed") : draw(256, "ed"); fault("fault.edition"); break;
            case 7: s[8 + draw(std::min<size_t>(26, s.size() - 8), "at")] = (char)draw(256, "byte"); fault("fault.header_byte"); break;
            case 8: // data section: a run of ones or zeros
            {
                size_t p = l.sec[4] + 4;
                if (p >= l.sec[5]) break;
                p += draw(l.sec[5] - p, "at");
                size_t n = 1 + draw(std::min<size_t>(40, l.sec[5] - p), "n");
                bool one = chance(1, 2, "ones");
                for (size_t i = 0; i < n; ++i) s[p + i] = one ? '\xff' : '\0';
                fault("fault.data_run");
                break;
            }
            case 9: // optional section flag
                s[8 + ((uint8_t)s[7] == 4 ? 9 : 7)] ^= 0x80; fault("fault.flags"); break;
        }
    } else
        damage_bytes(s, other);
}

// ---------------------------------------------------------------- judging

template<typename B> struct Kind_;
template<> struct Kind_<BufrBulletin> { static constexpr const char* name = "BUFR"; };
template<> struct Kind_<CrexBulletin> { static constexpr const char* name = "CREX"; };

std::unique_ptr<BufrBulletin> do_decode(BufrBulletin*, const std::string& s, unsigned how, FILE* vo)
{
    switch (how)
    {
        case 1: return BufrBulletin::decode_header(s, "damaged");
        case 2: return BufrBulletin::decode_verbose(s, vo, "damaged");
        case 3: { auto o = BufrCodecOptions::create(); o->decode_adds_undef_attrs = true; return BufrBulletin::decode(s, *o, "damaged"); }
        default: return BufrBulletin::decode(s, "damaged");
    }
}
std::unique_ptr<CrexBulletin> do_decode(CrexBulletin*, const std::string& s, unsigned how, FILE* vo)
{
    switch (how)
    {
        case 1: return CrexBulletin::decode_header(s, "damaged");
        case 2: return CrexBulletin::decode_verbose(s, vo, "damaged");
        default: return CrexBulletin::decode(s, "damaged");
    }
}

void check_out(const Out& o, const char* what, const char* kind)
{
    if (o.kind == Kind::OtherException) violation("foreign-exception", "%s of a damaged %s message raised something that is not a library error: %s", what, kind, o.msg.c_str());
    if (o.kind == Kind::BadAlloc) violation("memory", "%s of a damaged %s message ran out of memory", what, kind);
}

// One attempt: what came of it, in full
template<typename B> std::string attempt(const std::string& given, unsigned how, unsigned use)
{
    // nothing lies behind the message
    const std::string s(given.data(), given.size());
    std::string text;
    std::unique_ptr<B> b;
    OutStream vsink, sink;
    FILE* vo = vsink.open_plain();
    std::ostringstream notes_out;
    phase("decoding");
    Out o = call([&] {
        notes::Collect c(notes_out);
        b = do_decode((B*)nullptr, s, how, vo);
    });
    vsink.close();
    check_out(o, "decoding", Kind_<B>::name);
    text = o.str() + "\n" + vsink.data;   // notes mention table searches only the first time
    if (!b) return text;
    count(how == 1 ? "probe.header_accepted" : "probe.accepted");
    // usable: everything a caller may do with it works or is refused with an error
    FILE* f = sink.open_plain();
    if (use & 1)
    {
        phase("printing");
        o = call([&] { b->print(f); });
        check_out(o, "printing", Kind_<B>::name);
        text += o.str();
    }
    if (use & 2)
    {
        phase("printing the structure");
        o = call([&] { b->print_structured(f); });
        check_out(o, "printing", Kind_<B>::name);
        text += o.str();
    }
    if (use & 4)
    {
        phase("printing descriptors");
        o = call([&] { b->print_datadesc(f, 2); });
        check_out(o, "printing", Kind_<B>::name);
        text += o.str();
    }
    sink.close();
    text += sink.data;
    if (use & 8)
    {
        phase("comparing");
        unsigned d = 0;
        o = call([&] { d = b->diff(*b); });
        check_out(o, "comparing", Kind_<B>::name);
        if (!o.ok() || d) violation("self-difference", "a bulletin decoded from a damaged %s message differs from itself: %u differences, %s", Kind_<B>::name, d, o.str().c_str());
    }
    if (use & 16)
    {
        phase("encoding");
        std::string e;
        o = call([&] { e = b->encode(); });
        check_out(o, "encoding", Kind_<B>::name);
        text += o.str() + e;
        if (o.ok()) count("probe.reencoded");
    }
    if (use & 32)
    {
        phase("reading values");
        o = call([&] {
            for (auto& sub: b->subsets)
                for (auto& v: sub)
                {
                    Var copy(v);
                    bool same = copy == v;
                    std::string t = v.isset() ? v.enqs() : std::string("-");
                    if (v.isset() && v.info()->type != Vartype::String && v.info()->type != Vartype::Binary)
                        t += std::to_string(v.enqd());
                    t += v.format("-");
                    Host h;
                    if (!same) violation("self-difference", "a copy of a value decoded from a damaged %s message differs from it", Kind_<B>::name);
                    text += t;
                }
        });
        if (!o.ok()) violation("unreadable-value", "a value decoded from a damaged %s message cannot be read: %s", Kind_<B>::name, o.str().c_str());
    }
    Sut u; b.reset();
    return text;
}

void good_message(BufrBulletin*)
{
    peer::Opts po; po.max_subsets = 2; po.max_vars = 40;
    peer::XMsg m = peer::draw_message(po);
    std::unique_ptr<BufrBulletin> b;
    Out o = call([&] { b = BufrBulletin::decode(m.wire, "good"); });
    if (!o.ok()) violation("good-refused", "after damaged messages a good one is refused: %s (%s)", o.str().c_str(), m.describe().c_str());
    std::string d = peer::compare(*b, m);
    if (!d.empty()) violation("good-altered", "after damaged messages a good one decodes differently: %s (%s)", d.c_str(), m.describe().c_str());
    count("probe.good_after_damage");
    Sut u; b.reset();
}

void good_message(CrexBulletin*)
{
    crexpeer::CMsg m = crexpeer::draw_message(30, 2);
    std::unique_ptr<CrexBulletin> b;
    Out o = call([&] { b = CrexBulletin::decode(m.wire, "good"); });
    if (!o.ok()) violation("good-refused", "after damaged messages a good one is refused: %s (%s)", o.str().c_str(), m.describe().c_str());
    std::string d = crexpeer::compare(*b, m);
    if (!d.empty()) violation("good-altered", "after damaged messages a good one decodes differently: %s (%s)", d.c_str(), m.describe().c_str());
    count("probe.good_after_damage");
    Sut u; b.reset();
}

template<typename B> void judge(const std::string& s)
{
    unsigned how = draw(8, "how");
    if (how > 3) how = 0;
    unsigned use = chance(1, 2, "use") ? 63 : draw(64, "use");
    hash_bytes(s.data(), s.size());
    note("message: %s", Kind_<B>::name[0] == 'B' ? hexdump(s, 450).c_str() : printable(s, 900).c_str());
    static const int fills[] = {0xa5, 0x00, 0xff, 0x01};
    alloc::set_budget(alloc::live_bytes() + (400 << 20));
    alloc::set_fill(fills[draw(4, "fill")]);
    std::string t1 = attempt<B>(s, how, use);
    alloc::set_fill(fills[draw(4, "fill")]);
    alloc::record_sites(true);
    alloc::Mark m = alloc::mark();
    std::string t2 = attempt<B>(s, how, use);
    alloc::Mark e = alloc::mark();
    alloc::record_sites(false);
    if (e.live_objs != m.live_objs)
        violation("leak", "%lld objects (%lld bytes) remain after decoding and dropping a damaged %s message again %s", (long long)(e.live_objs - m.live_objs), (long long)(e.live_bytes - m.live_bytes), Kind_<B>::name, alloc::describe_live_since(m.seq).c_str());
    if (t1 != t2)
    {
        size_t p = 0;
        while (p < t1.size() && p < t2.size() && t1[p] == t2[p]) ++p;
        violation("not-repeatable", "the same damaged %s message gives different results when decoded twice: ...%s / ...%s", Kind_<B>::name, printable(t1.substr(p > 20 ? p - 20 : 0), 80).c_str(), printable(t2.substr(p > 20 ? p - 20 : 0), 80).c_str());
    }
    hash_bytes(t1.data(), t1.size());
    count("probe.judged");
    nontrivial();
    ev("%zu bytes, mode %u: %s", s.size(), how, printable(t1.substr(0, t1.find('\n')), 100).c_str());
}

void run_p07()
{
    unsigned n = 1 + draw(4, "messages");
    for (unsigned i = 0; i < n; ++i)
    {
        std::string s, other;
        switch (draw(4, "source"))
        {
            case 0: case 1: { peer::Opts o; o.max_subsets = 3; o.max_vars = 60; s = peer::draw_message(o).wire; count("probe.from_producer"); break; }
            case 2: s = arbitrary_bufr(); count("probe.arbitrary"); fault("fault.arbitrary_contents"); break;
            case 3: s = gen::corpus_bufr(); if (s.size() > 6000) s = gen::all_bufr()[0].second; count("probe.recorded"); break;
        }
        if (chance(1, 8, "other")) { other = gen::corpus_bufr(); if (other.size() > 3000) other.clear(); }
        unsigned k = draw(4, "hits");
        if (k == 3) k += draw(6, "hits");
        for (unsigned j = 0; j < k; ++j) damage_bufr(s, other);
        // receivers trust the total length in the header: keep it or not
        if (s.size() > 8 && chance(1, 3, "fix-length")) put_be(s, 4, 3, s.size());
        if (!bounded(s)) { count("skipped.asks_for_too_much"); continue; }
        judge<BufrBulletin>(s);
        if (chance(1, 4, "good")) good_message((BufrBulletin*)nullptr);
    }
}

std::string arbitrary_crex()
{
    static const char* const words[] = {"T000103", "T000203", "T000101", "T999999", "T0001", "TXX", "A000", "A000001", "A999999", "A0001", "A", "B01001", "B12101", "B01015", "B31001", "B31000", "B31012", "R01000", "R02003", "R01001", "R00000", "R63000", "R01255", "D01001", "D07080", "D63255", "C01001", "C22000", "C07005", "C05003", "C37000", "E", "++", "+", "\r\r\n", "7777", "SUPP", "//", "/////", "0001", "0", "12345", "-1234", "99999999999999", "00000", "ABC"};
    std::string s = "CREX++\r\r\nT000103 A000";
    unsigned n = 1 + draw(6, "ndesc");
    for (unsigned i = 0; i < n; ++i)
    {
        char b[32];
        peer::Code c = chance(1, 2, "odd") ? pick(odd_codes(), "code") : draw(65536, "code");
        if (chance(1, 3, "word")) snprintf(b, 32, " %s", words[draw(sizeof(words) / sizeof(*words), "word")]);
        else snprintf(b, 32, " %c%02u%03u", "BRCD"[peer::F(c)], peer::X(c), peer::Y(c));
        s += b;
    }
    if (chance(1, 3, "E")) s += " E";
    s += "++\r\r\n";
    n = draw(30, "nwords");
    for (unsigned i = 0; i < n; ++i)
    {
        s += ' ';
        switch (draw(4, "word"))
        {
            case 0: s += std::to_string(draw(100000, "value")); break;
            case 1: s += words[draw(sizeof(words) / sizeof(*words), "word")]; break;
            case 2: s += std::string(1 + draw(8, "n"), '/'); break;
            case 3: { unsigned k = 1 + draw(10, "n"); for (unsigned j = 0; j < k; ++j) s += (char)draw(256, "char"); break; }
        }
    }
    s += "++\r\r\n7777";
    return s;
}

// The repetition a CREX text can ask for without carrying data for it
bool crex_bounded(const std::string& s)
{
    std::vector<peer::Code> ops;
    size_t end = s.find("++", 8);
    if (end == std::string::npos) end = s.size();
    for (size_t i = 8; i + 6 <= end; ++i)
    {
        const char* t = "BRCD";
        const char* k = strchr(t, s[i]);
        if (!s[i] || !k) continue;
        bool dig = true;
        for (unsigned j = 1; j < 6; ++j) if (!isdigit((unsigned char)s[i + j])) dig = false;
        if (!dig) continue;
        ops.push_back(peer::mk(k - t, atoi(s.substr(i + 1, 2).c_str()), atoi(s.substr(i + 3, 3).c_str())));
        i += 5;
    }
    return cost(ops, 0).work < 2e5;
}

void damage_crex(std::string& s, const std::string& other)
{
    static const char* const bits[] = {"+", "++", "/", " ", "\r\r\n", "7777", "E", "B31001", "R01000", "R02000", "R00000", "C05010", "C22000", "D01001", "-", "9999", "SUPP", "CREX++", "T", "A", "\0"};
    if (s.empty()) return;
    switch (draw(5, "crex-damage"))
    {
        case 4:
        {
            // it ends at a word, or close to it
            size_t p = s.find_last_of(" +\r\n", draw(s.size(), "at"));
            if (p == std::string::npos) p = 0;
            p += draw(4, "near");
            if (chance(1, 2, "back")) p -= std::min<size_t>(p, draw(4, "near"));
            if (p < s.size()) s.resize(p);
            fault("fault.truncated");
            break;
        }
        case 0: s.insert(draw(s.size() + 1, "at"), bits[draw(sizeof(bits) / sizeof(*bits), "what")]); fault("fault.text_inserted"); break;
        case 1: { std::string t = bits[draw(sizeof(bits) / sizeof(*bits), "what")]; size_t p = draw(s.size(), "at"); s.replace(p, t.size(), t); fault("fault.text_overwritten"); break; }
        default: damage_bytes(s, other);
    }
}

void run_p08()
{
    unsigned n = 1 + draw(5, "messages");
    for (unsigned i = 0; i < n; ++i)
    {
        std::string s, other;
        switch (draw(4, "source"))
        {
            case 0: case 1: s = crexpeer::draw_message(40, 3).wire; count("probe.from_producer"); break;
            case 2: s = arbitrary_crex(); count("probe.arbitrary"); fault("fault.arbitrary_contents"); break;
            case 3: s = gen::corpus_crex(); if (s.size() > 6000) s.resize(6000); count("probe.recorded"); break;
        }
        if (chance(1, 8, "other")) { other = gen::corpus_crex(); if (other.size() > 3000) other.clear(); }
        unsigned k = draw(4, "hits");
        if (k == 3) k += draw(6, "hits");
        for (unsigned j = 0; j < k; ++j) damage_crex(s, other);
        if (!crex_bounded(s)) { count("skipped.asks_for_too_much"); continue; }
        judge<CrexBulletin>(s);
        if (chance(1, 4, "good")) good_message((CrexBulletin*)nullptr);
    }
}

}

SIM_SCENARIO(P07, prepare, run_p07)
SIM_SCENARIO(P08, prepare, run_p08)
