// P04: what we encode is what comes back.  P06: what any conforming producer
// sends is what we decode.
#include "lib.h"
#include "gen.h"
#include "peer.h"
#include "vfs.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/tableinfo.h>

using namespace sim;
using namespace wreport;

namespace {

void prepare()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    peer::prepare();
    // warm the caches for some of the versions; the others are loaded by the runs
    Sut s;
    for (unsigned v: {24u, 14u, 33u})
    {
        Tables t;
        t.load_bufr(BufrTableID(0, 0, 0, v, 0));
    }
}

void features(const peer::XMsg& m)
{
    if (m.compressed) count("probe.compressed");
    if (m.uses_af) count("probe.associated_field");
    if (m.uses_bitmap) count("probe.bitmap");
    if (m.uses_ops) count("probe.operators");
    if (m.uses_repl) count("probe.replication");
    if (m.uses_seq) count("probe.sequence");
}

// Send over a simulated transport and get it back
std::string transport(const std::string& msg, const std::string& noise)
{
    InStream in(noise + msg + (chance(1, 2, "trailing") ? "\r\r\n" : ""));
    in.yields = true;
    FILE* f = in.open_seeded();
    std::string buf;
    bool got = false;
    Out o = call([&] { got = BufrBulletin::read(f, buf, "wire"); });
    if (!o.ok() || !got) violation("not-delivered", "the message was not read back from the stream: %s", o.str().c_str());
    return buf;
}

// Other traffic that goes through the same process and may fail
void disturbance()
{
    switch (draw(4, "disturbance"))
    {
        case 0: return;
        case 1:
        {
            // a message cut short: the header is fine, the data ends early
            peer::Opts o; o.max_subsets = 2;
            peer::XMsg d = peer::draw_message(o);
            size_t lo = d.wire.size() / 2;
            std::string cut = d.wire.substr(0, lo + draw(d.wire.size() - lo, "cut"));
            Out r = call([&] { auto b = BufrBulletin::decode(cut, "cut"); });
            if (r.ok()) violation("cut-accepted", "a message cut to %zu of %zu bytes was decoded (%s)", cut.size(), d.wire.size(), d.describe().c_str());
            if (r.kind != Kind::Error) violation("cut-exception", "a message cut short raised %s", r.str().c_str());
            fault("fault.truncated_message");
            break;
        }
        case 2:
        {
            // allocation failure in the middle of another message
            peer::Opts o; o.max_subsets = 2;
            peer::XMsg d = peer::draw_message(o);
            alloc::fail_at(1 + draw(200, "alloc-fail-at"), false);
            Out r = call([&] { auto b = BufrBulletin::decode(d.wire, "starved"); });
            bool fired = alloc::fired();
            alloc::disarm();
            if (fired) fault("fault.allocation");
            if (!fired && !r.ok()) violation("decode-failed", "%s: %s", r.str().c_str(), d.describe().c_str());
            break;
        }
        case 3:
        {
            // real traffic with other tables
            const std::string& c = gen::corpus_bufr();
            if (c.size() < 4000)
            {
                call([&] { auto b = BufrBulletin::decode(c, "other"); });
                count("probe.other_traffic");
            }
            break;
        }
    }
}

void judge(const std::unique_ptr<BufrBulletin>& b, const peer::XMsg& m, const char* what)
{
    std::string diff = peer::compare(*b, m);
    if (!diff.empty()) violation((std::string("value-differs:") + what).c_str(), "%s: %s (%s)", what, diff.c_str(), m.describe().c_str());
}

// Many subsets, as they may come from elsewhere
void run_many()
{
    static const unsigned counts[] = {1, 255, 256, 257, 1000, 32767, 32768, 32769, 40000, 65535};
    unsigned n = counts[draw(10, "count")];
    bool comp = chance(1, 2, "compressed");
    std::string bits;
    auto put = [&](unsigned v, unsigned w) { while (w--) bits += (v >> w) & 1 ? '1' : '0'; };
    auto val = [](unsigned i) { return (i * 37 + i / 100) % 126; };
    if (comp) { put(0, 7); put(7, 6); }
    for (unsigned i = 0; i < n; ++i) put(val(i), 7);
    while (bits.size() % 16) bits += '0';
    std::string d;
    for (size_t i = 0; i < bits.size(); i += 8) d += (char)strtoul(bits.substr(i, 8).c_str(), nullptr, 2);
    auto u24 = [](size_t v) { return std::string{(char)(v >> 16), (char)(v >> 8), (char)v}; };
    std::string s1 = u24(22) + std::string(19, '\0');
    s1[13] = peer::versions()[0]; s1[15] = 7; s1[16] = (char)0xe4; s1[17] = s1[18] = 1;
    std::string s3 = u24(10) + std::string{0, (char)(n >> 8), (char)n, (char)(comp ? 0xc0 : 0x80), 1, 1, 0};
    std::string body = s1 + s3 + u24(4 + d.size()) + '\0' + d + "7777";
    std::string wire = "BUFR" + u24(8 + body.size()) + '\4' + body;
    ev("%u subsets%s", n, comp ? ", compressed" : "");
    std::unique_ptr<BufrBulletin> b;
    Out o = call([&] { b = BufrBulletin::decode(wire, "wire"); });
    if (!o.ok()) violation("decode-failed", "%u subsets%s: %s", n, comp ? ", compressed" : "", o.str().c_str());
    if (b->subsets.size() != n) violation("value-differs:subsets", "%zu subsets instead of %u%s", b->subsets.size(), n, comp ? ", compressed" : "");
    std::string bad;
    o = call([&] {
        for (unsigned i = 0; i < n; ++i)
        {
            const Subset& s = b->subset(i);
            if (s.size() == 1 && s[0].code() == WR_VAR(0, 1, 1) && s[0].isset() && s[0].enqi() == (int)val(i)) continue;
            Host h; bad = "subset " + std::to_string(i); return;
        }
    });
    if (!o.ok() || !bad.empty()) violation("value-differs:subsets", "%s of %u%s does not hold the value sent (%s)", bad.c_str(), n, comp ? ", compressed" : "", o.str().c_str());
    count("probe.many_subsets");
    nontrivial();
    Sut s; b.reset();
}

void run_p06()
{
    if (chance(1, 150, "many")) return run_many();
    unsigned consumers = 1 + (draw(4, "consumers") == 3) + (draw(4, "consumers") == 3);
    std::vector<std::function<void()>> tasks;
    for (unsigned c = 0; c < consumers; ++c)
        tasks.push_back([c] {
            unsigned n = 1 + draw(3, "messages");
            for (unsigned i = 0; i < n; ++i)
            {
                peer::Opts po;
                unsigned how = draw(6, "how");
                po.undef_attrs = how >= 3 && draw(2, "undef-attrs");
                peer::XMsg m = peer::draw_message(po);
                ev("consumer %u: %s", c, m.describe().c_str());
                hash_bytes(m.wire.data(), m.wire.size());
                features(m);
                if (chance(1, 3, "disturb")) disturbance();
                std::string wire = transport(m.wire, chance(1, 4, "noise") ? "ISMD01 EGRR 010000\r\r\n" : "");
                if (wire != m.wire) violation("not-delivered", "the stream gave back different bytes");
                yield_point("decode");
                std::unique_ptr<BufrBulletin> b;
                OutStream sink;
                FILE* vo = how == 5 && !po.undef_attrs ? sink.open_seeded() : nullptr;
                std::string origin = draw(3, "named") ? "wire" : "in/" + std::to_string(draw(1000, "name")) + ".bufr";
                uint64_t where = draw(3, "placed") ? 0 : draw64("place") >> (24 + draw(33, "place-bits"));
                auto placed = [&](const BufrBulletin& x, const char* what) {
                    if (x.fname != origin || (uint64_t)x.offset != where) violation("origin", "%s: the message is from %s:%llu instead of %s:%llu", what, x.fname.c_str(), (unsigned long long)x.offset, origin.c_str(), (unsigned long long)where);
                };
                Out o = call([&] {
                    if (vo) b = BufrBulletin::decode_verbose(wire, vo, origin.c_str(), where);
                    else if (how >= 3)
                    {
                        auto opts = BufrCodecOptions::create();
                        opts->decode_adds_undef_attrs = po.undef_attrs;
                        b = BufrBulletin::decode(wire, *opts, origin.c_str(), where);
                    }
                    else b = BufrBulletin::decode(wire, origin.c_str(), where);
                });
                if (!o.ok()) violation("decode-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
                judge(b, m, vo ? "decoded verbosely" : "decoded");
                placed(*b, "decoded");
                count("probe.message_judged");
                if (chance(1, 6, "header-only"))
                {
                    std::unique_ptr<BufrBulletin> hb;
                    bool with_opts = draw(2, "header-options");
                    Out o1 = call([&] {
                        if (!with_opts) hb = BufrBulletin::decode_header(wire, origin.c_str(), where);
                        else { auto opts = BufrCodecOptions::create(); hb = BufrBulletin::decode_header(wire, *opts, origin.c_str(), where); }
                    });
                    if (!o1.ok()) violation("decode-failed", "header: %s", o1.str().c_str());
                    placed(*hb, "header");
                    auto head = [](const BufrBulletin& x) {
                        std::vector<unsigned> r = { x.edition_number, x.master_table_number, x.originating_centre, x.originating_subcentre, x.update_sequence_number, x.data_category, x.data_subcategory, x.data_subcategory_local,
                            x.master_table_version_number, x.master_table_version_number_local, x.rep_year, x.rep_month, x.rep_day, x.rep_hour, x.rep_minute, x.rep_second, x.compression };
                        return r;
                    };
                    if (head(*hb) != head(*b) || hb->datadesc != b->datadesc || hb->optional_section != b->optional_section)
                        violation("value-differs:header", "header decoding and full decoding disagree");
                }
                nontrivial();
                ev("consumer %u: %zu subsets match", c, m.subsets.size());
                { Sut s; b.reset(); }
            }
        });
    run_tasks(tasks);
}

// Bulletins around what the lengths and counts of a message can express: they
// are encoded faithfully or refused, never as a message that says something else
void run_limits()
{
    peer::Opts po;
    po.max_subsets = 1;
    po.allow_compressed = false;
    peer::XMsg m = peer::draw_message(po);
    while (m.edition != 4 || m.subsets.size() != 1)
    {
        m = peer::draw_message(po);
        if (m.edition != 4) { m.edition = 4; break; }
    }
    bool fits;
    std::unique_ptr<BufrBulletin> b;
    size_t amount;
    Out o;
    unsigned kind = draw(6, "limit");
    if (kind > 4) kind %= 4;
    const char* units = "bytes";
    if (kind == 4)
    {
        set_step_budget(20000000000ull);
        // a large data section: up to two runs of long texts
        m.optional.clear();
        unsigned n1 = chance(1, 8, "most") ? 65535 : 32894 + draw(32, "runs"), n2 = chance(1, 3, "none") ? 0 : 255 + draw(6, "runs");
        if (n1 != 65535) n2 = 0;
        unsigned end = 8 + 22 + 20 + 4 + 4 + 255 * (n1 + n2);
        amount = end + end % 2 + 4;
        fits = amount <= 0xffffff;
        ev("%u texts, message of %zu", n1 + n2, amount);
        static std::string texts[3];
        for (int i = 0; i < 3; ++i) { texts[i].assign(255, 'a' + i); texts[i][draw(255, "place")] = '0' + i; }
        o = call([&] {
            b = BufrBulletin::create();
            b->edition_number = 4; b->master_table_version_number = m.version; b->originating_centre = 0; b->originating_subcentre = 0;
            b->rep_year = 2020; b->rep_month = b->rep_day = 1;
            b->load_tables();
            for (unsigned r = 0; r < 2; ++r) for (Varcode c: {WR_VAR(1, 1, 0), WR_VAR(0, 31, 2), WR_VAR(2, 5, 255)}) b->datadesc.push_back(c);
            Varinfo info = b->tables.get_chardata(WR_VAR(2, 5, 255), 255);
            Subset& s = b->obtain_subset(0);
            s.reserve(n1 + n2 + 2);
            for (unsigned r = 0; r < 2; ++r)
            {
                unsigned n = r ? n2 : n1;
                s.store_variable_i(WR_VAR(0, 31, 2), n);
                for (unsigned i = 0; i < n; ++i) s.store_variable(Var(info, texts[i % 3]));
            }
        });
    }
    else if (kind != 3)
    {
        m.optional.clear();
        static const int deltas[] = {-3, -2, -1, 0, 1, 2, 3, 5, 200, 65536, 1000000};
        o = call([&] { b = BufrBulletin::create(); peer::build(*b, m); std::string e = b->encode(); Host h; amount = e.size(); });
        if (!o.ok()) violation("encode-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
        // the section has a length of its own, the data is padded to an even end
        long len = 0xffffff - (long)amount - 4 + deltas[draw(11, "over")];
        m.optional.assign(len, 'o');
        amount += 4 + len + len % 2;
        fits = amount <= 0xffffff;
        ev("optional section of %ld bytes, message of %zu", len, amount);
        o = call([&] { b->optional_section = m.optional; });
    }
    else
    {
        units = "subsets";
        m.optional.clear();
        amount = chance(1, 3, "half") ? 32766 + draw(4, "subset-count") : 65534 + draw(5, "subset-count");
        fits = amount <= 65535;
        ev("%zu subsets", amount);
        o = call([&] {
            b = BufrBulletin::create();
            b->edition_number = 4; b->master_table_version_number = m.version; b->originating_centre = 0; b->originating_subcentre = 0;
            b->load_tables();
            b->datadesc.push_back(WR_VAR(0, 2, 1));
            for (size_t i = 0; i < amount; ++i) { Subset& s = b->obtain_subset(i); s.store_variable_i(WR_VAR(0, 2, 1), i % 3); s.shrink_to_fit(); }
        });
    }
    if (!o.ok()) violation("build-failed", "%s", o.str().c_str());
    std::string enc;
    o = call([&] { std::string e = b->encode(); Host h; enc = e; });
    count(fits ? "probe.limit_within" : "probe.limit_beyond");
    nontrivial();
    if (!fits)
    {
        if (o.ok()) violation("too-large-encoded", "a bulletin with %zu %s was encoded into %zu bytes that cannot say so", amount, units, enc.size());
        if (o.kind != Kind::Error) violation("encode-failed", "too large a bulletin raised %s", o.str().c_str());
    }
    else
    {
        if (!o.ok()) violation("encode-failed", "%s with %zu %s", o.str().c_str(), amount, units);
        // its lengths lead from section to section to the end
        auto u24 = [&](size_t p) { return p + 3 <= enc.size() ? (size_t)(uint8_t)enc[p] << 16 | (uint8_t)enc[p + 1] << 8 | (uint8_t)enc[p + 2] : 0; };
        size_t at = 8;
        bool opt = enc.size() > 17 && (enc[17] & 0x80);
        for (unsigned k = 1; k <= 4; ++k) if (k != 2 || opt) at += u24(at);
        if (u24(4) != enc.size() || at + 4 != enc.size() || enc.compare(at, 4, "7777") != 0 || opt == m.optional.empty())
            violation("lengths", "the lengths of a message of %zu bytes say %zu, its sections end at %zu, with %zu %s", enc.size(), u24(4), at, amount, units);
        if (m.optional.size() % 2) { Sut s; b->optional_section += '\0'; }
        unsigned diffs = 0;
        o = call([&] { auto back = BufrBulletin::decode(enc, "wire"); diffs = b->diff(*back); });
        if (!o.ok() || diffs) violation("value-differs:limits", "%s, %u differences, with %zu %s", o.str().c_str(), diffs, amount, units);
    }
    Sut s;
    b.reset();
}

void run_p04()
{
    if (chance(1, 100, "limits")) return run_limits();
    unsigned n = 1 + draw(3, "messages");
    std::vector<std::unique_ptr<BufrBulletin>> kept;
    for (unsigned i = 0; i < n; ++i)
    {
        peer::Opts po;
        peer::XMsg m = peer::draw_message(po);
        ev("message %u: %s", i, m.describe().c_str());
        hash_bytes(m.canon.data(), m.canon.size());
        features(m);
        if (chance(1, 4, "disturb")) disturbance();
        std::unique_ptr<BufrBulletin> b;
        Out o = call([&] { b = BufrBulletin::create(); peer::build(*b, m); });
        if (!o.ok()) violation("build-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
        judge(b, m, "built");
        std::string enc;
        // an encode that runs out of memory leaves the bulletin as it was
        if (chance(1, 5, "starve-encode"))
        {
            alloc::fail_at(1 + draw(12, "alloc-fail-at"), false);
            call([&] { std::string e = b->encode(); });
            if (alloc::fired()) fault("fault.allocation");
            alloc::disarm();
        }
        o = call([&] { enc = b->encode(); });
        if (!o.ok()) violation("encode-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
        if (enc != m.canon)
        {
            size_t p = 0;
            while (p < enc.size() && p < m.canon.size() && enc[p] == m.canon[p]) ++p;
            violation("encoding-differs", "encoded %zu bytes, reference %zu, first difference at byte %zu (%s; encoded %s, reference %s)", enc.size(), m.canon.size(), p, m.describe().c_str(),
                hexdump(enc.substr(p > 2 ? p - 2 : 0), 12).c_str(), hexdump(m.canon.substr(p > 2 ? p - 2 : 0), 12).c_str());
        }
        judge(b, m, "after encoding");
        peer::XMsg given = m;
        if (m.optional.size() % 2) m.optional += '\0';       // as the encoding has it
        // over a stream and back
        OutStream out;
        FILE* f = out.open_seeded();
        o = call([&] { BufrBulletin::write(enc, f, "sink"); fflush(f); });
        if (!o.ok()) violation("write-failed", "%s", o.str().c_str());
        out.close();
        std::string wire = transport(out.data, "");
        std::unique_ptr<BufrBulletin> back;
        o = call([&] { back = BufrBulletin::decode(wire, "wire"); });
        if (!o.ok()) violation("decode-failed", "own encoding: %s: %s", o.str().c_str(), m.describe().c_str());
        judge(back, m, "read back");
        unsigned diffs = 0;
        o = call([&] { diffs = b->diff(*back); });
        if (!o.ok() || (diffs != 0) != (given.optional != m.optional)) violation("diff-reports", "comparing the bulletin with what was read back reports %u differences, %s (%s)", diffs, o.str().c_str(), m.describe().c_str());
        o = call([&] { enc = back->encode(); });
        if (!o.ok() || enc != m.canon) violation("reencode-differs", "encoding what was read back does not give the same message: %s (%s)", o.str().c_str(), m.describe().c_str());
        // what came compressed from elsewhere goes out plain with the same contents
        if (m.compressed)
        {
            std::unique_ptr<BufrBulletin> p;
            o = call([&] { p = BufrBulletin::decode(m.wire, "peer"); enc = p->encode(); });
            if (!o.ok() || enc != m.canon) violation("reencode-differs", "encoding a decoded compressed message: %s (%s)", o.str().c_str(), m.describe().c_str());
            Sut s; p.reset();
        }
        count("probe.round_trip");
        nontrivial();
        ev("message %u: round trip", i);
        // bulletins kept from before are not affected by later traffic
        if (!kept.empty() && chance(1, 2, "check-kept"))
        {
            o = call([&] { enc = kept.back()->encode(); });
            if (!o.ok()) violation("encode-failed", "a bulletin kept from before: %s", o.str().c_str());
        }
        { Sut s; kept.push_back(std::move(back)); b.reset(); }
    }
    Sut s;
    kept.clear();
}

}

SIM_SCENARIO(P04, prepare, run_p04)
SIM_SCENARIO(P06, prepare, run_p06)
