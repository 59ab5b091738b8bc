// P05: CREX round trip and CREX from any conforming producer.
#include "lib.h"
#include "gen.h"
#include "crexpeer.h"
#include "vfs.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>

using namespace sim;
using namespace wreport;

namespace {

void prepare()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    peer::prepare();
    crexpeer::prepare();
    {
        // tables for another master table number, which say the same and something more
        Host h;
        unsigned n = 0;
        for (auto& f: vfs::list("/sim/tables"))
            if (f.size() == 11 && f.compare(1, 2, "00") == 0) { std::string o = f; o[1] = '1'; vfs::put("/sim/tables/" + o, vfs::get("/sim/tables/" + f) + (f[0] == 'B' ? crexpeer::more_elements() : "")); ++n; }
        crexpeer::other_master = n ? 10 : 0;
    }
    Sut s;
    Tables t;
    t.load_crex(CrexTableID(1, 0, 0, 0, 3, 0, 0));
    t.load_bufr(BufrTableID(0, 0, 0, 24, 0));
}

void judge(const std::unique_ptr<CrexBulletin>& b, const crexpeer::CMsg& m, const char* what)
{
    std::string diff = crexpeer::compare(*b, m);
    if (!diff.empty()) violation((std::string("value-differs:") + what).c_str(), "%s: %s (%s)", what, diff.c_str(), m.describe().c_str());
}

std::string transport(const std::string& msg, bool noise)
{
    InStream in((noise ? "ISXD01 LFPW 010000\r\r\nCRE" : "") + msg + (chance(1, 2, "trailing") ? "\r\r\n" : ""));
    in.yields = true;
    FILE* f = in.open_seeded();
    std::string buf;
    bool got = false;
    Out o = call([&] { got = CrexBulletin::read(f, buf, "wire"); });
    if (!o.ok() || !got) violation("not-delivered", "the message was not read back from the stream: %s", o.str().c_str());
    return buf;
}

void disturbance()
{
    switch (draw(4, "disturbance"))
    {
        case 0: return;
        case 1:
        {
            crexpeer::CMsg d = crexpeer::draw_message(30, 2);
            // no end marker left
            std::string cut = d.canon.substr(0, draw(d.canon.size() - 7, "cut"));
            Out r = call([&] { auto b = CrexBulletin::decode(cut, "cut"); });
            if (r.ok()) violation("cut-accepted", "a message cut to %zu of %zu bytes was decoded (%s)", cut.size(), d.canon.size(), d.describe().c_str());
            if (r.kind != Kind::Error) violation("cut-exception", "a message cut short raised %s", r.str().c_str());
            fault("fault.truncated_message");
            break;
        }
        case 2:
        {
            crexpeer::CMsg d = crexpeer::draw_message(30, 2);
            alloc::fail_at(1 + draw(100, "alloc-fail-at"), false);
            Out r = call([&] { auto b = CrexBulletin::decode(d.wire, "starved"); });
            bool fired = alloc::fired();
            alloc::disarm();
            if (!fired && !r.ok()) violation("decode-failed", "%s: %s", r.str().c_str(), d.describe().c_str());
            break;
        }
        case 3:
        {
            const std::string& c = chance(1, 2, "bufr") ? gen::corpus_bufr() : gen::corpus_crex();
            if (c.size() < 4000)
            {
                call([&] { if (c[0] == 'B') BufrBulletin::decode(c, "other"); else CrexBulletin::decode(c, "other"); });
                count("probe.other_traffic");
            }
            break;
        }
    }
}

void exchange(unsigned who)
{
    crexpeer::CMsg m = crexpeer::draw_message();
    ev("party %u: %s", who, m.describe().c_str());
    hash_bytes(m.wire.data(), m.wire.size());
    if (m.uses_repl) count("probe.replication");
    if (m.uses_seq) count("probe.sequence");
    if (m.uses_str) count("probe.string");
    if (m.uses_neg) count("probe.negative");
    if (m.check_digit) count("probe.check_digit");
    if (m.subsets.size() > 1) count("probe.subsets");
    if (chance(1, 3, "disturb")) disturbance();
    Out o;
    // 1. what a peer sends
    {
        std::string wire = transport(m.wire, chance(1, 4, "noise"));
        if (wire != m.wire) violation("not-delivered", "the stream gave back different text");
        yield_point("decode");
        std::unique_ptr<CrexBulletin> b;
        unsigned how = draw(5, "how");
        OutStream sink;
        FILE* vo = how == 4 ? sink.open_seeded() : nullptr;
        std::string origin = draw(3, "named") ? "wire" : "in/" + std::to_string(draw(1000, "name")) + ".crex";
        uint64_t where = draw(3, "placed") ? 0 : draw64("place") >> (24 + draw(33, "place-bits"));
        auto placed = [&](const CrexBulletin& x, const char* what) {
            if (x.fname != origin || (uint64_t)x.offset != where) violation("origin", "%s: the message is from %s:%llu instead of %s:%llu", what, x.fname.c_str(), (unsigned long long)x.offset, origin.c_str(), (unsigned long long)where);
        };
        o = call([&] { b = how == 4 ? CrexBulletin::decode_verbose(wire, vo, origin.c_str(), where) : CrexBulletin::decode(wire, origin.c_str(), where); });
        if (!o.ok()) violation("decode-failed", "%s: %s: %s", o.str().c_str(), m.describe().c_str(), printable(m.wire, 300).c_str());
        judge(b, m, "decoded");
        placed(*b, "decoded");
        std::string enc;
        o = call([&] { enc = b->encode(); });
        if (!o.ok() || enc != m.canon) violation("reencode-differs", "encoding what was decoded does not give the canonical text: %s (%s): %s instead of %s", o.str().c_str(), m.describe().c_str(), printable(enc, 300).c_str(), printable(m.canon, 300).c_str());
        if (chance(1, 6, "header-only"))
        {
            std::unique_ptr<CrexBulletin> hb;
            o = call([&] { hb = CrexBulletin::decode_header(wire, origin.c_str(), where); });
            if (o.ok()) placed(*hb, "header");
            if (!o.ok() || hb->datadesc != b->datadesc || hb->data_category != b->data_category || hb->data_subcategory != b->data_subcategory || hb->has_check_digit != b->has_check_digit)
                violation("value-differs:header", "header decoding and full decoding disagree: %s", o.str().c_str());
        }
        Sut s; b.reset();
    }
    // 2. what we build, write and read back
    std::unique_ptr<CrexBulletin> b, back;
    o = call([&] { b = CrexBulletin::create(); crexpeer::build(*b, m); });
    if (!o.ok()) violation("build-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
    judge(b, m, "built");
    yield_point("encode");
    if (chance(1, 5, "starve-encode"))
    {
        alloc::fail_at(1 + draw(8, "alloc-fail-at"), false);
        call([&] { std::string e = b->encode(); });
        alloc::disarm();
    }
    std::string enc;
    o = call([&] { enc = b->encode(); });
    if (!o.ok()) violation("encode-failed", "%s: %s", o.str().c_str(), m.describe().c_str());
    if (enc != m.canon) violation("encoding-differs", "encoded %s instead of %s (%s)", printable(enc, 300).c_str(), printable(m.canon, 300).c_str(), m.describe().c_str());
    // A description written for BUFR names the replication factors, which CREX does not
    if (m.uses_repl && chance(1, 2, "named-factors"))
    {
        std::vector<Varcode> named;
        bool any = false;
        for (size_t i = 0; i < m.desc.size(); ++i)
        {
            named.push_back(m.desc[i]);
            if (peer::F(m.desc[i]) != 1) continue;
            size_t left = peer::X(m.desc[i]);
            if (peer::Y(m.desc[i]) == 0) { named.push_back(peer::mk(0, 31, 1 + draw(2, "factor-name"))); any = true; }
            for (; left && i + 1 < m.desc.size(); --left) named.push_back(m.desc[++i]);
        }
        if (any)
        {
            std::string enc2;
            o = call([&] { std::vector<Varcode> saved = b->datadesc; b->datadesc.assign(named.begin(), named.end()); enc2 = b->encode(); b->datadesc = saved; });
            if (!o.ok() || enc2 != m.canon) violation("encoding-differs", "with the replication factors named, encoding gives %s: %s instead of %s", o.str().c_str(), printable(enc2, 300).c_str(), printable(m.canon, 300).c_str());
            count("probe.named_factors");
        }
    }
    OutStream out;
    FILE* f = out.open_seeded();
    o = call([&] { CrexBulletin::write(enc, f, "sink"); fflush(f); });
    if (!o.ok()) violation("write-failed", "%s", o.str().c_str());
    out.close();
    std::string wire = transport(out.data, false);
    o = call([&] { back = CrexBulletin::decode(wire, "wire"); });
    if (!o.ok()) violation("decode-failed", "own encoding: %s: %s", o.str().c_str(), m.describe().c_str());
    judge(back, m, "read back");
    unsigned diffs = 0;
    o = call([&] { diffs = b->diff(*back); });
    if (!o.ok() || diffs) violation("diff-reports", "comparing the bulletin with what was read back reports %u differences, %s (%s)", diffs, o.str().c_str(), m.describe().c_str());
    count("probe.round_trip");
    nontrivial();
    ev("party %u: round trip", who);
    Sut s; b.reset(); back.reset();
}

void run_p05()
{
    unsigned parties = 1 + (draw(4, "parties") == 3) + (draw(4, "parties") == 3);
    std::vector<std::function<void()>> tasks;
    for (unsigned c = 0; c < parties; ++c)
        tasks.push_back([c] {
            unsigned n = 1 + draw(3, "messages");
            for (unsigned i = 0; i < n; ++i) exchange(c);
        });
    run_tasks(tasks);
}

}

SIM_SCENARIO(P05, prepare, run_p05)
