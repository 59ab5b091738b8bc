// P09: the outcome of handling a message does not depend on what the process
// handled before.  P10: running out of memory anywhere is an error without
// lasting effects.
#include "lib.h"
#include "gen.h"
#include "peer.h"
#include "crexpeer.h"
#include "vfs.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/tableinfo.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <algorithm>
#include <sstream>

using namespace sim;
using namespace wreport;

namespace {

void prepare_cold()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    peer::prepare();
    crexpeer::prepare();
}

void prepare_warm()
{
    prepare_cold();
    Sut s;
    Tables t;
    for (unsigned v: {24u, 14u, 33u}) t.load_bufr(BufrTableID(0, 0, 0, v, 0));
    t.load_crex(CrexTableID(1, 0, 0, 0, 3, 0, 0));
    t.load_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0));
}

// ---------------------------------------------------------------- jobs

// Something a process does with one message
struct Job
{
    bool crex = false;
    std::string wire;
    unsigned how = 0;          // decode mode
    unsigned use = 0;          // what is done with the bulletin
    std::string from;
};

Job draw_job(bool small)
{
    Job j;
    j.crex = chance(1, 4, "crex");
    if (j.crex)
    {
        if (chance(1, 3, "recorded")) { j.wire = gen::corpus_crex(); j.from = "recorded CREX"; if (j.wire.size() > 4000) j.wire.resize(4000); }
        else { crexpeer::CMsg m = crexpeer::draw_message(small ? 15 : 40, 2); j.wire = m.wire; j.from = "CREX " + m.describe(); }
    } else {
        if (chance(1, 3, "recorded")) { j.wire = gen::corpus_bufr(); j.from = "recorded BUFR"; if (j.wire.size() > (small ? 1500u : 5000u)) { peer::Opts o; o.max_subsets = 2; o.max_vars = 20; j.wire = peer::draw_message(o).wire; } }
        else { peer::Opts o; o.max_subsets = small ? 2 : 3; o.max_vars = small ? 20 : 60; peer::XMsg m = peer::draw_message(o); j.wire = m.wire; j.from = "BUFR " + m.describe(); }
    }
    if (chance(1, 5, "damaged") && !j.wire.empty())
    {
        // bytes of the data section only: the amount of work stays the same
        unsigned k = 1 + draw(3, "hits");
        for (unsigned i = 0; i < k; ++i)
        {
            size_t lo = j.wire.size() / 2;
            j.wire[lo + draw(j.wire.size() - lo, "at")] ^= 1 << draw(8, "bit");
        }
        if (chance(1, 2, "cut")) j.wire.resize(j.wire.size() / 2 + draw(j.wire.size() - j.wire.size() / 2, "cut"));
        fault("fault.message_damaged");
        j.from += ", damaged";
    }
    unsigned h = draw(8, "how");
    j.how = h > 3 ? 0 : h;
    j.use = chance(1, 2, "all") ? 63 : draw(64, "use");
    return j;
}

template<typename B> std::unique_ptr<B> decode(const Job& j, FILE* vo);
template<> std::unique_ptr<BufrBulletin> decode(const Job& j, FILE* vo)
{
    switch (j.how)
    {
        case 1: return BufrBulletin::decode_header(j.wire, "job", 10);
        case 2: return BufrBulletin::decode_verbose(j.wire, vo, "job", 10);
        case 3: { auto o = BufrCodecOptions::create(); o->decode_adds_undef_attrs = true; return BufrBulletin::decode(j.wire, *o, "job", 10); }
        default: return BufrBulletin::decode(j.wire, "job", 10);
    }
}
template<> std::unique_ptr<CrexBulletin> decode(const Job& j, FILE* vo)
{
    switch (j.how)
    {
        case 1: return CrexBulletin::decode_header(j.wire, "job", 10);
        case 2: return CrexBulletin::decode_verbose(j.wire, vo, "job", 10);
        default: return CrexBulletin::decode(j.wire, "job", 10);
    }
}

std::unique_ptr<BufrBulletin> fresh(BufrBulletin*) { return BufrBulletin::create(); }
std::unique_ptr<CrexBulletin> fresh(CrexBulletin*) { return CrexBulletin::create(); }
void copy_details(BufrBulletin& d, const BufrBulletin& s)
{
    d.edition_number = s.edition_number; d.master_table_version_number = s.master_table_version_number;
    d.master_table_version_number_local = s.master_table_version_number_local; d.compression = s.compression;
    d.optional_section = s.optional_section;
}
void copy_details(CrexBulletin& d, const CrexBulletin& s)
{
    d.edition_number = s.edition_number; d.has_check_digit = s.has_check_digit;
    d.master_table_version_number = s.master_table_version_number; d.master_table_version_number_local = s.master_table_version_number_local;
    d.master_table_version_number_bufr = s.master_table_version_number_bufr;
}

std::string header(const Bulletin& b)
{
    char t[200];
    snprintf(t, 200, "%s %u %u %u:%u:%u %u:%u %u %u-%u-%u %u:%u:%u %zu\n", b.fname.c_str(), (unsigned)b.offset, b.master_table_number, b.data_category, b.data_subcategory, b.data_subcategory_local, b.originating_centre, b.originating_subcentre, b.update_sequence_number, b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second, b.subsets.size());
    return t;
}

// Everything that is done with one message: text receives what can be observed
template<typename B> void perform(const Job& j, FILE* f, std::string& text)
{
    std::unique_ptr<B> b = decode<B>(j, f);
    { std::string h = header(*b); Host hh; text += h.c_str(); }
    if (j.use & 1) b->print(f);
    if (j.use & 2) b->print_structured(f);
    if (j.use & 4) b->print_datadesc(f, 2);
    if (j.use & 8)
    {
        unsigned d = b->diff(*b);
        Host h; text += "diff " + std::to_string(d) + "\n";
    }
    if (j.use & 16)
    {
        // make the same bulletin anew, and see that they are the same
        auto c = fresh((B*)nullptr);
        c->master_table_number = b->master_table_number; c->data_category = b->data_category; c->data_subcategory = b->data_subcategory; c->data_subcategory_local = b->data_subcategory_local;
        c->originating_centre = b->originating_centre; c->originating_subcentre = b->originating_subcentre; c->update_sequence_number = b->update_sequence_number;
        c->rep_year = b->rep_year; c->rep_month = b->rep_month; c->rep_day = b->rep_day; c->rep_hour = b->rep_hour; c->rep_minute = b->rep_minute; c->rep_second = b->rep_second;
        copy_details(*c, *b);
        c->datadesc = b->datadesc;
        c->load_tables();
        for (unsigned i = 0; i < b->subsets.size(); ++i)
        {
            Subset& s = c->obtain_subset(i);
            for (const auto& v: b->subsets[i]) s.store_variable(v);
        }
        unsigned d = b->diff(*c);
        { Host h; text += "diff with a copy " + std::to_string(d) + "\n"; }
    }
    if (j.use & 32)
    {
        std::string e;
        try { e = b->encode(); }
        catch (wreport::error_alloc&) { throw; }
        catch (wreport::error& er) { Host h; text += "encode: error " + std::to_string(er.code()) + "\n"; return; }
        Host h; text += "encoded " + std::string(e.data(), e.size());
    }
}

struct Result { Out out; std::string text; };
Result go(const Job& j)
{
    Result r;
    OutStream sink; FILE* f = sink.open_plain();
    std::ostringstream os;
    r.out = call([&] {
        if (j.crex) perform<CrexBulletin>(j, f, r.text); else perform<BufrBulletin>(j, f, r.text);
    });
    sink.close();
    r.text = r.out.str() + "\n" + r.text + sink.data;
    return r;
}

std::string where(const std::string& a, const std::string& b)
{
    size_t p = 0;
    while (p < a.size() && p < b.size() && a[p] == b[p]) ++p;
    size_t q = p > 60 ? p - 60 : 0;
    return "at " + std::to_string(p) + ": '" + printable(a.substr(q), 140) + "' / '" + printable(b.substr(q), 140) + "'";
}

// ---------------------------------------------------------------- P10

void run_p10()
{
    unsigned n = 1 + draw(2, "jobs");
    for (unsigned i = 0; i < n; ++i)
    {
        Job j = draw_job(chance(3, 4, "small"));
        note("job: %s, mode %u, use %u, %zu bytes", j.from.c_str(), j.how, j.use, j.wire.size());
        phase("reference");
        // twice: the first time fills the caches
        go(j);
        alloc::reset_count();
        Result ref = go(j);
        uint64_t total = alloc::count();
        if (ref.out.kind == Kind::BadAlloc || ref.out.kind == Kind::OtherException) violation("refused", "handling a message: %s", ref.out.str().c_str());
        if (!total) continue;
        unsigned tries = 1 + draw(6, "tries");
        for (unsigned t = 0; t < tries; ++t)
        {
            uint64_t at;
            switch (draw(3, "where"))
            {
                case 0: at = 1 + draw(total, "alloc-fail-at"); break;
                case 1: at = total - draw(std::min<uint64_t>(total, 12), "alloc-fail-at"); break;
                default: at = 1 + draw(std::min<uint64_t>(total, 40), "alloc-fail-at");
            }
            bool sticky = chance(1, 3, "sticky");
            static const int fills[] = {0xa5, 0x00, 0xff};
            alloc::set_fill(fills[draw(3, "fill")]);
            phase("starved at %llu of %llu%s", (unsigned long long)at, (unsigned long long)total, sticky ? " and from then on" : "");
            alloc::record_sites(true);
            alloc::Mark m = alloc::mark();
            alloc::fail_at(at, sticky);
            Result r = go(j);
            bool fired = alloc::fired();
            alloc::disarm();
            if (!fired) violation("not-repeatable", "handling the same message again makes fewer allocations (%llu of %llu)", (unsigned long long)alloc::count(), (unsigned long long)total);
            if (r.out.kind == Kind::OtherException) violation("foreign-exception", "lack of memory at allocation %llu of %llu gives %s (%s)", (unsigned long long)at, (unsigned long long)total, r.out.str().c_str(), j.from.c_str());
            if (r.out.kind == Kind::BadAlloc) count("probe.starved");
            else
            {
                // it made do without that memory: the outcome has to be the right one
                // (the wording of an error may suffer)
                if (r.out.kind == Kind::Error && ref.out.kind == Kind::Error && r.out.code == ref.out.code) count("probe.error_anyway");
                else if (r.text != ref.text) violation("wrong-outcome", "lack of memory at allocation %llu of %llu is not reported, and changes the outcome: %s (%s)", (unsigned long long)at, (unsigned long long)total, where(ref.text, r.text).c_str(), j.from.c_str());
                count("probe.made_do");
            }
            alloc::Mark e = alloc::mark();
            if (e.live_objs != m.live_objs)
                violation("leak", "%lld objects (%lld bytes) remain after memory ran out at allocation %llu of %llu %s", (long long)(e.live_objs - m.live_objs), (long long)(e.live_bytes - m.live_bytes), (unsigned long long)at, (unsigned long long)total, alloc::describe_live_since(m.seq).c_str());
            alloc::record_sites(false);
            phase("afterwards");
            Result a = go(j);
            if (a.text != ref.text) violation("lasting-effect", "after memory ran out at allocation %llu of %llu the same message is handled differently: %s (%s)", (unsigned long long)at, (unsigned long long)total, where(ref.text, a.text).c_str(), j.from.c_str());
            ev("job %u starved at %llu of %llu: %s", i, (unsigned long long)at, (unsigned long long)total, r.out.str().c_str());
            nontrivial();
            count("probe.judged");
        }
        if (j.how == 2) count("probe.verbose");
        if (j.crex) count("probe.crex");
        if (j.use & 32) count("probe.encoded");
        hash_bytes(ref.text.data(), ref.text.size());
    }
}

// ---------------------------------------------------------------- P09

void disturb()
{
    switch (draw(9, "disturb"))
    {
        case 0: case 1: case 2: case 3: { go(draw_job(true)); count("history.message"); break; }
        case 4:
        {
            Job j = draw_job(true);
            alloc::fail_at(1 + draw(400, "alloc-fail-at"), chance(1, 3, "sticky"));
            Result r = go(j);
            alloc::disarm();
            if (r.out.kind == Kind::OtherException) violation("foreign-exception", "lack of memory gives %s", r.out.str().c_str());
            count("history.starved");
            break;
        }
        case 5:
        {
            // the disk fails while tables may have to be loaded
            Job j = draw_job(true);
            unsigned at = draw(30, "io-fail-at"), seen = 0;
            vfs::policy.fail = [&](const char*, const std::string&) { if (seen++ == at) { fault("fault.table_io_error"); return EIO; } return 0; };
            go(j);
            vfs::policy.fail = nullptr;
            count("history.disk_failed");
            break;
        }
        case 6:
        {
            // tables looked up and altered by the application
            unsigned v = peer::versions()[draw(peer::versions().size(), "version")];
            const auto& t = peer::table(v);
            peer::Code c = pick(t.num, "code");
            int sc = (int)draw(9, "scale") - 2; unsigned bits = 1 + draw(31, "bits"); int ref = chance(1, 2, "ref") ? 0 : -(int)draw(5000, "ref");
            Out o = call([&] {
                Tables tt; tt.load_bufr(BufrTableID(0, 0, 0, v, 0));
                tt.btable->query(c);
                tt.btable->query_altered(c, sc, bits, ref);
            });
            if (o.kind == Kind::OtherException) violation("foreign-exception", "altering a table entry gives %s", o.str().c_str());
            count("history.altered");
            break;
        }
        case 7:
        {
            // the application sets values out of range with various options
            Out o = call([&] {
                Tables tt; tt.load_bufr(BufrTableID(0, 0, 0, 24, 0));
                Var v(tt.btable->query(WR_VAR(0, 1, 1)));
                { auto g = options::local_override(options::var_silent_domain_errors, true); v.seti(1000000); }
                { auto g = options::local_override(options::var_clamp_domain_errors, true); v.seti(1000000); }
                v.seti(1000000);
            });
            if (o.ok()) violation("options", "an override of the options outlives its scope");
            break;
        }
        case 8:
        {
            // a request for tables that are not there
            Out o = call([&] { Tables tt; tt.load_bufr(BufrTableID(0, 0, draw(3, "master") + 30, 250, 0)); });
            if (o.ok()) count("history.odd_table_found");
            break;
        }
    }
}

std::string digest(const std::string& s)
{
    char h[40]; snprintf(h, 40, "%016llx %zu\n", (unsigned long long)fnv(s), s.size());
    return h + s.substr(0, 60000);
}

void run_p09()
{
    // the messages that will be judged, and what a new process makes of them
    unsigned n = 1 + draw(3, "targets");
    std::vector<Job> jobs;
    std::vector<std::string> want;
    for (unsigned i = 0; i < n; ++i)
    {
        jobs.push_back(draw_job(chance(1, 2, "small")));
        phase("in a new process");
        want.push_back(in_fork([&] { alloc::set_fill(0x00); return digest(go(jobs.back()).text); }));
    }
    static const int fills[] = {0xa5, 0xff, 0x01};
    alloc::set_fill(fills[draw(3, "fill")]);
    unsigned h = draw(8, "history");
    unsigned reps = 1 + draw(2, "rounds");
    for (unsigned r = 0; r < reps; ++r)
    {
        for (unsigned i = 0; i < h; ++i) { phase("history"); disturb(); }
        for (unsigned i = 0; i < n; ++i)
        {
            phase("judged");
            Result g = go(jobs[i]);
            std::string got = digest(g.text);
            if (got != want[i])
                violation("depends-on-history", "a message (%s) is handled differently than in a new process, %s", jobs[i].from.c_str(), where(want[i], got).c_str());
            count("probe.judged");
            if (g.out.ok()) count("probe.decoded"); else count("probe.refused");
            if (jobs[i].crex) count("probe.crex");
            nontrivial();
            hash_bytes(got.data(), got.size());
            ev("target %u: %s", i, g.out.str().c_str());
            if (h && chance(1, 2, "between")) disturb();
        }
    }
}

}

SIM_SCENARIO(P10, prepare_warm, run_p10)
SIM_SCENARIO(P09, prepare_cold, run_p09)
