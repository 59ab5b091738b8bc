// P01/P02: extracting messages from a byte stream.  P03: appending messages.
#include "lib.h"
#include "gen.h"
#include "scan.h"
#include <wreport/bulletin.h>

using namespace sim;
using namespace wreport;

static const size_t NPOS = std::string::npos;

namespace sim { namespace scan {

std::string garbage(bool crex)
{
    static const char* bufr_bits[] = {"B", "BU", "BUF", "BB", "BUFB", "FR", "\r\r\n", "ISMD01 LIIB 301200\r\r\n", "7777", "BUBU", "R", "bufr", "\x01\r\r\n123\r\r\n"};
    static const char* crex_bits[] = {"C", "CR", "CRE", "CREX", "CREX+", "CC", "CREC", "X++", "\r\r\n", "KMID 301200\r\r\n", "7777", "++", "+", "crex++", "\x03"};
    std::string r;
    unsigned n = draw(5, "garbage-pieces");
    for (unsigned i = 0; i < n; ++i)
    {
        if (draw(3, "garbage-kind") == 2)
        {
            unsigned k = 1 + draw(40, "garbage-len");
            for (unsigned j = 0; j < k; ++j) r += (char)draw(256, "garbage-byte");
        }
        else if (crex)
            r += crex_bits[draw(sizeof(crex_bits) / sizeof(*crex_bits), "garbage-piece")];
        else
            r += bufr_bits[draw(sizeof(bufr_bits) / sizeof(*bufr_bits), "garbage-piece")];
    }
    return r;
}

}}
using sim::scan::garbage;
using sim::scan::Expect;
using sim::scan::model;

namespace {

std::string rand_bytes(unsigned n, const char* alphabet)
{
    std::string r;
    r.reserve(n);
    if (n > 600)
    {
        // long payloads come from one draw
        uint64_t s = draw64("payload-seed") | 1;
        for (unsigned i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; r += (char)(s >> 56); }
        return r;
    }
    size_t a = strlen(alphabet);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned v = draw(256 + 2 * a, "payload-byte");
        r += v < 256 ? (char)v : alphabet[(v - 256) % a];
    }
    return r;
}

std::string bufr_msg()
{
    unsigned len;
    switch (draw(6, "bufr-size"))
    {
        case 0: case 1: len = 12 + draw(60, "bufr-len"); break;
        case 2: len = 12; break;
        case 3: len = 12 + draw(600, "bufr-len"); break;
        case 4: len = 3000 + draw(9000, "bufr-len"); break;
        default:
            if (draw(24, "big") < 23) { len = 65530 + draw(12, "bufr-len"); break; }
            // up to the longest the size can say
            len = std::min(0xffffffu, (65536u << draw(9, "bufr-bits")) - 3 + draw(8, "bufr-len"));
            count("probe.big_message");
            break;
    }
    unsigned declared = len;
    // the declared size is sometimes impossible
    if (chance(1, 24, "bad-size")) { declared = draw(12, "declared"); }
    std::string r = "BUFR";
    r += (char)(declared >> 16); r += (char)(declared >> 8); r += (char)declared;
    r += (char)(2 + draw(3, "edition"));
    r += rand_bytes(len - 12, "BUFR7");
    r += chance(1, 8, "no-7777") ? "BUFR" : "7777";
    return r;
}

std::string crex_msg()
{
    static const char* pieces[] = {"+", "++", "+++", "\r", "\n", "\r\r\n", "7", "77", "777", "7777", "T000103 A001 D07005", "0 1 2345 /////", "++\r\r\n777", "++ 7777", "++7777", "CREX", "CREX++", "+\r\n7777", "SUPP", " 0000 ++++", "++\r77\n77", "++\r7\n7777", "++\n77\r7777", "++\r\n777\r\n7777", "++\n7\n7\n7\n7", "++\r\n7+7777", "++\r\n77++\r\n7777"};
    std::string r = "CREX++";
    unsigned n = draw(10, "crex-pieces");
    for (unsigned i = 0; i < n; ++i)
    {
        if (draw(4, "crex-piece-kind") == 3) r += rand_bytes(1 + draw(50, "crex-len"), "+\r\n7");
        else r += pieces[draw(sizeof(pieces) / sizeof(*pieces), "crex-piece")];
    }
    if (chance(1, 10, "crex-long")) r += rand_bytes(5000, "+");
    r += "++";
    unsigned eols = 1 + draw(4, "crex-eols");
    for (unsigned i = 0; i < eols; ++i) r += draw(2, "crex-eol") ? '\n' : '\r';
    r += "7777";
    return r;
}

// First place at or after pos where "++" (CR|LF)+ "7777" ends, or npos
size_t crex_end(const std::string& d, size_t pos)
{
    for (size_t i = pos; i + 2 <= d.size(); ++i)
    {
        if (d[i] != '+' || d[i + 1] != '+') continue;
        size_t j = i + 2;
        while (j < d.size() && (d[j] == '\r' || d[j] == '\n')) ++j;
        if (j == i + 2) continue;
        if (d.compare(j, 4, "7777") == 0) return j + 4;
    }
    return NPOS;
}

}

// Reference model: what reading from `pos` must give.  `lim` is the number of
// bytes that can be read; `err`: reading past lim is an I/O error, not EOF.
Expect sim::scan::model(const std::string& data, size_t pos, size_t lim, bool err, bool crex)
{
    Expect e;
    std::string d = data.substr(0, lim);
    const char* sig = crex ? "CREX++" : "BUFR";
    size_t siglen = strlen(sig);
    size_t s = d.find(sig, pos);
    if (s == NPOS) { e.kind = err ? Expect::FAIL : Expect::END; e.next = NPOS; return e; }
    if (crex)
    {
        size_t end = crex_end(d, s + siglen);
        if (end == NPOS) { e.kind = Expect::FAIL; e.next = NPOS; return e; }
        e.kind = Expect::MSG; e.start = s; e.end = e.next = end;
        return e;
    }
    if (s + 8 > lim) { e.kind = Expect::FAIL; e.next = NPOS; return e; }
    size_t len = ((uint8_t)d[s + 4] << 16) | ((uint8_t)d[s + 5] << 8) | (uint8_t)d[s + 6];
    if (len < 12) { e.kind = Expect::FAIL; e.next = s + 8; return e; }
    if (s + len > lim) { e.kind = Expect::FAIL; e.next = NPOS; return e; }
    e.kind = Expect::MSG; e.start = s; e.end = e.next = s + len;
    return e;
}

namespace {

// One reader working through one stream
void reader(bool crex, int idx, bool yields)
{
    // the peer's bytes
    std::string data;
    unsigned nmsg = draw(5, "messages");
    for (unsigned i = 0; i < nmsg; ++i)
    {
        data += garbage(crex);
        data += crex ? crex_msg() : (chance(1, 4, "real-message") ? gen::corpus_bufr() : bufr_msg());
    }
    data += garbage(crex);

    InStream in(data);
    in.yields = yields;
    in.clobber_errno = chance(1, 6, "errno-clobber");
    in.seekable = !chance(1, 5, "pipe");
    if (!data.empty() && chance(1, 3, "truncate"))
    {
        in.eof_at = draw(data.size(), "eof-at");
        fault("fault.stream_truncated");
    }
    if (!data.empty() && chance(1, 3, "io-error"))
    {
        in.err_at = draw(in.eof_at + 1, "err-at");
        in.err_no = draw(2, "err-kind") ? EINTR : EIO;
        in.err_sticky = draw(2, "err-sticky") == 0;
    }
    if (in.seekable && chance(1, 8, "far"))
    {
        // far into a big file
        static const off_t far[] = { 1000, 0x7fffffff - 200, 0x7fffffff, 0x80000000, 0xffffffff - 100, 0x100000000, 0x10000000000 };
        in.base = far[draw(7, "how-far")] + draw(100, "base");
        count("probe.far");
    }
    FILE* fp = in.open_seeded();
    if (data.size() > 500000) in.max_chunk = 0;
    if (in.base && fseeko(fp, in.base, SEEK_SET) != 0) harness_error("fseeko");

    size_t pos = 0;
    if (in.seekable && in.eof_at > 0 && in.err_at < 0 && chance(1, 6, "start-inside"))
    {
        pos = draw(in.eof_at, "start-at");
        if (fseeko(fp, in.base + pos, SEEK_SET) != 0) harness_error("fseeko");
    }
    size_t lim = in.eof_at;
    bool err = false;
    if (in.err_at >= 0 && (size_t)in.err_at <= lim) { lim = in.err_at; err = true; }

    bool named = draw(2, "named");
    std::string fname = "peer" + std::to_string(idx);
    std::string buf;
    unsigned good = 0;
    ev("reader %d: %zu bytes, limit %zu%s%s", idx, data.size(), lim, err ? " then I/O error" : "", crex ? " (CREX)" : "");
    if (sh->sample[0] == 0)
        snprintf(sh->sample, sizeof(sh->sample), "stream of %zu bytes, readable %zu%s, chunk<=%u, starts \"%s\"", data.size(), lim, err ? " then error" : "", in.max_chunk, printable(data, 80).c_str());

    for (unsigned step = 0; step < 12; ++step)
    {
        Expect e = model(data, pos, lim, err, crex);
        if (chance(1, 3, "stale-buffer")) buf = "stale contents BUFR CREX++";
        off_t offset = -77;
        bool want_off = in.seekable && draw(2, "want-offset");
        bool got = false;
        phase("%s::read", crex ? "CrexBulletin" : "BufrBulletin");
        static const int stale[] = {0, EINTR, ENOENT, ENOTTY};
        int se = stale[draw(4, "stale-errno")];
        Out o = call([&]{
            errno = se;
            const char* n = named ? fname.c_str() : nullptr;
            got = crex ? CrexBulletin::read(fp, buf, n, want_off ? &offset : nullptr)
                       : BufrBulletin::read(fp, buf, n, want_off ? &offset : nullptr);
        });
        ev("reader %d read#%u: %s got=%d size=%zu", idx, step, o.ok() ? "ok" : "error", (int)got, got ? buf.size() : 0);
        if (o.kind == Kind::OtherException || o.kind == Kind::BadAlloc)
            violation("stream:wrong-exception", "reading at %zu gave %s", pos, o.str().c_str());
        switch (e.kind)
        {
            case Expect::MSG:
                if (!o.ok())
                    violation("stream:intact-message-rejected", "message at %zu..%zu (limit %zu): %s; bytes before it: \"%s\"", e.start, e.end, lim, o.str().c_str(), printable(data.substr(pos, e.start - pos)).c_str());
                if (!got)
                    violation("stream:message-missed", "end of stream reported, but there is a message at %zu..%zu; bytes before it: \"%s\"", e.start, e.end, printable(data.substr(pos, e.start - pos)).c_str());
                if (buf != data.substr(e.start, e.end - e.start))
                    violation("stream:wrong-bytes", "message at %zu..%zu came back as %zu other bytes: \"%s\" (from position %zu: \"%s\")", e.start, e.end, buf.size(), printable(buf).c_str(), pos, printable(data.substr(pos, 60)).c_str());
                if (want_off && offset != in.base + (off_t)e.start)
                    violation("stream:wrong-offset", "message at %lld reported at offset %lld", (long long)(in.base + e.start), (long long)offset);
                ++good;
                count("probe.message_read");
                pos = e.next;
                break;
            case Expect::END:
                if (!o.ok())
                    violation("stream:eof-not-clean", "no more messages after %zu, but got %s", pos, o.str().c_str());
                if (got)
                    violation("stream:phantom-message", "no message after %zu, but %zu bytes were returned: %s", pos, buf.size(), printable(buf).c_str());
                count("probe.clean_eof");
                if (step > 0 || chance(1, 2, "again")) { nontrivial(); }
                // asking again at EOF must give EOF again
                {
                    bool again = true;
                    Out o2 = call([&]{ again = crex ? CrexBulletin::read(fp, buf) : BufrBulletin::read(fp, buf); });
                    if (!o2.ok() || again) violation("stream:eof-not-stable", "second read at end of stream gave %s", o2.ok() ? "a message" : o2.str().c_str());
                }
                return;
            case Expect::FAIL:
                if (o.ok())
                    violation(err ? "stream:io-error-hidden" : "stream:damage-hidden", "read at %zu returned %s (size %zu) although the message is incomplete or unreadable (limit %zu, io error: %d)", pos, got ? "true" : "false", buf.size(), lim, (int)err);
                if (o.msg.empty()) violation("stream:empty-error", "error without a message");
                count("probe.error_reported");
                nontrivial();
                if (e.next == NPOS) return;
                pos = e.next;
                break;
        }
    }
    if (good) nontrivial();
}

void run_reader(bool crex)
{
    if (chance(1, 4, "concurrent"))
    {
        unsigned n = 2 + draw(2, "readers");
        std::vector<std::function<void()>> tasks;
        for (unsigned i = 0; i < n; ++i)
            tasks.push_back([=]{ reader(i == 1 ? draw(2, "other-format") : crex, i, true); });
        run_tasks(tasks);
    }
    else
        reader(crex, 0, false);
}

void run_p01() { run_reader(false); }
void run_p02() { run_reader(true); }

// ---------------------------------------------------------------- P03
void writer(int idx, bool yields)
{
    bool crex = draw(2, "crex");
    unsigned n = 1 + draw(5, "messages");
    OutStream out;
    out.yields = yields;
    out.clobber_errno = chance(1, 6, "errno-clobber");
    std::vector<std::string> msgs;
    std::string full;
    for (unsigned i = 0; i < n; ++i)
    {
        msgs.push_back(crex ? crex_msg() : bufr_msg());
        full += msgs.back();
        if (crex) full += "\r\r\n";
    }
    if (chance(1, 2, "sink-fails"))
    {
        out.fail_at = draw(full.size() + 1, "sink-room");
        out.fail_errno = draw(2, "sink-errno") ? EIO : ENOSPC;
    }
    FILE* fp = out.open_seeded();
    bool named = draw(2, "named");
    std::string accepted;   // concatenation of what write() accepted
    bool failed = false;
    ev("writer %d: %u messages, %zu bytes, room %zd", idx, n, full.size(), out.fail_at);
    for (unsigned i = 0; i < n && !failed; ++i)
    {
        phase("write");
        std::string fname = "sink";
        Out o = call([&]{
            errno = 0;
            const char* nm = named ? fname.c_str() : nullptr;
            if (crex) CrexBulletin::write(msgs[i], fp, nm); else BufrBulletin::write(msgs[i], fp, nm);
        });
        ev("writer %d write#%u: %s", idx, i, o.ok() ? "ok" : "error");
        std::string want = msgs[i] + (crex ? "\r\r\n" : "");
        if (o.kind == Kind::OtherException || o.kind == Kind::BadAlloc)
            violation("write:wrong-exception", "%s", o.str().c_str());
        if (o.ok())
        {
            accepted += want;
            if (out.unbuffered && out.data != accepted)
                violation("write:loss", "write of message %u returned normally on an unbuffered stream, %zu bytes expected at the sink, %zu there", i, accepted.size(), out.data.size());
            // a flush that the application asks for must make it reach the sink
            if (chance(1, 2, "flush"))
            {
                int r = fflush(fp);
                if (r == 0 && out.data != accepted)
                    violation("write:loss", "accepted and flushed %zu bytes, the sink has %zu (%s)", accepted.size(), out.data.size(), accepted.compare(0, out.data.size(), out.data) ? "different bytes" : "a prefix");
                if (r != 0) { if (!out.fired) violation("write:spurious", "flush failed without a fault"); failed = true; }
            }
        }
        else
        {
            if (!out.fired)
                violation("write:spurious-error", "nothing failed, but write of message %u of %zu bytes said %s", i, msgs[i].size(), o.str().c_str());
            count("probe.write_error_reported");
            failed = true;
            accepted += want;
        }
        // whatever happens, the sink holds a prefix of the messages in order
        if (out.data.size() > accepted.size() || accepted.compare(0, out.data.size(), out.data) != 0)
            violation("write:corruption", "the sink holds bytes that were never written in this order (%zu bytes there)", out.data.size());
    }
    if (!failed)
    {
        int r = fflush(fp);
        if (r == 0 && out.data != full)
            violation("write:loss", "everything accepted and flushed without error: expected %zu bytes, sink has %zu", full.size(), out.data.size());
        if (r != 0 && !out.fired) violation("write:spurious", "flush failed without a fault");
        if (r == 0)
        {
            count("probe.all_written");
            // and the reading side finds it all again
            std::string pending = out.data;
            InStream in(pending);
            FILE* ip = in.open_seeded();
            size_t pos = 0;
            for (;;)
            {
                Expect e = model(pending, pos, pending.size(), false, crex);
                std::string buf; bool got = false;
                Out o = call([&]{ got = crex ? CrexBulletin::read(ip, buf) : BufrBulletin::read(ip, buf); });
                if (e.kind == Expect::FAIL) { if (o.ok()) violation("write:readback", "damaged message read back as good"); if (e.next == NPOS) break; pos = e.next; continue; }
                if (!o.ok() || got != (e.kind == Expect::MSG)) violation("write:readback", "reading back at %zu: %s", pos, o.str().c_str());
                if (!got) break;
                if (buf != pending.substr(e.start, e.end - e.start)) violation("write:readback", "read back different bytes at %zu", pos);
                pos = e.next;
            }
        }
    }
    nontrivial();
    if (sh->sample[0] == 0)
        snprintf(sh->sample, sizeof(sh->sample), "%u messages, %zu bytes, sink room %zd, outcome %s", n, full.size(), out.fail_at, failed ? "failed" : "all written");
}

void run_p03()
{
    if (chance(1, 4, "concurrent"))
    {
        unsigned n = 2 + draw(2, "writers");
        std::vector<std::function<void()>> tasks;
        for (unsigned i = 0; i < n; ++i) tasks.push_back([=]{ writer(i, true); });
        run_tasks(tasks);
    }
    else
        writer(0, false);
}

}

SIM_SCENARIO(P01, gen::prepare_corpus, run_p01)
SIM_SCENARIO(P02, gen::prepare_corpus, run_p02)
SIM_SCENARIO(P03, nullptr, run_p03)
