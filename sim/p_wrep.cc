// P15: the command line tool.  Its main() runs as a simulated process: input
// files live on the simulated file system, standard output and standard error
// are simulated sinks, reads and writes fail where the seed says.
#include "lib.h"
#include "gen.h"
#include "peer.h"
#include "crexpeer.h"
#include "scan.h"
#include "vfs.h"
#include <wreport/bulletin.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <set>
#include <wreport/notes.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/var.h>
#include <getopt.h>
#include <iostream>
#include <sstream>

using namespace sim;
using namespace wreport;

int wrep_main(int argc, char* argv[]);

namespace {

void prepare_p15()
{
    gen::prepare_corpus();
    gen::prepare_tables();
    peer::prepare();
    crexpeer::prepare();
    // the tables most messages need
    Sut s;
    Tables t;
    for (unsigned v: peer::versions()) t.load_bufr(BufrTableID(0, 0, 0, v, 0));
    t.load_crex(CrexTableID(1, 0, 0, 0, 3, 0, 0));
    t.load_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0));
}

enum Act { DUMP, TRACE, STRUCT, DDS, PRINT, UNPARSABLE, TABLES, FEATURES, N_ACTS };

struct File
{
    std::string name;
    std::string data;
    bool missing = false, dir = false;
    int open_errno = 0;
    ssize_t err_at = -1;             // reading fails there
};

struct Msg { std::string raw, fname; off_t offset; };
// messages as their producer made them
std::set<std::string> pristine;

// The features of a data description, from the descriptors alone
struct FeatureWalk
{
    const Tables& tables;
    std::set<std::string> found;
    bool bitmap = false;
    // something here is not in the tables at hand: the tool may refuse it
    bool unknown = false;
    FeatureWalk(const Tables& t) : tables(t) {}
    static std::string name(Varcode c)
    {
        char b[16];
        snprintf(b, sizeof b, "%c%02d%03d", "BRCD"[WR_VAR_F(c)], WR_VAR_X(c), WR_VAR_Y(c));
        return b;
    }
    void walk(const std::vector<Varcode>& l)
    {
        for (size_t i = 0; i < l.size(); ++i)
        {
            Varcode c = l[i];
            if (WR_VAR_F(c) == 1)
            {
                std::string n = "Rxxyyy";
                if (!WR_VAR_Y(c))
                {
                    n = "Rxx000:B31012";
                    if (i + 1 < l.size() && WR_VAR_F(l[i + 1]) == 0 && WR_VAR_X(l[i + 1]) == 31) n = "Rxx000:" + name(l[++i]);
                }
                size_t e = std::min(l.size(), i + 1 + WR_VAR_X(c));
                if (bitmap) bitmap = false;
                else { found.insert(n); walk(std::vector<Varcode>(l.begin() + i + 1, l.begin() + e)); }
                i = e - 1;
            }
            else if (WR_VAR_F(c) == 2)
            {
                std::string n = name(c);
                if (WR_VAR_X(c) == 6 && i + 1 < l.size()) n += ":" + name(l[++i]);
                else if (WR_VAR_X(c) == 4 && WR_VAR_Y(c)) ++i;
                else if (c == WR_VAR(2, 22, 0) || c == WR_VAR(2, 23, 0)) bitmap = true;
                else if (c == WR_VAR(2, 37, 0)) bitmap = false;
                found.insert(n);
            }
            else if (WR_VAR_F(c) == 0)
            {
                if (!tables.btable->contains(c)) unknown = true;
            }
            else if (WR_VAR_F(c) == 3)
            {
                std::vector<Varcode> sub;
                Opcodes ops = tables.dtable->query(c);
                for (unsigned k = 0; k < ops.size(); ++k) sub.push_back(ops[k]);
                walk(sub);
            }
        }
    }
};

std::string message(bool crex)
{
    std::string w;
    if (crex)
    {
        if (chance(1, 4, "recorded")) w = gen::corpus_crex();
        else w = crexpeer::draw_message(20, 3).wire;
    } else {
        if (chance(1, 4, "recorded")) { w = gen::corpus_bufr(); if (w.size() > 6000) w.clear(); }
        if (w.empty()) { peer::Opts o; o.max_subsets = 3; o.max_vars = 30; w = peer::draw_message(o).wire; }
    }
    switch (draw(5, "message-fate"))
    {
        case 3:
            // damaged inside: may or may not be decodable any more
            for (unsigned i = 0, n = 1 + draw(4, "hits"); i < n; ++i)
                w[8 + draw(w.size() - 8, "at")] ^= 1 << draw(8, "bit");
            fault("fault.message_damaged");
            break;
        case 4:
            if (crex)
            {
                size_t p = w.find("++", 6);
                if (p != std::string::npos && p > 8) w[6 + draw(p - 6, "at")] = '?';
            } else if (draw(2, "how"))
                w[7] = (char)draw(256, "edition");
            else
                w[w.size() - 1 - draw(4, "at")] = 'x';
            fault("fault.message_damaged");
            break;
        default: pristine.insert(w); break;
    }
    return w;
}

// What the tool must print for one message; true if the message was fine
bool render(Act act, bool crex, const Msg& m, const std::vector<Varcode>& codes, bool first_row, std::string& out, std::string& err, bool& printed_row)
{
    OutStream os;
    os.open_plain();
    FILE* fp = os.fp;
    Out o = call([&] {
        std::unique_ptr<Bulletin> b;
        const char* fn = m.fname.c_str();
        bool head = act == DDS || act == TABLES || act == FEATURES;
        if (crex) b = CrexBulletin::decode(m.raw, fn, m.offset);
        else if (act == TRACE) b = BufrBulletin::decode_verbose(m.raw, fp, fn, m.offset);
        else if (head) b = BufrBulletin::decode_header(m.raw, fn, m.offset);
        else b = BufrBulletin::decode(m.raw, fn, m.offset);
        switch (act)
        {
            case DUMP: b->print(fp); break;
            case STRUCT: b->print_structured(fp); break;
            case DDS: b->print_datadesc(fp); break;
            case PRINT:
                for (size_t s = 0; s < b->subsets.size(); ++s)
                {
                    fprintf(fp, "%s:%zu:", fn, s + 1);
                    for (Varcode c: codes)
                        for (size_t i = 0; i < b->subsets[s].size(); ++i)
                            if (b->subsets[s][i].code() == c)
                            {
                                fprintf(fp, "\t%s", b->subsets[s][i].format().c_str());
                                break;
                            }
                    fputc('\n', fp);
                }
                break;
            case TABLES:
                if (auto* x = dynamic_cast<BufrBulletin*>(b.get()))
                {
                    if (first_row)
                    {
                        std::string t = "Filename";
                        while (t.size() < m.fname.size()) t += ' ';
                        fprintf(fp, "%s\tOffset\tCentre\tSubc.\tMaster\tLocal\n", t.c_str());
                    }
                    fprintf(fp, "%s\t%lld\t%d\t%d\t%d\t%d\n", fn, (long long)m.offset, x->originating_centre, x->originating_subcentre, x->master_table_version_number, x->master_table_version_number_local);
                } else {
                    auto* y = dynamic_cast<CrexBulletin*>(b.get());
                    if (first_row) fprintf(fp, "Filename\tOffset\tMaster\tEdition\tTable\n");
                    fprintf(fp, "%s\t%lld\t%d\t%d\t%d\n", fn, (long long)m.offset, y->master_table_number, y->edition_number, y->master_table_version_number);
                }
                printed_row = true;
                break;
            case FEATURES:
            {
                std::set<std::string> found;
                bool known = false;
                { Host h; known = pristine.count(m.raw); }
                FeatureWalk w(b->tables);
                if (known) w.walk(b->datadesc);
                if (known && !w.unknown)
                    found = w.found;
                else {
                    bulletin::ScanFeatures scan(b->tables, b->datadesc);
                    scan.run();
                    found = scan.features;
                }
                std::string l;
                for (auto& f: found) l += (l.empty() ? "" : ",") + f;
                fprintf(fp, "%s:%lld:%s\n", fn, (long long)m.offset, l.c_str());
                break;
            }
            default: break;
        }
    });
    os.close();
    out = os.data;
    err = o.msg;
    return o.ok();
}

// The tool run once: what it printed, reported, and its exit status
struct Tool
{
    OutStream so, se;
    int status = -1;
    std::string cmd;
    void run(std::vector<std::string>& args)
    {
        std::vector<char*> argv;
        for (auto& a: args) { argv.push_back(&a[0]); cmd += a + " "; }
        argv.push_back(nullptr);
        ev("%s", cmd.c_str());
        if (!sh->sample[0]) snprintf(sh->sample, sizeof sh->sample, "%s", cmd.c_str());
        FILE* o_out = stdout; FILE* o_err = stderr;
        so.open_seeded(); se.open_plain();
        std::ostringstream cerr_text;
        auto* o_cerr = std::cerr.rdbuf(cerr_text.rdbuf());
        stdout = so.fp; stderr = se.fp;
        optind = 0;
        phase("wrep");
        Out o = call([&] { status = wrep_main((int)args.size(), argv.data()); });
        // leaving main() closes the standard streams; failures there go unnoticed
        so.close();
        se.close();
        stdout = o_out; stderr = o_err;
        std::cerr.rdbuf(o_cerr);
        { Sut s; notes::set_target(std::cerr); }
        if (!o.ok()) violation("tool", "%s dies from an exception: %s", cmd.c_str(), o.str().c_str());
        if (vfs::open_fds()) violation("descriptors", "%s leaves files open:%s", cmd.c_str(), vfs::describe_fds().c_str());
    }
};

// Command lines that do not get as far as reading messages
void run_other()
{
    Tool t;
    std::vector<std::string> args{"wrep"};
    unsigned kind = draw(6, "other");
    if (draw(2, "crex")) args.push_back("-c");
    if (chance(1, 6, "verbose")) args.push_back("-v");
    bool file = draw(2, "file");
    std::vector<std::string> tables;
    vfs::put("/sim/in/f0.dat", "");
    switch (kind)
    {
        case 0: args.push_back(draw(2, "long") ? "--help" : "-h"); break;
        case 1:
            args.push_back(draw(2, "long") ? "--info" : "-i");
            if (draw(2, "extra")) setenv("WREPORT_EXTRA_TABLES", "/sim/extra one", 1);
            if (draw(2, "main")) setenv("WREPORT_TABLES", "/sim/main", 1);
            break;
        case 2:
            args.push_back(draw(2, "long") ? "--list-tables" : "-L");
            break;
        case 3: file = false; if (draw(2, "action")) args.push_back("-s"); break;
        case 4: { static const char* bad[] = {"-z", "--no-such-option", "-Q", "-p", "--print"}; unsigned k = draw(5, "bad"); if (k >= 3) file = false; args.push_back(bad[k]); break; }
        case 5: { static const char* bad[] = {"Bxx001", "B01001,B0A001", "temperature", "B01-01", "B0100 "}; args.push_back("-p"); args.push_back(bad[draw(5, "bad")]); break; }
    }
    if (file) args.push_back("/sim/in/f0.dat");
    if (chance(1, 4, "output-fails")) { t.so.fail_at = skewed(1500, "room"); t.so.fail_errno = draw(2, "errno") ? EIO : ENOSPC; }
    t.run(args);
    const std::string& out = t.so.data;
    if (kind >= 3)
    {
        if (!out.empty()) violation("output", "%s: output for a command line it cannot follow: \"%s\"", t.cmd.c_str(), printable(out, 100).c_str());
        if (t.status == 0) violation("status", "%s: exit status 0 for a command line it cannot follow", t.cmd.c_str());
        if (t.se.data.empty()) violation("report", "%s: nothing is reported", t.cmd.c_str());
        count("probe.bad_command_line");
    }
    else if (t.so.fired)
    {
        if (t.status == 0) violation("silent-loss", "%s: the output was not written whole (%zu bytes, errno %d), yet the exit status is 0", t.cmd.c_str(), out.size(), t.so.fail_errno);
        count("probe.output_failed");
    } else {
        if (t.status != 0) violation("status", "%s: exit status %d", t.cmd.c_str(), t.status);
        auto has = [&](const std::string& text) { if (out.find(text) == std::string::npos) violation("output", "%s: \"%s\" is not in \"%s\"", t.cmd.c_str(), text.c_str(), printable(out, 600).c_str()); };
        if (kind == 0)
        {
            for (const char* o: {"crex", "dump", "trace", "structure", "dds", "print", "info", "verbose", "unparsable", "tables", "features", "list-tables", "help"}) has(std::string(",--") + o);
        }
        else if (kind == 1)
        {
            if (const char* e = getenv("WREPORT_EXTRA_TABLES")) has(e);
            if (const char* e = getenv("WREPORT_TABLES")) has(e);
            has("/sim/tables");
        } else {
            // every table file once
            std::map<std::string, unsigned> lines;
            std::istringstream is(out);
            std::string l;
            while (std::getline(is, l)) { size_t p = l.find(':'); ++lines[l.substr(0, p)]; }
            size_t n = 0;
            for (auto& p: vfs::list("/sim/tables"))
            {
                if (p.size() < 5 || p[0] == 'D' || p.substr(p.size() - 4) != ".txt") continue;
                std::string id = "/sim/tables/" + p.substr(0, p.size() - 4);
                auto i = lines.find(id);
                if (i == lines.end() || i->second != 1) violation("output", "%s: %s is listed %u times", t.cmd.c_str(), id.c_str(), i == lines.end() ? 0 : i->second);
                ++n;
            }
            if (n < 3) violation("harness", "only %zu tables", n);
            if (lines.size() != n) violation("output", "%s: %zu lines for %zu tables", t.cmd.c_str(), lines.size(), n);
        }
        count("probe.information");
    }
    hash_bytes(out.data(), out.size());
    nontrivial();
}

void run_p15()
{
    if (chance(1, 12, "no-messages")) return run_other();
    bool crex = chance(1, 3, "crex");
    Act act = (Act)draw(N_ACTS, "action");
    if (chance(1, 4, "unparsable")) act = UNPARSABLE;

    // ---- the input files
    std::vector<File> files;
    unsigned nf = 1 + draw(4, "files");
    vfs::mkdirs("/sim/in/adir");
    for (unsigned i = 0; i < nf; ++i)
    {
        File f;
        f.name = "/sim/in/" + std::string(i % 2 ? "reports" : "f") + std::to_string(i) + ".dat";
        unsigned fate = draw(10, "file-fate");
        if (fate == 7) { f.missing = true; fault("fault.missing_file"); }
        else if (fate == 8) { f.dir = true; f.name = "/sim/in/adir"; fault("fault.input_is_directory"); }
        if (!f.missing && !f.dir)
        {
            unsigned n = draw(5, "messages");
            for (unsigned k = 0; k < n; ++k) { f.data += scan::garbage(crex); f.data += message(crex); }
            f.data += scan::garbage(crex);
            if (!f.data.empty())
            {
                switch (draw(8, "read-fault"))
                {
                    case 5: f.data.resize(draw(f.data.size(), "cut")); fault("fault.file_truncated"); break;
                    case 6: f.err_at = draw(f.data.size() + 1, "err-at"); break;
                    case 7: { static const int e[] = {EACCES, EMFILE, EIO}; f.open_errno = e[draw(3, "open-errno")]; fault("fault.open_failure"); break; }
                    default: break;
                }
            }
            vfs::put(f.name, f.data);
        }
        files.push_back(f);
    }
    unsigned chunk = draw(3, "chunk");
    auto file_at = [&](const std::string& p) -> File* { for (auto& f: files) if (f.name == p && !f.dir) return &f; return nullptr; };

    // ---- the command line
    std::vector<Varcode> codes;
    std::vector<std::string> args{"wrep"};
    if (crex) args.push_back(draw(2, "long") ? "--crex" : "-c");
    if (chance(1, 6, "verbose")) args.push_back(draw(2, "long") ? "--verbose" : "-v");
    // of several actions, the last one counts
    if (chance(1, 8, "another-action"))
    {
        static const char* others[] = {"-d", "-t", "-s", "-D", "-U", "-T", "-F", "-i", "-L", "-h"};
        args.push_back(others[draw(10, "other-action")]);
        if (act == DUMP) args.push_back("-d");
    }
    switch (act)
    {
        case DUMP: if (draw(2, "explicit")) args.push_back(draw(2, "long") ? "--dump" : "-d"); break;
        case TRACE: args.push_back(draw(2, "long") ? "--trace" : "-t"); break;
        case STRUCT: args.push_back(draw(2, "long") ? "--structure" : "-s"); break;
        case DDS: args.push_back(draw(2, "long") ? "--dds" : "-D"); break;
        case PRINT:
        {
            static const Varcode pool[] = {WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(0, 5, 1), WR_VAR(0, 6, 1), WR_VAR(0, 12, 101), WR_VAR(0, 1, 15), WR_VAR(0, 4, 1), WR_VAR(0, 31, 1), WR_VAR(0, 31, 2), WR_VAR(0, 20, 3)};
            std::string l;
            for (unsigned i = 0, n = 1 + draw(3, "codes"); i < n; ++i)
            {
                Varcode c = pool[draw(10, "code")];
                codes.push_back(c);
                char b[16]; snprintf(b, sizeof b, "%sB%02u%03u", i ? "," : "", WR_VAR_X(c), WR_VAR_Y(c));
                l += b;
            }
            if (draw(2, "long")) args.push_back("--print=" + l);
            else { args.push_back("-p"); args.push_back(l); }
            break;
        }
        case UNPARSABLE: args.push_back(draw(2, "long") ? "-U" : "--unparsable"); break;
        case TABLES: args.push_back(draw(2, "long") ? "--tables" : "-T"); break;
        case FEATURES: args.push_back(draw(2, "long") ? "--features" : "-F"); break;
        default: break;
    }
    std::vector<unsigned> order;
    for (unsigned i = 0; i < nf; ++i) order.push_back(i);
    if (chance(1, 5, "twice")) order.push_back(draw(nf, "again"));
    for (unsigned i: order) args.push_back(files[i].name);

    // ---- run the tool
    Tool tool;
    OutStream& so = tool.so; OutStream& se = tool.se;
    if (chance(1, 6, "output-fails")) { so.fail_at = skewed(3000, "room"); so.fail_errno = draw(2, "errno") ? EIO : ENOSPC; }
    vfs::policy.fail = [&](const char* c, const std::string& p) -> int {
        File* f = file_at(p);
        if (!f) return 0;
        if (f->open_errno && strcmp(c, "open") == 0) return f->open_errno;
        return 0;
    };
    std::map<std::string, size_t> done;
    // a read stops at the place where the medium is bad, the next one fails
    std::map<std::string, size_t> at;
    vfs::policy.shorten = [&](const char*, const std::string&, size_t n) -> size_t { return chunk == 0 ? n : chunk == 1 ? 1 + n / 3 : std::min<size_t>(n, 7); };
    vfs::set_read_error([&](const std::string& p, off_t pos) -> ssize_t {
        File* f = file_at(p);
        if (!f || f->err_at < 0) return -1;
        return f->err_at;
    });
    tool.run(args);
    const std::string& cmd = tool.cmd;
    int status = tool.status;
    vfs::policy = vfs::Policy();
    vfs::set_read_error(nullptr);

    // ---- what it must have done
    std::string want, name_err;
    size_t err_pos = 0;
    unsigned n_msg = 0, n_bad = 0, n_bad_files = 0, n_bad_codes = 0;
    bool first_row = true;
    (void)n_bad_codes;
    auto expect_log = [&](const std::string& text, const char* what) {
        size_t p = se.data.find(text, err_pos);
        if (p == std::string::npos) violation("report", "%s: %s is not reported: looked for \"%s\" in \"%s\"", cmd.c_str(), what, printable(text).c_str(), printable(se.data.substr(err_pos), 400).c_str());
        err_pos = p + text.size();
    };
    for (unsigned i: order)
    {
        const File& f = files[i];
        if (f.missing || f.dir || f.open_errno) { ++n_bad_files; expect_log(f.name + ":", "an unreadable file"); continue; }
        size_t pos = 0, lim = f.data.size();
        bool err = f.err_at >= 0;
        if (err) lim = f.err_at;
        for (;;)
        {
            scan::Expect e = scan::model(f.data, pos, lim, err, crex);
            if (e.kind == scan::Expect::END) break;
            if (e.kind == scan::Expect::FAIL) { ++n_bad_files; expect_log(f.name + ":", "a file that ends badly"); break; }
            Msg m{f.data.substr(e.start, e.end - e.start), f.name, (off_t)e.start};
            std::string text, why;
            ++n_msg;
            bool row = false;
            bool good = render(act, crex, m, codes, first_row, text, why, row);
            if (row) first_row = false;
            if (act == UNPARSABLE)
            {
                if (!good) { want += m.raw; expect_log(why + "\n", "a message that cannot be parsed"); }
            } else {
                want += text;
                if (!good) expect_log(f.name + ":" + std::to_string(e.start) + ":" + why + "\n", "a message that cannot be parsed");
            }
            if (!good) ++n_bad;
            pos = e.end;
        }
    }
    if (so.fired)
    {
        // the output device failed: what got there is a prefix, and the exit
        // status must not claim success
        if (want.compare(0, so.data.size(), so.data) != 0) violation("output", "%s: what reached a failing output is not the beginning of the result", cmd.c_str());
        if (status == 0) violation("silent-loss", "%s: %zu of %zu bytes of output were written (errno %d), yet the exit status is 0", cmd.c_str(), so.data.size(), want.size(), so.fail_errno);
        count("probe.output_failed");
    } else {
        if (so.data != want)
        {
            size_t p = 0;
            while (p < want.size() && p < so.data.size() && want[p] == so.data[p]) ++p;
            violation("output", "%s: output differs at byte %zu of %zu/%zu: expected \"%s\", found \"%s\"", cmd.c_str(), p, want.size(), so.data.size(), printable(want.substr(p), 100).c_str(), printable(so.data.substr(p), 100).c_str());
        }
        if (status != 0) violation("status", "%s: exit status %d although all of the output was written", cmd.c_str(), status);
    }
    // nothing else is reported
    size_t lines = 0;
    for (char c: se.data) if (c == '\n') ++lines;
    if (n_bad == 0 && n_bad_files == 0 && !so.fired)
    {
        std::string rest = se.data;
        // -v announces the files
        size_t p;
        while ((p = rest.find("Reading from ")) != std::string::npos) { size_t q = rest.find('\n', p); rest.erase(p, q - p + 1); }
        if (!rest.empty()) violation("report", "%s: nothing went wrong, yet it reports \"%s\"", cmd.c_str(), printable(rest, 200).c_str());
    }
    count("probe.messages", n_msg);
    count("probe.bad_messages", n_bad);
    if (n_bad_files) count("probe.bad_files", n_bad_files);
    if (act == UNPARSABLE && n_bad && n_bad < n_msg) count("probe.unparsable_mixed");
    if (crex) count("probe.crex"); else count("probe.bufr");
    static const char* names[] = {"probe.dump", "probe.trace", "probe.structure", "probe.dds", "probe.print", "probe.unparsable", "probe.tables", "probe.features"};
    count(names[act]);
    hash_bytes(so.data.data(), so.data.size());
    if (n_msg || n_bad_files) nontrivial();
}

}

SIM_SCENARIO(P15, prepare_p15, run_p15)
