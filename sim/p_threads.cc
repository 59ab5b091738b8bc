// P14: options and notes belong to the thread and the scope that set them.
#include "lib.h"
#include "gen.h"
#include <wreport/var.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <wreport/options.h>
#include <wreport/notes.h>
#include <climits>
#include <cmath>
#include <sstream>

using namespace sim;
using namespace wreport;

namespace {

_Varinfo num_info, dec_info, str_info, attr_info;
bool started_clean = true;

void prepare()
{
    num_info.set_bufr(WR_VAR(0, 63, 1), "number", "NUMERIC", 0, 3, 0, 8);
    dec_info.set_bufr(WR_VAR(0, 63, 2), "decimal", "K", 1, 4, 0, 12);
    str_info.set_string(WR_VAR(0, 63, 3), "text", 12);
    attr_info.set_bufr(WR_VAR(0, 33, 7), "quality", "%", 0, 3, 0, 7);
}

struct Leave { int levels; };   // thrown by the application through library scopes

// A stream the application collects notes in; other threads may run while it is written
struct Sink : public std::streambuf
{
    std::string data;
    unsigned owner;
    int overflow(int c) override { Host h; data += (char)c; check(); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { Host h; data.append(s, n); check(); yield_point("note"); return n; }
    void check() { if ((unsigned)task_id() != owner) violation("note-misdirected", "a note of thread %d went to a stream of thread %u: %s", task_id(), owner, printable(data, 100).c_str()); }
};

struct Thread;
struct Hook : public options::DomainErrorHook
{
    Thread* t;
    unsigned calls = 0;
    Var* var = nullptr;
    bool is_int = false; int iv = 0; double dv = 0;
    int set_to = -1;           // what the hook does with the variable
    void handle_domain_error_int(Var& v, int32_t val) override;
    void handle_domain_error_double(Var& v, double val) override;
};

struct Thread
{
    unsigned id;
    unsigned budget;
    // what this thread believes is configured
    bool silent = false, clamp = false;
    Hook* hook = nullptr;
    struct Target { Sink sb; std::unique_ptr<std::ostream> os; std::string want; };
    Target* target = nullptr;
    std::vector<std::unique_ptr<Target>> targets;
    std::vector<std::unique_ptr<Hook>> hooks;
    unsigned serial = 0;

    void check_options(const char* when)
    {
        bool s, c; options::DomainErrorHook* h;
        { Sut u; s = options::var_silent_domain_errors; c = options::var_clamp_domain_errors; h = options::var_hook_domain_errors; }
        if (s != silent) violation("option-changed", "%s: thread %u set silent domain errors to %d and finds %d", when, id, silent, s);
        if (c != clamp) violation("option-changed", "%s: thread %u set clamping to %d and finds %d", when, id, clamp, c);
        if (h != hook) violation("option-changed", "%s: thread %u finds another hook for domain errors than its own", when, id);
        std::ostream* o = sut([] { return notes::get_target(); });
        if (o != (target ? target->os.get() : nullptr)) violation("notes-changed", "%s: thread %u finds another target for notes than its own", when, id);
        if (sut([] { return notes::logs(); }) != (target != nullptr)) violation("notes-changed", "%s: thread %u is wrong about whether notes are collected", when, id);
    }

    void domain_error()
    {
        bool dec = chance(1, 2, "decimal");
        Varinfo i = dec ? &dec_info : &num_info;
        bool low = chance(1, 2, "low");
        bool valid = chance(1, 4, "valid");
        int raw = valid ? (int)draw(100, "value") : low ? -1 - (int)draw(100, "value") : i->imax + 1 + (int)draw(1000, "value");
        double d = dec ? raw / 10.0 : raw;
        bool by_d = chance(1, 2, "by-double");
        bool nan = by_d && chance(1, 6, "nan");
        if (nan) { d = NAN; valid = false; }
        unsigned before = hook ? hook->calls : 0;
        if (hook) { hook->set_to = chance(1, 2, "hook-sets") ? (int)draw(100, "hook-value") : -1; hook->var = nullptr; }
        bool had = chance(1, 2, "had-value");
        std::unique_ptr<Var> v;
        { Sut u; v.reset(new Var(i)); if (had) v->seti(7); }
        Out o = call([&] { if (by_d) v->setd(d); else v->seti(raw); });
        unsigned calls = (hook ? hook->calls : 0) - before;
        bool set = v->isset();
        int got = set ? sut([&] { return v->enqi(); }) : 0;
        char what[120]; snprintf(what, 120, "thread %u (silent %d, clamp %d, hook %d) sets %s to %g", id, silent, clamp, hook != nullptr, dec ? "a decimal" : "an integer", by_d ? d : raw);
        auto expect = [&](bool ok, bool want_set, int want, unsigned want_calls) {
            if (ok != o.ok() || (!ok && (o.kind != Kind::Error || o.code != WR_ERR_DOMAIN))) violation("domain", "%s: %s", what, o.str().c_str());
            if (set != want_set || (set && got != want)) violation("domain", "%s: the result is %s, it should be %s", what, set ? std::to_string(got).c_str() : "unset", want_set ? std::to_string(want).c_str() : "unset");
            if (calls != want_calls) violation("domain", "%s: the hook is called %u times instead of %u", what, calls, want_calls);
        };
        if (valid) expect(true, true, raw, 0);
        else if (silent) { expect(true, false, 0, 0); count("probe.silent"); }
        else if (clamp && !nan) { expect(true, true, low ? i->imin : i->imax, 0); count("probe.clamped"); }
        else if (hook)
        {
            // what the hook left is what stays
            bool hs = hook->set_to >= 0;
            expect(true, hs || had, hs ? hook->set_to : 7, 1);
            if (hook->var != v.get()) violation("domain", "%s: the hook received another variable", what);
            if (hook->is_int ? hook->iv != raw : nan ? !std::isnan(hook->dv) : hook->dv != d) violation("domain", "%s: the hook received another value", what);
            count("probe.hooked");
        }
        else { expect(false, false, 0, 0); count("probe.refused"); }
        Sut u; v.reset();
    }

    void note()
    {
        std::string m = "thread " + std::to_string(id) + " note " + std::to_string(serial++) + "\n";
        unsigned how = draw(4, "how");
        Out o = call([&] {
            switch (how)
            {
                case 0: notes::logf("thread %u note %u\n", id, serial - 1); break;
                case 1: notes::log() << m; break;
                case 2: notes::log() << "thread " << id << " note " << (serial - 1) << "\n"; break;
                case 3: notes::logf("%s", m.c_str()); break;
            }
        });
        if (!o.ok()) violation("note", "logging a note: %s", o.str().c_str());
        if (target) { target->want += m; check_notes(); count("probe.noted"); }
        else
        {
            count("probe.discarded");
            // the stream that discards is not shared with other threads either
            std::streamsize w = 0, want = 1 + id * 40 + serial % 40;
            Out q = call([&] {
                std::ostream& os = notes::log();
                os.width(want);
                { Host h; yield_point("width"); }
                w = os.width();
                os.width(0);
            });
            if (!q.ok() || w != want) violation("notes-changed", "thread %u sets up its stream for notes and finds it changed", id);
        }
    }
    void check_notes()
    {
        if (target->sb.data != target->want) violation("notes", "thread %u collected '%s' instead of '%s'", id, printable(target->sb.data, 200).c_str(), printable(target->want, 200).c_str());
    }

    // library code that writes notes
    void differences()
    {
        int a = draw(100, "a"), b = draw(100, "b"), q = draw(50, "q"), r = draw(50, "r");
        bool attr = chance(2, 3, "attr");
        unsigned d = 0;
        Out o = call([&] {
            Var v1(&num_info, a), v2(&num_info, b);
            if (attr) { v1.seta(Var(&attr_info, q)); v2.seta(Var(&attr_info, r)); }
            d = v1.diff(v2);
        });
        if (!o.ok()) violation("note", "comparing variables: %s", o.str().c_str());
        bool differ = a != b || (attr && q != r);
        if (differ != (d != 0)) violation("difference", "comparing %d and %d finds %u differences", a, b, d);
        if (target)
        {
            std::string more = target->sb.data.compare(0, target->want.size(), target->want) == 0 ? target->sb.data.substr(target->want.size()) : "(rewritten)";
            if (differ == more.empty()) violation("notes", "comparing %d and %d leaves the notes '%s'", a, b, printable(more).c_str());
            // a note tells both values
            if (a != b) { if (more.find("first is " + std::to_string(a)) == std::string::npos || more.find("second is " + std::to_string(b)) == std::string::npos) violation("notes", "comparing %d and %d leaves the notes '%s'", a, b, printable(more).c_str()); }
            target->want = target->sb.data;
            count("probe.noted");
        }
    }

    Target* new_target()
    {
        Host h;
        targets.emplace_back(new Target);
        Target* t = targets.back().get();
        t->sb.owner = id;
        t->os.reset(new std::ostream(&t->sb));
        return t;
    }

    // work within a scope; may leave by exception through several scopes
    void scope(unsigned depth)
    {
        unsigned n = 1 + draw(4, "ops");
        for (unsigned i = 0; i < n; ++i)
        {
            if (!budget) return;
            --budget;
            check_options("before an operation");
            unsigned what = draw(10, "op");
            ev("t%u op %u depth %u", id, what, depth);
            switch (what)
            {
                case 0: case 1: domain_error(); break;
                case 2: note(); break;
                case 3: differences(); break;
                case 4: case 5: case 6: if (depth < 5) override_scope(depth); break;
                case 7: if (depth < 5) collect_scope(depth); break;
                case 8: if (depth > 0 && chance(1, 2, "leave")) { count("probe.left_by_exception"); throw Leave{(int)(1 + draw(depth, "levels"))}; } break;
                case 9:
                    // a lasting change
                    switch (draw(3, "which"))
                    {
                        case 0: silent = chance(1, 2, "silent"); { Sut u; options::var_silent_domain_errors = silent; } break;
                        case 1: clamp = chance(1, 2, "clamp"); { Sut u; options::var_clamp_domain_errors = clamp; } break;
                        case 2: if (depth == 0) { target = new_target(); Sut u; notes::set_target(*target->os); } break;
                    }
                    break;
            }
            check_options("after an operation");
            yield_point("operation");
        }
    }

    template<typename F> void guarded(unsigned depth, F&& restore_model, const std::function<void()>& body)
    {
        try { body(); }
        catch (Leave& l)
        {
            restore_model();
            check_options("after leaving a scope by exception");
            if (l.levels > 1 && depth > 0) throw Leave{l.levels - 1};
            return;
        }
        restore_model();
        check_options("after leaving a scope");
    }

    void override_scope(unsigned depth)
    {
        bool os = silent, oc = clamp; Hook* oh = hook;
        unsigned which = draw(3, "override");
        bool val = chance(3, 4, "on");
        switch (which)
        {
            case 0:
                guarded(depth, [&] { silent = os; }, [&] { auto g = options::local_override(options::var_silent_domain_errors, val); silent = val; scope(depth + 1); });
                break;
            case 1:
                guarded(depth, [&] { clamp = oc; }, [&] { auto g = options::local_override(options::var_clamp_domain_errors, val); clamp = val; scope(depth + 1); });
                break;
            case 2:
                guarded(depth, [&] { hook = oh; }, [&] {
                    Hook* h = nullptr;
                    if (val) { hooks.emplace_back(new Hook); h = hooks.back().get(); h->t = this; }
                    auto g = options::local_override(options::var_hook_domain_errors, (options::DomainErrorHook*)h);
                    hook = h;
                    scope(depth + 1);
                });
                break;
        }
        count("probe.scope");
    }

    void collect_scope(unsigned depth)
    {
        Target* ot = target;
        guarded(depth, [&] { target = ot; }, [&] {
            Target* t = new_target();
            notes::Collect c(*t->os);
            target = t;
            scope(depth + 1);
            check_notes();
        });
    }

    void run()
    {
        // a thread starts with nothing configured, whatever the others did
        check_options("at the start of a thread");
        while (budget)
        {
            try { scope(0); }
            catch (Leave&) {}
        }
        for (auto& t: targets) if (t->sb.data != t->want) violation("notes", "thread %u collected '%s' instead of '%s'", id, printable(t->sb.data, 200).c_str(), printable(t->want, 200).c_str());
    }
};

void Hook::handle_domain_error_int(Var& v, int32_t val)
{
    { Host h; ++calls; var = &v; is_int = true; iv = val; if (task_id() != (int)t->id) violation("hook", "the hook of thread %u is called in thread %d", t->id, task_id()); yield_point("hook"); }
    if (set_to >= 0) v.seti(set_to);
}
void Hook::handle_domain_error_double(Var& v, double val)
{
    { Host h; ++calls; var = &v; is_int = false; dv = val; if (task_id() != (int)t->id) violation("hook", "the hook of thread %u is called in thread %d", t->id, task_id()); yield_point("hook"); }
    if (set_to >= 0) v.seti(set_to);
}

void run_p14()
{
    unsigned n = 2 + draw(2, "threads");
    bool pre = chance(2, 3, "preempt");
    std::vector<std::function<void()>> tasks;
    std::vector<unsigned> budgets;
    for (unsigned i = 0; i < n; ++i) budgets.push_back(3 + draw(30, "budget"));
    for (unsigned i = 0; i < n; ++i)
        tasks.push_back([i, b = budgets[i]] { Thread t; t.id = i; t.budget = b; t.run(); });
    if (pre) { set_preempt(true); count("probe.preempted"); }
    run_tasks(tasks, 1, 2);
    set_preempt(false);
    nontrivial();
}

}

SIM_SCENARIO(P14, prepare, run_p14)
