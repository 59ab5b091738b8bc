// P21: locks on files keep others out, and the outcome of a request is told
// truly; elapsed time follows the clock.
#include "files.h"

namespace {

struct Req { short type; int64_t start, end; };   // end is exclusive

struct Party
{
    std::unique_ptr<ws::File> f;
    std::vector<int> dups;
    bool readonly = false;
    const void* ident = nullptr;        // the open file description
    std::map<int64_t, short> held;      // what it believes to hold, by unit of the file
};

constexpr int64_t UNITS = 6, UNIT = 8;     // the file is 6 records of 8 bytes
std::vector<std::unique_ptr<Party>> parties;
unsigned waits_left;
std::map<int, bool> refused;             // by task: the system said it is taken
std::map<int, bool> interrupted;         // by task: EINTR was given to a waiting request

std::string show(const std::map<int64_t, short>& h)
{
    std::string r;
    for (auto& i: h) r += " " + std::to_string(i.first) + (i.second == F_WRLCK ? "w" : "r");
    return r.empty() ? " nothing" : r;
}

// What the system holds for this description, by unit
std::map<int64_t, short> truth(const Party& p)
{
    std::map<int64_t, short> r;
    for (auto& l: vfs::locks())
        if (l.owner == p.ident)
            for (int64_t u = 0; u <= UNITS; ++u)
                if (l.start <= u * UNIT && (u + 1) * UNIT <= l.end) r[u] = l.type;
    return r;
}

bool conflicts(const Party& me, const Req& q)
{
    for (auto& p: parties)
        if (p.get() != &me && p->ident && p->ident != me.ident)
            for (auto& h: truth(*p))
                if (h.first * UNIT < q.end && q.start < (h.first + 1) * UNIT && (h.second == F_WRLCK || q.type == F_WRLCK)) return true;
    return false;
}

void exclusive(const char* when)
{
    for (auto& a: parties)
        for (auto& b: parties)
            if (a.get() < b.get() && a->ident != b->ident)
                for (auto& h: a->held)
                {
                    auto i = b->held.find(h.first);
                    if (i != b->held.end() && (h.second == F_WRLCK || i->second == F_WRLCK))
                        violation("not-exclusive", "%s: two parties hold record %lld, one of them for writing", when, (long long)h.first);
                }
}

struct flock make(const Party& p, short type, int64_t first, int64_t n)
{
    struct flock lk; memset(&lk, 0, sizeof lk);
    lk.l_type = type; lk.l_whence = SEEK_SET;
    lk.l_start = first * UNIT; lk.l_len = n * UNIT;
    bool to_end = first + n > UNITS;
    if (to_end) lk.l_len = 0;
    switch (draw(4, "whence"))
    {
        case 0: lk.l_whence = SEEK_END; lk.l_start -= UNITS * UNIT; break;
        case 1: if (!to_end) { lk.l_start += lk.l_len; lk.l_len = -lk.l_len; } break;
        default: break;
    }
    return lk;
}

void run_p21()
{
    vfs::reset();
    parties.clear(); interrupted.clear(); refused.clear();
    waits_left = 400;
    std::string path = "/sim/d/shared";
    vfs::mkdirs("/sim/d");
    std::string zero(UNITS * UNIT, '\0');
    vfs::put(path, zero);
    install_faults(chance(1, 2, "faulty") ? 1 + draw(5, "rate") : 0, 0);
    faults.never = {"read", "pread", "write", "pwrite"};
    bool signals = chance(1, 2, "signals");
    bool eacces = draw(2, "eacces");
    unsigned n = 1 + draw(4, "parties"), per = 1 + draw(6, "rounds");
    vfs::policy.before = [](const char* c, const std::string&) { yield_point(c); };
    vfs::lock_wait = [&](const std::string& p) -> int {
        int me = in_tasks() ? task_id() : 0;
        if (p == "?") { refused[me] = true; return eacces; }
        if (signals && waits_left && chance(1, 6, "signal")) { --waits_left; fault("fault.signal_while_waiting"); interrupted[me] = true; return EINTR; }
        yield_point("lock-wait");
        return 0;
    };
    for (unsigned i = 0; i < n; ++i) parties.emplace_back(new Party);
    uint64_t increments[UNITS] = {};
    set_step_budget(4000000);
    std::vector<std::function<void()>> tasks;
    for (unsigned i = 0; i < n; ++i)
        tasks.push_back([&, i] {
            Party& p = *parties[i];
            int me = in_tasks() ? task_id() : 0;
            auto quiet_close = [&] {
                while (!p.dups.empty()) { vfs::close_quiet(p.dups.back()); p.dups.pop_back(); }
                p.held.clear();
                { Sut q; p.f.reset(); }
                p.ident = nullptr;
            };
            for (unsigned k = 0; k < per; ++k)
            {
                faults.clear(me);
                if (!p.f)
                {
                    p.readonly = draw(4, "access") == 0;
                    std::filesystem::path fp(path);
                    std::unique_ptr<ws::File> f;
                    Res r = go([&] { f.reset(new ws::File(fp, p.readonly ? O_RDONLY : O_RDWR)); });
                    if (!r.ok) { if (!(r.sys && faults.was(me, r.err))) violation("unexpected-error", "opening failed with \"%s\"", r.msg.c_str()); continue; }
                    p.f = std::move(f);
                    p.ident = vfs::identity(*p.f);
                    faults.clear(me);
                }
                int64_t first = draw(UNITS, "first"), cnt = 1 + draw(UNITS - first + 1, "count");
                if (draw(3, "one") == 0) cnt = 1;
                short type = p.readonly || draw(2, "shared") ? F_RDLCK : F_WRLCK;
                // nobody asks for more while holding something: no deadlock by design
                struct flock lk = make(p, type, first, cnt);
                Req q{type, first * UNIT, first + cnt > UNITS ? INT64_MAX : (first + cnt) * UNIT};
                std::map<int64_t, short> want, none;
                for (int64_t u = first; u < first + cnt || (first + cnt > UNITS && u <= UNITS); ++u) want[u] = type;
                unsigned how = draw(4, "how");
                bool got = false;
                interrupted[me] = refused[me] = false;
                if (!truth(p).empty() && !p.held.empty()) violation("harness", "something is held at the beginning");
                if (how == 0 && draw(2, "test"))
                {
                    // only asking
                    struct flock t = lk;
                    bool could = false;
                    Res r = go([&] { could = p.f->ofd_getlk(t); });
                    bool after = conflicts(p, q);
                    ev("party %u: test %d+%d: %s", i, (int)first, (int)cnt, r.ok ? could ? "free" : "taken" : r.msg.c_str());
                    if (!r.ok)
                    {
                        if (!(r.sys && faults.was(me, r.err))) violation("unexpected-error", "testing a lock failed with \"%s\"", r.msg.c_str());
                    } else {
                        if (faults.call(me, "lock")) violation("error-lost", "testing a lock claims success, but the system reported an error");
                        if (could == after) violation("test", "testing a lock that is %s says it is %s", after ? "taken" : "free", could ? "free" : "taken");
                        if (could != (t.l_type == F_UNLCK)) violation("test", "testing a lock says %d, the description of the holder says %d", could, t.l_type);
                        if (!could) count("probe.test_taken"); else count("probe.test_free");
                    }
                    if (truth(p) != none) violation("test", "testing a lock acquired it");
                    continue;
                }
                bool retry = draw(2, "retry");
                phase("locking");
                Res r = go([&] {
                    if (how < 2) got = p.f->ofd_setlk(lk);
                    else if (retry && how == 2) got = p.f->ofd_setlkw(lk);
                    else got = p.f->ofd_setlkw(lk, retry);
                });
                const char* name = how < 2 ? "trying a lock" : "waiting for a lock";
                ev("party %u: %s %s %d+%d: %s", i, name, type == F_WRLCK ? "w" : "r", (int)first, (int)cnt, r.ok ? got ? "got it" : "no" : r.msg.c_str());
                std::map<int64_t, short> has = truth(p);
                bool fired = false, sig = interrupted[me];
                for (auto& f: faults.fired[me]) if (f.first == "lock") { if (f.second == EINTR && how >= 2) sig = true; else fired = true; }
                if (r.ok && got)
                {
                    if (has != want) violation("not-held", "%s claims success, but the system has%s for this party instead of%s", name, show(has).c_str(), show(want).c_str());
                    if (fired) violation("error-lost", "%s claims success, but the system reported an error", name);
                    if (sig && how >= 2 && !(retry)) violation("signal", "waiting for a lock went on after a signal");
                    p.held = want;
                    exclusive(name);
                    count("probe.locked");
                    if (sig) count("probe.locked_after_signal");
                } else {
                    if (has != none) violation("held", "%s failed, but the system has%s for this party", name, show(has).c_str());
                    if (r.ok)
                    {
                        if (fired) violation("error-lost", "%s says it is taken, but the system reported an error", name);
                        if (how < 2) count("probe.refused");
                        else if (!retry && sig) count("probe.gave_up_on_signal");
                        else violation("gave-up", "waiting for a lock %s gave up without it", retry ? "that retries" : "that no signal interrupted");
                    } else if (!(r.sys && fired && faults.was(me, r.err))) violation("unexpected-error", "%s failed with \"%s\"", name, r.msg.c_str());
                    if (how < 2 && r.ok && !refused[me]) violation("refused", "a lock nobody holds is refused");
                    if (draw(4, "drop") == 0) quiet_close();
                    continue;
                }
                // inside: what is read twice is the same; what is added is not lost
                vfs::policy.before("inside", "");
                if (type == F_WRLCK)
                    for (auto& u: want)
                    {
                        if (u.first >= UNITS) continue;
                        uint64_t v = 0;
                        Res r = go([&] { p.f->pread(&v, 8, u.first * UNIT); });
                        if (!r.ok) violation("unexpected-error", "pread failed with \"%s\"", r.msg.c_str());
                        yield_point("think");
                        ++v;
                        r = go([&] { p.f->pwrite(&v, 8, u.first * UNIT); });
                        if (!r.ok) violation("unexpected-error", "pwrite failed with \"%s\"", r.msg.c_str());
                        ++increments[u.first];
                    }
                else {
                    std::string a(UNITS * UNIT, 0), b = a;
                    Res r = go([&] { p.f->pread(&a[0], a.size(), 0); });
                    yield_point("think");
                    Res s = go([&] { p.f->pread(&b[0], b.size(), 0); });
                    if (!r.ok || !s.ok) violation("unexpected-error", "pread failed");
                    for (auto& u: want) if (u.first < UNITS && a.compare(u.first * UNIT, UNIT, b, u.first * UNIT, UNIT) != 0) violation("not-exclusive", "record %lld changed while it was locked for reading", (long long)u.first);
                }
                if (truth(p) != want) violation("lost-lock", "the lock held on%s became%s", show(want).c_str(), show(truth(p)).c_str());
                // leaving
                unsigned out = draw(4, "out");
                if (out == 3)
                {
                    // a duplicate keeps the lock; the last one out releases it
                    if (draw(2, "dup"))
                    {
                        faults.clear(me);
                        int fd = -1;
                        Res r = go([&] { fd = p.f->dup(); });
                        if (r.ok) p.dups.push_back(fd);
                        else if (!(r.sys && faults.was(me, r.err))) violation("unexpected-error", "dup failed with \"%s\"", r.msg.c_str());
                        if (r.ok)
                        {
                            { Sut q; p.f.reset(); }
                            if (truth(p) != want) violation("lost-lock", "closing one of two duplicates released the lock");
                            count("probe.kept_by_duplicate");
                        }
                    }
                    quiet_close();
                    count("probe.released_by_close");
                    continue;
                }
                for (unsigned tries = 0; ; ++tries)
                {
                    faults.clear(me);
                    lk = make(p, F_UNLCK, 0, UNITS + 1);
                    if (draw(2, "same")) lk = make(p, F_UNLCK, first, cnt);
                    std::map<int64_t, short> was = p.held;
                    p.held.clear();             // others may have it from now on
                    bool done = false, direct = draw(2, "how-out");
                    Res r = go([&] { done = direct ? p.f->ofd_setlk(lk) : p.f->ofd_setlkw(lk); });
                    if (r.ok && done) { if (truth(p) != none) violation("not-released", "releasing claims success, but the system still has%s", show(truth(p)).c_str()); count("probe.released"); break; }
                    if (r.ok) violation("not-released", "releasing a lock says no");
                    if (!(r.sys && faults.was(me, r.err))) violation("unexpected-error", "releasing failed with \"%s\"", r.msg.c_str());
                    p.held = was;
                    if (truth(p) != was) violation("lost-lock", "a failed release released");
                    if (tries == 3) { quiet_close(); break; }
                }
            }
            quiet_close();
        });
    run_tasks(tasks, 1, 2);
    vfs::policy = vfs::Policy();
    vfs::lock_wait = nullptr;
    parties.clear();
    std::string end = vfs::get(path);
    for (int64_t u = 0; u < UNITS; ++u)
    {
        uint64_t v; memcpy(&v, &end[u * UNIT], 8);
        if (v != increments[u]) violation("lost-update", "record %lld was incremented %llu times under a lock and holds %llu", (long long)u, (unsigned long long)increments[u], (unsigned long long)v);
    }
    if (!vfs::locks().empty()) violation("left", "locks are left after everyone is gone");
    if (vfs::open_fds()) violation("descriptors", "descriptors left open:%s", vfs::describe_fds().c_str());
    if (vfs::bad_closes()) violation("descriptors", "a descriptor that was not open was closed");
    if (n > 1) count("probe.contended");

    // ---- the clock
    if (draw(2, "clock"))
    {
        install_faults(chance(1, 3, "faulty") ? 1 + draw(8, "rate") : 0, 0);
        std::unique_ptr<ws::Clock> c;
        int64_t at = 0;
        unsigned steps = 1 + draw(8, "steps");
        for (unsigned s = 0; s < steps; ++s)
        {
            int64_t jump = skewed(1000000000, "us");
            if (draw(2, "far")) jump *= 1 + draw(4000, "times");
            if (draw(4, "back") == 0) { jump = -jump; fault("fault.clock_back"); }
            if (vfs::clock_us() + jump >= 0 && vfs::clock_us() + jump < 4000000000ll * 1000000) vfs::advance(jump);
            faults.clear(0);
            if (!c || draw(4, "restart") == 0)
            {
                c.reset();
                int64_t t = vfs::clock_us();
                clockid_t id = draw(2, "which") ? CLOCK_MONOTONIC : CLOCK_REALTIME;
                Res r = go([&] { c.reset(new ws::Clock(id)); });
                if (r.ok && faults.any(0)) violation("error-lost", "a clock that cannot be read reports success");
                if (!r.ok && !(r.sys && faults.was(0, r.err))) violation("unexpected-error", "reading the clock failed with \"%s\"", r.msg.c_str());
                if (r.ok) at = t;
            } else {
                unsigned long long e = 0;
                Res r = go([&] { e = c->elapsed(); });
                if (!r.ok) { if (!(r.sys && faults.was(0, r.err))) violation("unexpected-error", "reading the clock failed with \"%s\"", r.msg.c_str()); continue; }
                if (faults.any(0)) violation("error-lost", "a clock that cannot be read reports success");
                int64_t d = vfs::clock_us() - at;
                unsigned long long want = d < 0 ? 0 : (unsigned long long)d * 1000;
                if (e != want) violation("elapsed", "the clock went from %lld to %lld us, and %llu ns elapsed", (long long)at, (long long)vfs::clock_us(), e);
                count("probe.elapsed");
            }
        }
    }
    nontrivial();
}

}

SIM_SCENARIO(P21, prepare_files, run_p21)
