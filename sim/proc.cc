#include "proc.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace sim { namespace proc {

std::function<Plan()> plan;
std::deque<Proc> table;
Disp sigchld;
unsigned handled = 0;
bool ticking = true;
int open_max = 64;
Spent spent;
pid_t awaited = 0;
std::function<int(const char*)> fail;

namespace {
bool child = false;
bool child_fault = false, ran_main = false, session = false;
Plan my_plan;
int nth = 0;
char* err_text; size_t err_size;
pid_t next_pid = 5000;
struct Sig { int64_t at; bool restart; };
std::vector<Sig> signals;
std::vector<pid_t> recycled;

int child_fail(const char* call)
{
    if (!my_plan.fail_nth) return 0;
    if (++nth != my_plan.fail_nth) return 0;
    child_fault = true;
    return my_plan.fail_errno;
}

void put_str(std::string& o, const std::string& s) { o += std::to_string(s.size()); o += ':'; o += s; }
std::string get_str(const std::string& s, size_t& p) { size_t e = s.find(':', p); size_t n = std::stoul(s.substr(p, e - p)); p = e + 1 + n; return s.substr(e + 1, n); }
void put_int(std::string& o, long v) { put_str(o, std::to_string(v)); }
long get_int(const std::string& s, size_t& p) { return std::stol(get_str(s, p)); }

[[noreturn]] void end_child(bool exec, int code, const char* program, char* const* args, char* const* env)
{
    sut_depth = 0;
    std::string o;
    fflush(stderr);
    put_int(o, exec); put_int(o, ran_main); put_int(o, child_fault || alloc::fired()); put_int(o, code); put_int(o, session);
    put_str(o, vfs::cwd_path()); put_str(o, err_text ? std::string(err_text, err_size) : ""); put_str(o, program ? program : "");
    auto f = vfs::all_fds();
    put_int(o, f.size());
    for (int fd: f) { put_int(o, fd); put_int(o, (long)vfs::identity(fd)); put_str(o, vfs::path_of(fd)); }
    for (auto* v: {args, env})
    {
        if (!v) { put_int(o, -1); continue; }
        int n = 0; while (v[n]) ++n;
        put_int(o, n);
        for (int i = 0; i < n; ++i) put_str(o, v[i]);
    }
    fork_finish(o);
}

Report parse(const std::string& s)
{
    Report r; size_t p = 0;
    r.exec = get_int(s, p); r.main_ran = get_int(s, p); r.fault = get_int(s, p); r.code = get_int(s, p); r.session = get_int(s, p);
    r.cwd = get_str(s, p); r.err = get_str(s, p); r.program = get_str(s, p);
    long n = get_int(s, p);
    while (n-- > 0) { int fd = get_int(s, p); r.fds[fd] = (const void*)get_int(s, p); r.paths[fd] = get_str(s, p); }
    n = get_int(s, p); for (long i = 0; i < n; ++i) r.args.push_back(get_str(s, p));
    n = get_int(s, p); r.has_env = n >= 0; for (long i = 0; i < n; ++i) r.env.push_back(get_str(s, p));
    return r;
}

bool catching() { return sigchld.handler != (uintptr_t)SIG_DFL && sigchld.handler != (uintptr_t)SIG_IGN; }

void deliver_chld()
{
    if (sigchld.flags & SA_SIGINFO) ((void(*)(int, siginfo_t*, void*))sigchld.handler)(SIGCHLD, nullptr, nullptr);
    else ((void(*)(int))sigchld.handler)(SIGCHLD);
}

// The first thing with a handler that happens in (from, to]; -1: nothing.
int64_t next_event(int64_t from, int64_t to, bool& chld, bool& restart)
{
    int64_t best = -1;
    if (catching())
        for (auto& p: table)
        {
            if (p.reaped) continue;
            if (p.exits_at > from && p.exits_at <= to && (best < 0 || p.exits_at < best)) { best = p.exits_at; chld = true; restart = sigchld.flags & SA_RESTART; }
            if (sigchld.flags & SA_NOCLDSTOP) continue;
            for (int64_t at: { p.stops_at, p.goes_on_at })
                if (at > from && at <= to && (p.exits_at < 0 || at < p.exits_at) && (best < 0 || at < best)) { best = at; chld = true; restart = sigchld.flags & SA_RESTART; }
        }
    for (auto& s: signals)
        if (s.at > from && s.at <= to && (best < 0 || s.at < best)) { best = s.at; chld = false; restart = s.restart; }
    return best;
}

// time goes by while nobody sleeps: handlers run
void pass(int64_t us)
{
    int64_t end = vfs::clock_us() + us;
    while (true)
    {
        bool chld = false, restart = false;
        int64_t at = next_event(vfs::clock_us(), end, chld, restart);
        if (at < 0) break;
        vfs::advance(at - vfs::clock_us());
        if (chld) deliver_chld();
    }
    vfs::advance(end - vfs::clock_us());
}

void tick(const char* call)
{
    if (child || !ticking) return;
    static const int64_t steps[8] = { 0, 0, 0, 1, 7, 30, 100, 400 };
    int64_t us = steps[draw(8, "tick")];
    spent.tick += us;
    // the end of the process that is waited for can come between any two calls
    if (awaited && us && draw(2, "end-between"))
        if (Proc* p = find(awaited)) if (!p->reaped && (p->exits_at < 0 || p->exits_at > vfs::clock_us())) p->exits_at = vfs::clock_us() + us;
    pass(us);
}
int broken(const char* call)
{
    if (child) return child_fail(call);
    return fail ? fail(call) : 0;
}
}

bool in_child() { return child; }
void mark_main() { Host h; ran_main = true; my_plan.fail_nth = 0; alloc::disarm(); }
void app_handler(int) { ++handled; }
void app_handler3(int, void*, void*) { ++handled; }

void reset()
{
    table.clear(); signals.clear(); recycled.clear(); sigchld = Disp(); handled = 0; next_pid = 5000; plan = nullptr; fail = nullptr; ticking = true; open_max = 64; spent = Spent(); awaited = 0;
}
Proc* find(pid_t pid)
{
    for (auto i = table.rbegin(); i != table.rend(); ++i) if (i->pid == pid) return &*i;
    return nullptr;
}
pid_t add_foreign(int64_t at) { Proc p; p.pid = next_pid++; p.exits_at = at; p.foreign = true; table.push_back(p); return p.pid; }
void recycle(pid_t pid) { recycled.push_back(pid); }
void add_signal(int64_t at, bool restart) { signals.push_back({at, restart}); }

static void terminate_by(Proc& p, int sig)
{
    if (p.reaped || (p.exits_at >= 0 && p.exits_at <= vfs::clock_us())) return;
    if (sig == 0 || sig == SIGCHLD || sig == SIGCONT || sig == SIGWINCH || sig == SIGURG) return;
    int64_t at = vfs::clock_us() + 1 + 50 * draw(20, "dying");
    if (p.exits_at < 0 || at < p.exits_at) { p.exits_at = at; p.raw = sig; }
}

static int do_sleep(int64_t us, int64_t* left)
{
    tick("sleep");
    ++spent.sleeps;
    int64_t start = vfs::clock_us();
    bool chld = false, restart = false;
    int64_t at = next_event(start, start + us, chld, restart);
    if (at >= 0)
    {
        vfs::advance(at - start);
        if (chld) deliver_chld();
        *left = start + us - at;
        fault("fault.signal_during_sleep");
        spent.interrupted = true;
        ev("sleep %lld interrupted, %lld left", (long long)us, (long long)*left);
        return EINTR;
    }
    int64_t over = draw(4, "oversleep") == 3 ? 1 + draw(3000, "over") : 0;
    spent.over += over;
    vfs::advance(us);
    pass(over);
    *left = 0;
    return 0;
}

}}

using namespace sim;
using namespace sim::proc;
#define IN_SUT (sim::sut_depth > 0)
#define FAIL(e) do { errno = (e); return -1; } while (0)

extern "C" {
#define REAL(ret, name, args) ret __real_##name args;
#define W(ret, name, args) ret __wrap_##name args; ret __wrap_##name args
typedef void (*sighandler_type)(int);
REAL(pid_t, fork, ()) REAL(pid_t, waitpid, (pid_t, int*, int)) REAL(int, kill, (pid_t, int)) REAL(int, pipe, (int*)) REAL(int, pipe2, (int*, int))
REAL(int, dup2, (int, int)) REAL(int, dup3, (int, int, int)) REAL(pid_t, setsid, ()) REAL(long, sysconf, (int))
REAL(int, nanosleep, (const struct timespec*, struct timespec*)) REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*)) REAL(int, usleep, (useconds_t))
REAL(sighandler_type, signal, (int, sighandler_type)) REAL(int, sigaction, (int, const struct sigaction*, struct sigaction*))
REAL(int, execvp, (const char*, char* const*)) REAL(int, execvpe, (const char*, char* const*, char* const*)) REAL(int, execve, (const char*, char* const*, char* const*)) REAL(int, execv, (const char*, char* const*))
REAL(int, close_range, (unsigned, unsigned, int)) REAL(void, closefrom, (int))
[[noreturn]] REAL(void, _exit, (int))
[[noreturn]] REAL(void, _Exit, (int))

W(pid_t, fork, ())
{
    if (!IN_SUT) return __real_fork();
    Host h;
    tick("fork");
    if (int e = broken("fork")) FAIL(e);
    if (!plan || child) harness_error("unplanned fork");
    Plan p = plan();
    if (fork_twice() == 0)
    {
        child = true; my_plan = p; nth = 0; child_fault = ran_main = session = false;
        vfs::policy = vfs::Policy();
        vfs::policy.fail = [](const char* c, const std::string&) { return child_fail(c); };
        stderr = open_memstream(&err_text, &err_size);
        if (p.alloc_nth) alloc::fail_at(p.alloc_nth, false); else alloc::disarm();
        return 0;
    }
    Proc x;
    x.pid = next_pid++;
    x.rep = parse(fork_report());
    x.raw = x.rep.exec || x.rep.main_ran ? p.raw : (x.rep.code & 0xff) << 8;
    if (x.rep.main_ran && !x.rep.exec && !(p.raw & 0x7f)) x.raw = (x.rep.code & 0xff) << 8;
    int64_t life = x.rep.exec || x.rep.main_ran ? p.life_us : 20;
    x.exits_at = life < 0 ? -1 : vfs::clock_us() + 1 + life;
    table.push_back(x);
    return x.pid;
}

W(pid_t, waitpid, (pid_t pid, int* st, int opt))
{
    if (!IN_SUT) return __real_waitpid(pid, st, opt);
    Host h;
    tick("waitpid");
    if (pid <= 0) violation("wait-scope", "waitpid(%d) can take the status of other processes of the application", (int)pid);
    Proc* p = proc::find(pid);
    if (!p || p->reaped) FAIL(ECHILD);
    if (int e = broken("waitpid")) FAIL(e);
    if (p->foreign) violation("wait-scope", "waitpid(%d) takes the status of another process of the application", (int)pid);
    if (opt & ~(WNOHANG | WUNTRACED | WCONTINUED)) FAIL(EINVAL);
    // a child that is stopped or goes on is told to who wants to know
    auto changed = [&]() -> bool {
        if (p->exits_at >= 0 && p->exits_at <= vfs::clock_us()) return false;
        if ((opt & WUNTRACED) && p->stops_at >= 0 && p->stops_at <= vfs::clock_us() && (p->goes_on_at < 0 || p->goes_on_at > vfs::clock_us()) && !p->stop_told) { p->stop_told = true; if (st) *st = SIGSTOP << 8 | 0x7f; return true; }
        if ((opt & WCONTINUED) && p->goes_on_at >= 0 && p->goes_on_at <= vfs::clock_us() && !p->cont_told) { p->cont_told = true; if (st) *st = 0xffff; return true; }
        return false;
    };
    if (changed()) return pid;
    if (p->exits_at < 0 || p->exits_at > vfs::clock_us())
    {
        if (opt & WNOHANG) return 0;
        if (opt & (WUNTRACED | WCONTINUED))
            for (int64_t at: { p->stops_at, p->goes_on_at })
                if (at > vfs::clock_us() && (p->exits_at < 0 || at < p->exits_at)) { vfs::advance(at - vfs::clock_us()); if (changed()) return pid; }
        while (true)
        {
            bool chld = false, restart = false;
            int64_t limit = p->exits_at < 0 ? LLONG_MAX : p->exits_at;
            int64_t at = next_event(vfs::clock_us(), limit, chld, restart);
            if (at < 0)
            {
                if (p->exits_at < 0) violation("hang", "waiting without limit for a process that does not end");
                vfs::advance(p->exits_at - vfs::clock_us());
                break;
            }
            bool own = at == p->exits_at;
            vfs::advance(at - vfs::clock_us());
            if (chld) deliver_chld();
            if (own) break;
            if (!restart) { fault("fault.signal_during_wait"); spent.interrupted = true; ev("waitpid interrupted"); FAIL(EINTR); }
        }
    }
    p->reaped = true;
    if (st) *st = p->raw;
    return pid;
}

W(int, kill, (pid_t pid, int sig))
{
    if (!IN_SUT) return __real_kill(pid, sig);
    Host h;
    tick("kill");
    if (pid <= 0) violation("signal-scope", "signal %d is sent to process group %d", sig, (int)pid);
    if (std::find(recycled.begin(), recycled.end(), pid) != recycled.end()) violation("signal-scope", "signal %d is sent to an unrelated process that has the number of a child that ended", sig);
    Proc* p = proc::find(pid);
    if (!p || p->reaped) FAIL(ESRCH);
    if (p->foreign) violation("signal-scope", "signal %d is sent to an unrelated process", sig);
    if (int e = broken("kill")) FAIL(e);
    p->signals.push_back(sig);
    terminate_by(*p, sig);
    return 0;
}

static int do_pipe(int* p) { Host h; tick("pipe"); if (int e = broken("pipe")) FAIL(e); return vfs::make_pipe(p); }
W(int, pipe, (int* p)) { if (!IN_SUT) return __real_pipe(p); return do_pipe(p); }
W(int, pipe2, (int* p, int fl)) { if (!IN_SUT) return __real_pipe2(p, fl); return do_pipe(p); }
W(int, dup2, (int a, int b)) { if (!IN_SUT) return __real_dup2(a, b); Host h; tick("dup2"); if (int e = broken("dup2")) FAIL(e); return vfs::dup2_(a, b); }
W(int, dup3, (int a, int b, int fl)) { if (!IN_SUT) return __real_dup3(a, b, fl); Host h; tick("dup3"); if (a == b) FAIL(EINVAL); if (int e = broken("dup2")) FAIL(e); return vfs::dup2_(a, b); }
W(pid_t, setsid, ()) { if (!IN_SUT) return __real_setsid(); Host h; if (!child) violation("session", "the calling process is moved to a new session"); if (int e = broken("setsid")) FAIL(e); session = true; return 1; }
W(long, sysconf, (int n)) { if (IN_SUT && n == _SC_OPEN_MAX) return open_max; return __real_sysconf(n); }
W(int, close_range, (unsigned a, unsigned b, int fl)) { if (!IN_SUT) return __real_close_range(a, b, fl); Host h; for (int fd: vfs::all_fds()) if ((unsigned)fd >= a && (unsigned)fd <= b) vfs::close_quiet(fd); return 0; }
W(void, closefrom, (int a)) { if (!IN_SUT) return __real_closefrom(a); __wrap_close_range(a < 0 ? 0 : a, ~0u, 0); }

static int check_ts(const struct timespec* t) { return t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999 ? EINVAL : 0; }
W(int, nanosleep, (const struct timespec* t, struct timespec* rem))
{
    if (!IN_SUT) return __real_nanosleep(t, rem);
    Host h;
    if (int e = check_ts(t)) FAIL(e);
    if (int e = broken("nanosleep")) FAIL(e);
    int64_t left, us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
    int e = do_sleep(us, &left);
    if (e && rem) { rem->tv_sec = left / 1000000; rem->tv_nsec = left % 1000000 * 1000 + t->tv_nsec % 1000; }
    if (e) FAIL(e);
    return 0;
}
W(int, clock_nanosleep, (clockid_t c, int fl, const struct timespec* t, struct timespec* rem))
{
    if (!IN_SUT) return __real_clock_nanosleep(c, fl, t, rem);
    Host h;
    if (int e = check_ts(t)) return e;
    if (int e = broken("nanosleep")) return e;
    int64_t left, us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
    if (fl & TIMER_ABSTIME) us = std::max<int64_t>(0, us - vfs::clock_us());
    int e = do_sleep(us, &left);
    if (e && rem && !(fl & TIMER_ABSTIME)) { rem->tv_sec = left / 1000000; rem->tv_nsec = left % 1000000 * 1000; }
    return e;
}
W(int, usleep, (useconds_t us)) { if (!IN_SUT) return __real_usleep(us); Host h; int64_t left; int e = do_sleep(us, &left); if (e) FAIL(e); return 0; }

W(sighandler_type, signal, (int sig, sighandler_type f))
{
    if (!IN_SUT) return __real_signal(sig, f);
    Host h;
    tick("signal");
    if (sig != SIGCHLD) violation("signals", "the handling of signal %d is changed", sig);
    auto old = (sighandler_type)sigchld.handler;
    sigchld = Disp(); sigchld.handler = (uintptr_t)f; sigchld.flags = SA_RESTART; 
    return old;
}
W(int, sigaction, (int sig, const struct sigaction* a, struct sigaction* o))
{
    if (!IN_SUT) return __real_sigaction(sig, a, o);
    Host h;
    tick("sigaction");
    if (sig != SIGCHLD) violation("signals", "the handling of signal %d is changed", sig);
    Disp old = sigchld;
    if (a && !o) ; // putting back what was there does not fail
    else if (int e = broken("sigaction")) FAIL(e);
    if (a) { sigchld.handler = (uintptr_t)a->sa_handler; sigchld.flags = a->sa_flags & ~0x04000000; memcpy(&sigchld.mask, &a->sa_mask, 8); }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = (void(*)(int))old.handler; o->sa_flags = old.flags; memcpy(&o->sa_mask, &old.mask, 8); }
    return 0;
}

static int do_exec(const char* f, char* const* a, char* const* e)
{
    Host h;
    if (!child) violation("exec", "the calling process is replaced by another program");
    if (my_plan.exec_fails) { child_fault = true; FAIL(ENOENT); }
    end_child(true, 0, f, a, e);
}
W(int, execvp, (const char* f, char* const* a)) { if (!IN_SUT) return __real_execvp(f, a); return do_exec(f, a, nullptr); }
// the program is not in the current directory: without a path, it is only found in $PATH
W(int, execv, (const char* f, char* const* a)) { if (!IN_SUT) return __real_execv(f, a); if (!strchr(f, '/')) FAIL(ENOENT); return do_exec(f, a, nullptr); }
W(int, execvpe, (const char* f, char* const* a, char* const* e)) { if (!IN_SUT) return __real_execvpe(f, a, e); return do_exec(f, a, e); }
W(int, execve, (const char* f, char* const* a, char* const* e)) { if (!IN_SUT) return __real_execve(f, a, e); if (!strchr(f, '/')) FAIL(ENOENT); return do_exec(f, a, e == environ ? nullptr : e); }
static void do_exit(int code) { if (!child) { Host h; violation("exit", "the calling process is ended with status %d", code); } end_child(false, code, nullptr, nullptr, nullptr); }
[[noreturn]] W(void, _exit, (int code)) { if (IN_SUT) do_exit(code); __real__exit(code); }
[[noreturn]] W(void, _Exit, (int code)) { if (IN_SUT) do_exit(code); __real__Exit(code); }
}
