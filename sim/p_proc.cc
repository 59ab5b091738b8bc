// P18: child processes.  Their status, time limits, redirections and signals.
#include "lib.h"
#include "proc.h"
#include "vfs.h"
#include <wreport/utils/subprocess.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <system_error>
#include <algorithm>
#include <memory>

using namespace sim;
namespace wp = wreport::subprocess;

namespace {

struct Res { bool ok = true; bool sys = false; int err = 0; bool alloc = false; std::string msg; };
template<typename F> Res go(F&& f)
{
    Res r;
    proc::spent = proc::Spent();
    try { Sut s; f(); }
    catch (std::bad_alloc& e) { sut_depth = 0; r.ok = false; r.alloc = true; r.msg = "bad_alloc"; }
    catch (std::system_error& e) { sut_depth = 0; r.ok = false; r.sys = true; r.err = e.code().value(); r.msg = e.what(); }
    catch (std::exception& e) { sut_depth = 0; r.ok = false; r.msg = e.what(); }
    return r;
}

struct Worker : public wp::Child
{
    int code = 0;
    int main() noexcept override { proc::mark_main(); return code; }
};

struct Job
{
    std::unique_ptr<wp::Child> c;
    wp::Popen* p = nullptr;
    // what was asked for
    wp::Redirect act[3] = { wp::Redirect::UNCHANGED, wp::Redirect::UNCHANGED, wp::Redirect::UNCHANGED };
    int from[3] = { -1, -1, -1 };
    bool started = false, known = false;   // known: the library was told that it ended
    bool stolen = false;                   // the application took its status
    bool closed[3] = { false, false, false };
    pid_t pid = 0;
    proc::Plan plan;
};

std::vector<int> fired;            // errnos injected in this operation
std::vector<std::string> fired_calls;

const char* const ACT[] = { "pipe", "devnull", "stdout", "fd", "unchanged" };

std::vector<std::string> parent_env;

void run_p18()
{
    vfs::reset();
    proc::reset();
    vfs::mkdirs("/dev"); vfs::put("/dev/null", "");
    vfs::put("/sim/in", "input"); vfs::put("/sim/out", ""); vfs::put("/sim/err", "");
    vfs::mkdirs("/sim/work");
    vfs::set_fd_base(0);
    static const int limits[] = { 64, 256, 1024 };
    proc::open_max = limits[draw(3, "open-max")];
    vfs::place(0, "/sim/in", O_RDONLY); vfs::place(1, "/sim/out", O_WRONLY); vfs::place(2, "/sim/err", O_WRONLY);
    std::set<int> app = { 0, 1, 2 };
    unsigned files = 0;
    auto app_open = [&] {
        int fd = 3; while (vfs::identity(fd)) ++fd;
        if (chance(1, 6, "high-fd")) { fd = chance(1, 3, "highest") ? proc::open_max - 1 : 3 + draw(proc::open_max - 3, "fd"); while (fd > 3 && vfs::identity(fd)) --fd; while (vfs::identity(fd)) ++fd; }
        std::string p = "/sim/log" + std::to_string(files++);
        vfs::put(p, ""); vfs::place(fd, p, O_RDWR); app.insert(fd);
        return fd;
    };
    unsigned rate = chance(1, 2, "faulty") ? 1 + draw(6, "rate") : 0;
    bool quiet_clock = chance(1, 3, "quiet-clock");
    proc::ticking = !quiet_clock;
    // failures of the waits themselves happen in few runs: they hide the rest
    bool calls_spared = draw(4, "spare-waits") != 0;
    auto inject = [&](const char* call) -> int {
        if (!rate || !chance(rate, 24, "fail")) return 0;
        static const struct { const char* c; const char* name; int e[2]; } T[] = {
            { "fork", "fault.fork_failure", { EAGAIN, ENOMEM } }, { "pipe", "fault.pipe_failure", { EMFILE, ENFILE } },
            { "close", "fault.close_failure", { EIO, EINTR } }, { "kill", "fault.kill_failure", { EPERM, EPERM } },
            { "waitpid", "fault.waitpid_failure", { EINVAL, ENOSYS } }, { "sigaction", "fault.sigaction_failure", { EINVAL, EINVAL } },
            { "nanosleep", "fault.sleep_failure", { EFAULT, EINVAL } } };
        if (calls_spared && strcmp(call, "close") && strcmp(call, "kill") && strcmp(call, "fork") && strcmp(call, "pipe")) return 0;
        for (auto& t: T) if (!strcmp(t.c, call)) { int e = t.e[draw(2, "errno")]; fault(t.name); ev("%s -> errno %d", call, e); fired.push_back(e); fired_calls.push_back(call); return e; }
        return 0;
    };
    proc::fail = inject;
    vfs::policy.fail = [&](const char* c, const std::string&) { return inject(c); };
    switch (draw(4, "sigchld"))
    {
        case 1: proc::sigchld.handler = (uintptr_t)proc::app_handler; proc::sigchld.flags = SA_RESTART; break;
        case 2: proc::sigchld.handler = (uintptr_t)proc::app_handler; proc::sigchld.flags = 0; proc::sigchld.mask = 1ull << (SIGUSR1 - 1); break;
        case 3: proc::sigchld.handler = (uintptr_t)proc::app_handler3; proc::sigchld.flags = SA_SIGINFO | SA_RESTART; break;
        default: break;
    }
    for (unsigned n = draw(4, "files"); n; --n) app_open();

    std::vector<Job> jobs(1 + draw(3, "jobs"));
    std::string op;
    auto alive = [&](Job& j) { proc::Proc* p = proc::find(j.pid); return p->exits_at < 0 || p->exits_at > vfs::clock_us(); };
    auto check_fds = [&] {
        std::set<int> want = app;
        std::string where;
        for (auto& j: jobs)
            if (j.c)
            {
                Sut s;
                for (int fd: { j.c->get_stdin(), j.c->get_stdout(), j.c->get_stderr() })
                    if (fd >= 0) { Host h; if (!want.insert(fd).second) violation("descriptors", "after %s: descriptor %d has two owners", op.c_str(), fd); }
            }
        std::set<int> have = vfs::fd_set_();
        for (int fd: have) if (!want.count(fd)) violation("descriptors", "after %s: descriptor %d (%s) is open and nothing refers to it", op.c_str(), fd, vfs::path_of(fd).c_str());
        for (int fd: want) if (!have.count(fd)) violation("descriptors", "after %s: descriptor %d is closed and still in use", op.c_str(), fd);
        if (vfs::wrong_closes()) violation("descriptors", "after %s: a descriptor that is not open was closed", op.c_str());
    };
    auto check_status = [&](Job& j) {
        proc::Proc* p = proc::find(j.pid);
        if (!j.c->terminated()) violation("status", "after %s: the process ended but is not said to", op.c_str());
        if (j.c->raw_returncode() != p->raw) violation("status", "after %s: the status is %d instead of %d", op.c_str(), j.c->raw_returncode(), p->raw);
        if (WIFEXITED(p->raw) && j.c->returncode() != WEXITSTATUS(p->raw)) violation("status", "after %s: the return code is %d instead of %d", op.c_str(), j.c->returncode(), WEXITSTATUS(p->raw));
        if (j.c->pid() != j.pid) violation("status", "after %s: the process number changed", op.c_str());
        std::string text; { Sut s; std::string t = wp::Child::format_raw_returncode(p->raw); Host h; text = t; }
        bool good = p->raw == 0;
        if (good != (text.find("success") != std::string::npos)) violation("status", "status %d is described as \"%s\"", p->raw, text.c_str());
        if (WIFSIGNALED(p->raw) && text.find("signal " + std::to_string(WTERMSIG(p->raw))) == std::string::npos) violation("status", "status %d is described as \"%s\"", p->raw, text.c_str());
        if (WIFEXITED(p->raw) && p->raw && text.find("code " + std::to_string(WEXITSTATUS(p->raw))) == std::string::npos) violation("status", "status %d is described as \"%s\"", p->raw, text.c_str());
    };
    auto settle = [&](Job& j) { if (!j.known) { j.known = true; count("probe.reaped"); if (draw(3, "recycle") == 2) proc::recycle(j.pid); } check_status(j); };
    // a poll or wait that cannot be made says so, and the process has not ended for that
    auto wait_failed = [&](Job& j, const Res& r) {
        proc::Proc* p = proc::find(j.pid);
        if (j.known) violation("status", "after %s: \"%s\", when the end of the process was already told", op.c_str(), r.msg.c_str());
        if (j.c->terminated()) violation("status", "after %s failed: the process is said to have ended", op.c_str());
        if (p->reaped && !j.stolen) violation("status", "after %s failed: the status of the process is lost", op.c_str());
        if (j.stolen ? !(r.sys && r.err == ECHILD) && fired.empty() : fired.empty()) violation("unexpected-error", "%s failed with \"%s\"", op.c_str(), r.msg.c_str());
        if (r.sys && !j.stolen && std::find(fired.begin(), fired.end(), r.err) == fired.end()) violation("error", "%s fails with \"%s\" instead of the error there was", op.c_str(), r.msg.c_str());
        count("probe.wait_failed");
    };
    auto start = [&](Job& j) {
        // what will become of it
        proc::Plan pl;
        static const int64_t lives[] = { 0, 5, 300, 2000, 50000, 400000, 3000000 };
        pl.life_us = lives[draw(7, "life")];
        if (pl.life_us) pl.life_us += draw(pl.life_us, "life+");
        if (draw(12, "forever") == 11) pl.life_us = -1;
        unsigned how = draw(4, "end");
        int code = how == 0 ? 0 : how == 1 ? 1 : how == 2 ? draw(256, "code") : 0;
        pl.raw = how == 3 ? (draw(2, "core") ? 0x80 | SIGSEGV : SIGKILL) : code << 8;
        if (rate && draw(4, "child-fault") == 0) { pl.fail_nth = 1 + draw(16, "nth"); static const int es[] = { EINTR, EIO, EMFILE, EPERM }; pl.fail_errno = es[draw(4, "child-errno")]; }
        else if (rate && draw(6, "child-alloc") == 0) pl.alloc_nth = 1 + draw(12, "alloc");
        pl.exec_fails = j.p && draw(6, "exec-fails") == 5;
        if (!j.p) static_cast<Worker*>(j.c.get())->code = code;
        j.plan = pl;
        proc::plan = [pl] { return pl; };
        std::map<int, const void*> open_before;
        std::map<int, std::string> paths_before;
        for (int fd: vfs::all_fds()) { open_before[fd] = vfs::identity(fd); paths_before[fd] = vfs::path_of(fd); }
        proc::Disp before = proc::sigchld;
        std::string cwd0 = vfs::cwd_path();
        op = "starting a process";
        phase("fork");
        fired.clear(); fired_calls.clear();
        size_t procs = proc::table.size();
        Res r = go([&] { j.c->fork(); });
        proc::plan = nullptr;
        bool forked = proc::table.size() > procs;
        ev("fork: %s", r.ok ? "ok" : r.msg.c_str());
        if (!r.ok && fired.empty()) violation("unexpected-error", "starting a process failed with \"%s\", which was not injected", r.msg.c_str());
        if (r.ok && !forked) violation("start", "no process was started");
        if (proc::table.size() > procs + 1) violation("start", "more than one process was started");
        if (!(proc::sigchld == before)) violation("signals", "starting a process changed the handling of SIGCHLD");
        if (vfs::cwd_path() != cwd0) violation("start", "starting a process changed the directory of the calling one");
        for (auto& b: open_before) if (vfs::identity(b.first) != b.second) violation("descriptors", "starting a process changed descriptor %d of the calling one", b.first);
        { Sut s; if (j.c->started() != forked) { Host h; violation("start", "started() is %d, %d process started", !forked, forked); } }
        if (!forked) { count("probe.fork_failed"); check_fds(); return; }
        j.started = true;
        proc::Proc& pr = proc::table.back();
        j.pid = pr.pid;
        if (draw(4, "stopped") == 3 && pr.exits_at != 0)
        {
            // stopped for a while, and let go on
            int64_t span = pr.exits_at < 0 ? 3000000 : pr.exits_at - vfs::clock_us();
            if (span > 4) { pr.stops_at = vfs::clock_us() + 1 + draw(span / 2, "stop"); pr.goes_on_at = pr.stops_at + 1 + draw(span / 2, "go-on"); if (draw(8, "only") == 0) pr.goes_on_at = -1; count("probe.stopped"); fault("fault.child_stopped"); }
        }
        if (j.c->pid() != pr.pid) violation("start", "pid() is %d, the process is %d", (int)j.c->pid(), (int)pr.pid);
        // the parent's ends
        const void* ends[3];
        int got[3];
        { Sut s; got[0] = j.c->get_stdin(); got[1] = j.c->get_stdout(); got[2] = j.c->get_stderr(); }
        static const char* const NAME[3] = { "standard input", "standard output", "standard error" };
        for (int i = 0; i < 3; ++i)
        {
            ends[i] = got[i] >= 0 ? vfs::identity(got[i]) : nullptr;
            bool pipe = j.act[i] == wp::Redirect::PIPE;
            if (pipe != (got[i] >= 0)) violation("redirect", "%s is %s and the calling process has descriptor %d for it", NAME[i], ACT[(int)j.act[i]], got[i]);
            if (pipe && vfs::path_of(got[i]) != (i == 0 ? "pipe:w" : "pipe:r")) violation("redirect", "the calling process has %s for %s of the child", vfs::path_of(got[i]).c_str(), NAME[i]);
        }
        check_fds();
        // inside the child
        const proc::Report& rep = pr.rep;
        bool bad_dir = j.c->cwd == "/sim/none";
        bool worked = rep.exec || rep.main_ran;
        ev("child: exec %d main %d fault %d code %d", rep.exec, rep.main_ran, rep.fault, rep.code);
        if (bad_dir && worked) violation("setup", "the child runs outside the directory that was asked for");
        if (!worked)
        {
            count("probe.setup_failed");
            if (!bad_dir && !rep.fault) violation("setup", "the child could not be set up although nothing failed: %s", rep.err.c_str());
            if (rep.code == 0) violation("setup", "the child could not be set up and ends with success");
            if (rep.err.empty()) violation("setup", "the child could not be set up and says nothing");
            return;
        }
        if (rep.fault) count("probe.child_fault_survived");
        count("probe.child_ran");
        if (!rep.fault || rep.exec) ; // a fault the library chose to ignore must not show either
        auto same_pipe = [&](int fd, int i) {
            auto it = rep.fds.find(fd);
            if (it == rep.fds.end()) return false;
            return rep.paths.at(fd) == (i == 0 ? "pipe:r" : "pipe:w") && it->second != ends[i];
        };
        for (int i = 0; i < 3; ++i)
        {
            const void* want = nullptr; bool ok;
            switch (j.act[i])
            {
                case wp::Redirect::UNCHANGED: want = open_before[i]; break;
                case wp::Redirect::FD: want = open_before[j.from[i]]; break;
                case wp::Redirect::STDOUT: want = rep.fds.count(1) ? rep.fds.at(1) : nullptr; break;
                default: break;
            }
            auto it = rep.fds.find(i);
            std::string have = it == rep.fds.end() ? "closed" : rep.paths.at(i);
            if (j.act[i] == wp::Redirect::PIPE) ok = same_pipe(i, i);
            else if (j.act[i] == wp::Redirect::DEVNULL) ok = have == "/dev/null";
            else ok = it != rep.fds.end() && it->second == want;
            if (!ok) violation("redirect", "%s of the child is %s; asked for: %s %s", NAME[i], have.c_str(), ACT[(int)j.act[i]], j.act[i] == wp::Redirect::FD ? paths_before[j.from[i]].c_str() : "");
        }
        bool closes = j.c->close_fds || !j.c->pass_fds.empty();
        for (auto& f: rep.fds)
        {
            if (f.first < 3) continue;
            bool passed = std::find(j.c->pass_fds.begin(), j.c->pass_fds.end(), f.first) != j.c->pass_fds.end();
            bool inherited = open_before.count(f.first) && open_before[f.first] == f.second;
            if (!inherited) violation("inherit", "the child has descriptor %d (%s) that it should not have", f.first, rep.paths.at(f.first).c_str());
            if (closes && !passed) violation("inherit", "the child keeps descriptor %d (%s) that was not passed to it", f.first, rep.paths.at(f.first).c_str());
        }
        for (auto& b: open_before)
        {
            if (b.first < 3) continue;
            bool passed = std::find(j.c->pass_fds.begin(), j.c->pass_fds.end(), b.first) != j.c->pass_fds.end();
            bool source = std::find(j.from, j.from + 3, b.first) != j.from + 3;
            if (!passed && (closes || source)) continue;
            if (rep.fault) continue;           // closing is where the fault may have hit
            if (!rep.fds.count(b.first)) violation("inherit", "the child does not have descriptor %d (%s) that was to be passed to it", b.first, paths_before[b.first].c_str());
        }
        if (!j.c->cwd.empty() ? rep.cwd != j.c->cwd : rep.cwd != cwd0) violation("setup", "the child runs in %s", rep.cwd.c_str());
        if (rep.session != j.c->start_new_session) violation("setup", "the child %s its own session", rep.session ? "has" : "does not have");
        if (j.p)
        {
            std::string want = j.p->executable.empty() ? j.p->args[0] : j.p->executable;
            if (rep.program != want) violation("exec", "the child runs %s instead of %s", rep.program.c_str(), want.c_str());
            if (rep.args != j.p->args) violation("exec", "the child has %zu arguments instead of %zu", rep.args.size(), j.p->args.size());
            if (rep.has_env != !j.p->env.empty() || (rep.has_env && rep.env != j.p->env)) violation("exec", "the child does not have the environment that was set");
            count("probe.exec");
        }
        for (int i = 0; i < 3; ++i) if (j.act[i] == wp::Redirect::PIPE) count("probe.pipe");
    };
    auto configure = [&](Job& j) {
        j = Job();
        if (draw(3, "popen") == 2)
        {
            Sut s; j.p = new wp::Popen; j.c.reset(j.p);
            Host h;
            for (unsigned n = 1 + draw(3, "args"); n; --n) j.p->args.push_back(n & 1 ? "prog" : "");
            if (draw(3, "where") == 2) { static const char* const W[] = { "/usr/bin/prog", "./prog", "bin/prog", "-prog" }; j.p->args[0] = W[draw(4, "name")]; }
            if (j.p->args[0].empty() || draw(2, "executable")) j.p->executable = draw(2, "plain") ? "/bin/prog" : "other";
            std::map<std::string, std::string> want;
            static const char* const E[3][5] = { { nullptr }, { "A=parent", "HOME=/root", nullptr }, { "ABC=", "AB=x=y", "B=0", "TZ=UTC", nullptr } };
            const char* const* now = E[draw(3, "environment")];
            unsigned copy_at = draw(8, "copy");
            for (unsigned n = draw(5, "env");; --n)
            {
                if (n == copy_at)
                {
                    // replaces what was set until now
                    char** keep = environ;
                    environ = const_cast<char**>(now);
                    { Sut s2; j.p->copy_env_from_parent(); }
                    environ = keep;
                    want.clear();
                    for (auto e = now; *e; ++e) { std::string x = *e; want[x.substr(0, x.find('='))] = x.substr(x.find('=') + 1); }
                    count("probe.environment_copied");
                }
                if (!n) break;
                static const char* const K[] = { "A", "AB", "ABC", "B" };
                std::string k = K[draw(4, "key")], v = std::to_string(draw(3, "value"));
                { Sut s2; j.p->setenv(k, v); }
                want[k] = v;
            }
            std::map<std::string, std::string> have;
            for (auto& e: j.p->env) have[e.substr(0, e.find('='))] = e.substr(e.find('=') + 1);
            if (have != want || j.p->env.size() != want.size()) violation("environment", "setting %zu variables gives %zu entries or other values", want.size(), j.p->env.size());
        } else { Sut s; j.c.reset(new Worker); }
        std::vector<int> extra; for (int fd: app) if (fd > 2) extra.push_back(fd);
        for (int i = 0; i < 3; ++i)
        {
            unsigned a = draw(i == 2 ? 6 : 5, "redirect");
            wp::Redirect r = wp::Redirect::UNCHANGED; int fd = -1;
            if (a == 1) r = wp::Redirect::PIPE;
            else if (a == 2) r = wp::Redirect::DEVNULL;
            else if (a == 3 && !extra.empty()) { r = wp::Redirect::FD; fd = extra[draw(extra.size(), "fd")]; }
            else if (a == 4)
            {
                // another standard stream, as long as nothing redirects that one before
                r = wp::Redirect::FD;
                if (i == 0) fd = 0;
                else if (i == 1) fd = 1 + draw(2, "std");
                else fd = j.act[1] == wp::Redirect::UNCHANGED || (j.act[1] == wp::Redirect::FD && j.from[1] == 1) ? 1 + draw(2, "std") : 2;
            }
            else if (a == 5) r = wp::Redirect::STDOUT;
            j.act[i] = r; j.from[i] = fd;
            if (draw(4, "changed-mind") == 3)
            {
                // only the last request counts
                unsigned b = draw(3, "first");
                Sut s;
                if (i == 0) { if (b == 0) j.c->set_stdin(1); else j.c->set_stdin(b == 1 ? wp::Redirect::PIPE : wp::Redirect::DEVNULL); }
                if (i == 1) { if (b == 0) j.c->set_stdout(0); else j.c->set_stdout(b == 1 ? wp::Redirect::PIPE : wp::Redirect::DEVNULL); }
                if (i == 2) { if (b == 0) j.c->set_stderr(0); else j.c->set_stderr(b == 1 ? wp::Redirect::PIPE : wp::Redirect::DEVNULL); }
            }
            Sut s;
            if (i == 0) { if (fd >= 0) j.c->set_stdin(fd); else j.c->set_stdin(r); }
            if (i == 1) { if (fd >= 0) j.c->set_stdout(fd); else j.c->set_stdout(r); }
            if (i == 2) { if (fd >= 0) j.c->set_stderr(fd); else j.c->set_stderr(r); }
        }
        j.c->close_fds = draw(4, "close-fds") != 3;
        if (draw(2, "pass")) for (int fd: extra) if (draw(2, "passed")) j.c->pass_fds.push_back(fd);
        unsigned d = draw(6, "cwd");
        if (d == 4) j.c->cwd = "/sim/work"; else if (d == 5) j.c->cwd = "/sim/none";
        j.c->start_new_session = draw(4, "session") == 3;
    };

    // Where the streams go is settled when it starts
    auto too_late = [&](Job& j) {
        op = "redirecting a process that was started";
        int got[3]; { Sut s; got[0] = j.c->get_stdin(); got[1] = j.c->get_stdout(); got[2] = j.c->get_stderr(); }
        unsigned i = draw(3, "stream"), how = draw(4, "how");
        Res r = go([&] {
            static const wp::Redirect R[] = { wp::Redirect::PIPE, wp::Redirect::DEVNULL, wp::Redirect::UNCHANGED };
            if (i == 0) { if (how == 3) j.c->set_stdin(0); else j.c->set_stdin(R[how]); }
            else if (i == 1) { if (how == 3) j.c->set_stdout(1); else j.c->set_stdout(R[how]); }
            else { if (how == 3) j.c->set_stderr(2); else j.c->set_stderr(R[how]); } });
        if (r.ok) violation("redirect", "a stream of a process that was started can be redirected, to no effect");
        int now[3]; { Sut s; now[0] = j.c->get_stdin(); now[1] = j.c->get_stdout(); now[2] = j.c->get_stderr(); }
        for (int k = 0; k < 3; ++k) if (now[k] != got[k]) violation("redirect", "redirecting too late loses descriptor %d", got[k]);
        count("probe.too_late");
    };

    unsigned steps = 3 + draw(20, "steps");
    for (unsigned st = 0; st < steps; ++st)
    {
        Job& j = jobs[draw(jobs.size(), "job")];
        unsigned what = draw(18, "op");
        fired.clear(); fired_calls.clear();
        if (!j.c) { configure(j); op = "configuring"; if (draw(8, "idle") == 0) { check_fds(); continue; } start(j); continue; }
        proc::Disp before = proc::sigchld;
        int64_t t0 = vfs::clock_us();
        if (!j.started)
        {
            // nothing runs: nothing may be waited for or hit
            if (what < 3)
            {
                op = "using a process that was not started";
                unsigned lim = draw(3, "limit"), sig = draw(3, "which");
                Res r = go([&] {
                    if (what == 0) j.c->poll();
                    else if (what == 1) { if (lim == 2) j.c->wait(); else j.c->wait(lim ? 10 : 0); }
                    else if (sig == 0) j.c->terminate(); else if (sig == 1) j.c->kill(); else j.c->send_signal(0); });
                ev("%s: %s", op.c_str(), r.msg.c_str());
                if (r.ok) violation("not-started", "polling, waiting for or stopping a process that was not started succeeds");
                count("probe.not_started");
            } else start(j);
            check_fds();
            continue;
        }
        proc::Proc* pr = proc::find(j.pid);
        switch (what)
        {
            case 0: case 1:
            {
                op = "polling"; phase("poll");
                bool v = false;
                Res r = go([&] { v = j.c->poll(); });
                ev("poll: %d %s", v, r.msg.c_str());
                if (!r.ok) { wait_failed(j, r); break; }
                pr = proc::find(j.pid);
                if (j.known && !v) violation("status", "a process that ended is said to run");
                if (v && alive(j)) violation("status", "a process that runs is said to have ended");
                if (!v && pr->exits_at >= 0 && pr->exits_at <= t0) violation("status", "a process that ended is said to run");
                if (v) settle(j); else if (j.c->terminated()) violation("status", "a process that runs is said to have ended");
                break;
            }
            case 2: case 3: case 4: case 5: case 6:
            {
                static const int limits[] = { 0, 1, 7, 250, 999, 1000, 1500, 4321 };
                int ms = limits[draw(8, "limit")];
                // aim the end of the process and the signals at the interesting moments
                if (draw(3, "signals") == 0) for (unsigned n = 1 + draw(4, "how-many"); n; --n) proc::add_signal(t0 + 1 + draw(ms * 1000 + 2000, "at"), draw(2, "restart"));
                if (draw(3, "others") == 0) proc::add_foreign(t0 + 1 + draw(ms * 1000 + 2000, "at"));
                if (!j.known && pr->exits_at > t0 && draw(2, "aim"))
                {
                    static const int64_t offs[] = { -2000, -1, 0, 1, 1500 };
                    int64_t at = draw(2, "end-of-limit") ? t0 + ms * 1000ll + offs[draw(5, "near")] : t0 + 1 + draw(ms * 1000 + 1, "during");
                    if (at > t0) pr->exits_at = at;
                }
                op = "waiting with a time limit"; phase("wait(%d)", ms);
                bool v = false;
                if (!j.known && pr->exits_at > t0 && draw(8, "between") == 0) proc::awaited = j.pid;
                Res r = go([&] { v = j.c->wait(ms); });
                proc::awaited = 0;
                int64_t took = vfs::clock_us() - t0;
                ev("wait(%d): %d after %lld us %s", ms, v, (long long)took, r.msg.c_str());
                if (!r.ok) { wait_failed(j, r); break; }
                pr = proc::find(j.pid);
                if (v && alive(j)) violation("status", "a process that runs is said to have ended");
                if (j.known && !v) violation("status", "waiting up to %d ms for a process that already ended says that the time elapsed", ms);
                if (!v && pr->exits_at >= 0 && pr->exits_at <= t0 + ms * 1000ll) violation("limit", "the process ended after %lld us, within %d ms, and the wait says that the time elapsed", (long long)(pr->exits_at - t0), ms);
                if (!v && took < ms * 1000ll) violation("limit", "the wait gave up after %lld us of %d ms", (long long)took, ms);
                // each interruption can lose the remainder of a microsecond
                if (took > ms * 1000ll + proc::spent.tick + proc::spent.over + 2000) violation("limit", "the wait took %lld us, with a limit of %d ms", (long long)took, ms);
                int64_t late = vfs::clock_us() - std::max(t0, pr->exits_at);
                if (v && !j.known && late > 150000 + proc::spent.tick + proc::spent.over) violation("late", "the process ended and the wait went on for %lld us", (long long)late);
                if (v) { settle(j); count("probe.waited"); } else { count("probe.timed_out"); if (j.c->terminated()) violation("status", "a process that runs is said to have ended"); }
                break;
            }
            case 7: case 8:
            {
                if (pr->exits_at < 0) break;
                if (draw(3, "signals") == 0) proc::add_signal(t0 + 1 + draw(5000, "at"), draw(2, "restart"));
                op = "waiting"; phase("wait");
                int v = -1;
                Res r = go([&] { v = j.c->wait(); });
                ev("wait: %d %s", v, r.msg.c_str());
                if (!r.ok)
                {
                    if (!(r.sys && r.err == EINTR && proc::spent.interrupted)) { wait_failed(j, r); break; }
                    if (j.c->terminated()) violation("status", "an interrupted wait says that the process ended");
                    count("probe.interrupted");
                    break;
                }
                if (alive(j)) violation("status", "the wait ended before the process");
                pr = proc::find(j.pid);
                if (WIFEXITED(pr->raw) && v != WEXITSTATUS(pr->raw)) violation("status", "waiting gives return code %d instead of %d", v, WEXITSTATUS(pr->raw));
                settle(j);
                break;
            }
            case 9: case 10:
            {
                op = "stopping"; phase("kill");
                bool term = draw(2, "term");
                int sig = draw(4, "any") == 3 ? (draw(2, "which") ? SIGUSR1 : SIGCONT) : 0;
                bool running = !j.known;
                size_t had = pr->signals.size();
                Res r = go([&] { if (sig) j.c->send_signal(sig); else if (term) j.c->terminate(); else j.c->kill(); });
                ev("%s: %s", term ? "terminate" : "kill", r.msg.c_str());
                pr = proc::find(j.pid);
                if (!r.ok && running && fired.empty() && !j.stolen) violation("unexpected-error", "stopping a process failed with \"%s\"", r.msg.c_str());
                if (r.ok && running && j.stolen) violation("signal", "stopping a process that is gone succeeds");
                if (r.ok && running && (pr->signals.size() != had + 1 || pr->signals.back() != (sig ? sig : term ? SIGTERM : SIGKILL))) violation("signal", "stopping a process did not send the signal");
                count("probe.signalled");
                break;
            }
            case 11:
            {
                unsigned i = draw(3, "stream");
                op = "closing a stream"; phase("close");
                Res r = go([&] { if (i == 0) j.c->close_stdin(); else if (i == 1) j.c->close_stdout(); else j.c->close_stderr(); });
                if (!r.ok && fired.empty()) violation("unexpected-error", "closing a stream failed with \"%s\"", r.msg.c_str());
                int fd; { Sut s; fd = i == 0 ? j.c->get_stdin() : i == 1 ? j.c->get_stdout() : j.c->get_stderr(); }
                if (fd != -1) violation("descriptors", "a closed stream still has descriptor %d", fd);
                break;
            }
            case 12:
                op = "destroying"; phase("destroy");
                if (!j.known) count("probe.abandoned");
                { Sut s; j.c.reset(); }
                j = Job();
                break;
            case 13: { op = "opening a file"; app_open(); break; }
            case 14:
            {
                // the application closes a file of its own
                op = "closing a file";
                std::vector<int> extra; for (int fd: app) if (fd > 2) extra.push_back(fd);
                if (!extra.empty())
                {
                    int fd = extra[draw(extra.size(), "fd")];
                    bool used = false;
                    for (auto& k: jobs) if (k.c && !k.started) for (int f: k.from) if (f == fd) used = true;
                    if (!used) { vfs::close_quiet(fd); app.erase(fd); for (auto& k: jobs) if (k.c) { auto& v = k.c->pass_fds; v.erase(std::remove(v.begin(), v.end(), fd), v.end()); } }
                }
                break;
            }
            case 15: too_late(j); break;
            case 16:
                // another part of the application takes the status of all children that ended
                if (draw(3, "steal") == 2 && !j.known && !alive(j)) { pr->reaped = true; j.stolen = true; count("probe.stolen"); fault("fault.status_taken"); }
                break;
            default: vfs::advance(1 + draw(600000, "time")); break;
        }
        if (!(proc::sigchld == before)) violation("signals", "after %s: the application's handling of SIGCHLD is not what it was", op.c_str());
        check_fds();
    }
    op = "the end";
    for (auto& j: jobs) { Sut s; j.c.reset(); }
    check_fds();
    nontrivial();
}

void prepare() { vfs::reset(); }

}
SIM_SCENARIO(P18, prepare, run_p18)
