#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <array>
#include <condition_variable>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <thread>
#include <time.h>
#include <execinfo.h>

extern "C" {
const char* __asan_default_options()
{
    return "exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:"
           "max_allocation_size_mb=3000:detect_stack_use_after_return=0:handle_abort=0:"
           "alloc_dealloc_mismatch=0:quarantine_size_mb=16:max_malloc_fill_size=0";
}
}

extern "C" pid_t __real_waitpid(pid_t, int*, int);

namespace sim {

Shared* sh = nullptr;
thread_local int sut_depth = 0;

namespace {
bool quiet = false;             // inside in_fork: no draws, no events
uint64_t step_budget = ~0ull;

struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};
Rng rng;
bool zero_tail = false;         // replay: after the script everything is 0
const std::vector<uint32_t>* script = nullptr;
}

[[noreturn]] static void leave(int code)
{
    sh->done = code;
    ::_exit(0);
}

void harness_error(const char* fmt, ...)
{
    sut_depth = 0;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->vmsg, sizeof(sh->vmsg), fmt, ap);
    va_end(ap);
    leave(3);
}

uint32_t draw(uint32_t n, const char* label)
{
    Host h;
    if (quiet) harness_error("draw inside a reference execution (%s)", label);
    if (n <= 1) return 0;
    uint32_t i = sh->nchoices;
    if (i >= MAX_CHOICES) { sh->choice_overflow = 1; return 0; }
    uint32_t v;
    if (script && i < script->size())
        v = (*script)[i] % n;
    else if (zero_tail)
        v = 0;
    else
        v = static_cast<uint32_t>(((rng.next() >> 32) * (uint64_t)n) >> 32);
    sh->choices[i] = Choice{v, n, label};
    sh->nchoices = i + 1;
    sh->hash = (sh->hash ^ v) * 1099511628211ull;
    return v;
}

bool chance(uint32_t num, uint32_t den, const char* label)
{
    if (num == 0) return false;
    return draw(den, label) >= den - num;
}

uint64_t draw64(const char* label)
{
    uint64_t a = draw(0xffffffffu, label);
    uint64_t b = draw(0xffffffffu, label);
    return (a << 32) | b;
}

uint32_t skewed(uint32_t max, const char* label)
{
    if (max == 0) return 0;
    switch (draw(4, label))
    {
        case 0: return draw(std::min(max, 3u) + 1, label);
        case 1: return draw(std::min(max, 15u) + 1, label);
        case 2: return draw(std::min(max, 300u) + 1, label);
        default: return draw(max == 0xffffffffu ? max : max + 1, label);
    }
}

uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

void hash_bytes(const void* p, size_t n) { if (!quiet) sh->hash = fnv(p, n, sh->hash); }

static void append_log(const char* buf, size_t n)
{
    if (sh->log_len + n + 2 < LOG_SIZE)
    {
        memcpy(sh->log + sh->log_len, buf, n);
        sh->log[sh->log_len + n] = '\n';
        sh->log_len += n + 1;
        sh->log[sh->log_len] = 0;
    }
}

void ev(const char* fmt, ...)
{
    if (quiet) return;
    Host h;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
    sh->hash = fnv(buf, n, sh->hash);
    sh->events++;
    append_log(buf, n);
}

void note(const char* fmt, ...)
{
    if (quiet) return;
    Host h;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
    append_log(buf, n);
}

void phase(const char* fmt, ...)
{
    if (quiet) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->phase, sizeof(sh->phase), fmt, ap);
    va_end(ap);
}

void count(const char* name, uint64_t n)
{
    if (quiet) return;
    for (unsigned i = 0; i < MAX_COUNTERS; ++i)
    {
        if (!sh->counters[i].name) { sh->counters[i].name = name; sh->counters[i].v = n; return; }
        if (sh->counters[i].name == name || strcmp(sh->counters[i].name, name) == 0) { sh->counters[i].v += n; return; }
    }
}

void fault(const char* name)
{
    if (quiet) return;
    sh->faults++;
    count(name);
    ev("FAULT %s", name);
}

void violation(const char* cls, const char* fmt, ...)
{
    sut_depth = 0;
    snprintf(sh->vclass, sizeof(sh->vclass), "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->vmsg, sizeof(sh->vmsg), fmt, ap);
    va_end(ap);
    sh->hash = fnv(sh->vclass, strlen(sh->vclass), sh->hash);
    append_log(sh->vclass, strlen(sh->vclass));
    append_log(sh->vmsg, strlen(sh->vmsg));
    leave(2);
}

void finish() { leave(1); }

std::string hexdump(const std::string& s, size_t max)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, 4, "%02x", (uint8_t)s[i]); r += b; }
    if (s.size() > max) r += "...";
    return r;
}

std::string printable(const std::string& s, size_t max)
{
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\') r += c;
        else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    }
    if (s.size() > max) r += "...";
    return r;
}

void set_step_budget(uint64_t n) { step_budget = sh->steps + n; }

// ---------------------------------------------------------------- allocator
namespace alloc {
namespace {
struct Rec { void* p; uint64_t seq; uint32_t size; void* site[6]; };
constexpr unsigned TAB = 1 << 21;
Rec* tab = nullptr;               // open addressing
int64_t n_objs = 0, n_bytes = 0, budget = INT64_MAX;
uint64_t seq_ = 0;
uint64_t n_count = 0;
uint64_t fail_no = 0;
bool fail_sticky = false, fired_ = false;
int fill_byte = -1;
bool sites = false;

inline unsigned slot(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 43) & (TAB - 1); }

void insert(void* p, size_t n)
{
    if (!tab)
        tab = (Rec*)::mmap(nullptr, sizeof(Rec) * (size_t)TAB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    ++n_objs; n_bytes += n; ++seq_;
    if (n_objs > (int64_t)TAB * 3 / 4) { if (n_bytes < 0) abort(); violation("memory", "more than %u live objects allocated by the library (phase: %s)", TAB * 3 / 4, sh->phase); }
    if ((uint64_t)n_bytes > sh->peak_live) sh->peak_live = n_bytes;
    unsigned i = slot(p);
    while (tab[i].p) i = (i + 1) & (TAB - 1);
    tab[i].p = p; tab[i].seq = seq_; tab[i].size = (uint32_t)n;
    if (sites)
    {
        Host h;
        void* bt[10];
        int k = backtrace(bt, 10);
        for (int j = 0; j < 6; ++j) tab[i].site[j] = j + 3 < k ? bt[j + 3] : nullptr;
    }
    if (n_bytes > budget)
        violation("memory", "library holds %lld bytes, budget %lld (phase: %s)", (long long)n_bytes, (long long)budget, sh->phase);
}

void erase(void* p)
{
    if (!tab || !p) return;
    unsigned i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (TAB - 1);
    if (!tab[i].p) return;
    --n_objs; n_bytes -= tab[i].size;
    // backward shift deletion
    unsigned j = i;
    for (;;)
    {
        tab[i].p = nullptr;
        for (;;)
        {
            j = (j + 1) & (TAB - 1);
            if (!tab[j].p) return;
            unsigned k = slot(tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}

// returns false if this allocation must fail
bool admit(size_t n)
{
    ++n_count;
    if (fail_no && (n_count == fail_no || (fail_sticky && n_count > fail_no)))
    {
        if (!fired_) { fired_ = true; fault("fault.alloc_failure"); }
        return false;
    }
    return true;
}
}

void reset() { fail_no = 0; fired_ = false; n_count = 0; }
void reset_count() { n_count = 0; }
uint64_t count() { return n_count; }
void fail_at(uint64_t n, bool sticky) { n_count = 0; fail_no = n; fail_sticky = sticky; fired_ = false; }
void disarm() { fail_no = 0; }
bool fired() { return fired_; }
uint64_t seq() { return seq_; }
Mark mark() { return Mark{n_objs, n_bytes, seq_}; }
int64_t live_objs() { return n_objs; }
int64_t live_bytes() { return n_bytes; }
void set_budget(int64_t b) { budget = b; }
void set_fill(int b) { fill_byte = b; }
void record_sites(bool on) { if (on) { void* bt[4]; backtrace(bt, 4); } sites = on; }

std::string describe_live_since(uint64_t s)
{
    Host h;
    std::string r;
    unsigned shown = 0;
    if (!tab) return r;
    std::vector<Rec> recs;
    for (unsigned i = 0; i < TAB; ++i) if (tab[i].p && tab[i].seq > s) recs.push_back(tab[i]);
    std::sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b){ return a.seq < b.seq; });
    for (auto& rec: recs)
    {
        if (shown++ >= 4) { r += " ..."; break; }
        char b[128];
        snprintf(b, sizeof(b), "[#%llu %u bytes", (unsigned long long)(rec.seq - s), rec.size);
        r += b;
        for (int j = 0; j < 6 && rec.site[j]; ++j)
        {
            char** syms = backtrace_symbols(&rec.site[j], 1);
            const char* o = syms ? strrchr(syms[0], '[') : nullptr;
            r += " "; r += o ? o : "?";
            free(syms);
        }
        r += "]";
    }
    return r;
}
}

static void* do_new(size_t n, bool nothrow)
{
    bool tracked = sut_depth > 0 && sh;
    if (tracked && !alloc::admit(n))
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p)
    {
        if (tracked && !quiet)
            violation("memory", "library asked for %zu bytes in one block (phase: %s)", n, sh->phase);
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (tracked)
    {
        if (alloc::fill_byte >= 0) memset(p, alloc::fill_byte, std::min(n, (size_t)65536));
        alloc::insert(p, n);
    }
    return p;
}

static void do_delete(void* p)
{
    if (!p) return;
    alloc::erase(p);
    free(p);
}

// ---------------------------------------------------------------- scheduling
namespace {
struct Task
{
    std::function<void()> fn;
    std::thread th;
    std::condition_variable cv;
    bool done = false;
};
struct SchedState
{
    std::mutex m;
    std::condition_variable main_cv;
    std::vector<std::unique_ptr<Task>> tasks;
    int current = -1;   // who holds the baton; -1: main
    unsigned num = 1, den = 3;
};
SchedState* sched = nullptr;
thread_local int my_task = -1;

void hand_over(std::unique_lock<std::mutex>& lk, int to)
{
    sched->current = to;
    if (to < 0) sched->main_cv.notify_one();
    else sched->tasks[to]->cv.notify_one();
}
}

bool in_tasks() { return my_task >= 0; }
int task_id() { return my_task; }

static void switch_task(const char* where);
extern thread_local int no_preempt;
void yield_point(const char* where)
{
    if (!sched || my_task < 0 || no_preempt) return;
    Host h;
    if (!chance(sched->num, sched->den, "switch?")) return;
    switch_task(where);
}

static bool preempt_on = false;
static uint32_t preempt_in = 0;
thread_local int no_preempt = 0;
static uint32_t preempt_gap()
{
    uint32_t g = draw(40, "preempt-after");
    return g == 0 ? 3000 : g < 30 ? g : (g - 29) * 30;
}
void set_preempt(bool on)
{
    preempt_on = on;
    if (on) preempt_in = preempt_gap();
}
static void preempt()
{
    int e = errno;
    Host h;
    preempt_in = preempt_gap();
    switch_task("preemption");
    errno = e;
}

static void switch_task(const char* where)
{
    std::vector<int> ready;
    for (unsigned i = 0; i < sched->tasks.size(); ++i)
        if ((int)i != my_task && !sched->tasks[i]->done) ready.push_back(i);
    if (ready.empty()) return;
    int to = ready[draw(ready.size(), "switch-to")];
    ev("switch %d->%d at %s", my_task, to, where);
    sh->switches++;
    std::unique_lock<std::mutex> lk(sched->m);
    hand_over(lk, to);
    sched->tasks[my_task]->cv.wait(lk, [&]{ return sched->current == my_task; });
}

void run_tasks(const std::vector<std::function<void()>>& fns, unsigned num, unsigned den)
{
    Host h;
    SchedState st;
    sched = &st;
    st.num = num; st.den = den;
    for (auto& f: fns) { st.tasks.emplace_back(new Task); st.tasks.back()->fn = f; }
    for (unsigned i = 0; i < st.tasks.size(); ++i)
        st.tasks[i]->th = std::thread([i, &st]{
            my_task = i;
            Task& t = *st.tasks[i];
            {
                std::unique_lock<std::mutex> lk(st.m);
                t.cv.wait(lk, [&]{ return st.current == (int)i; });
            }
            try { t.fn(); }
            catch (std::exception& e) { violation("unexpected-exception", "task %u: %s", i, e.what()); }
            t.done = true;
            std::vector<int> ready;
            for (unsigned j = 0; j < st.tasks.size(); ++j) if (!st.tasks[j]->done) ready.push_back(j);
            int to = ready.empty() ? -1 : ready[draw(ready.size(), "next-task")];
            if (to >= 0) ev("task %u done, next %d", i, to);
            std::unique_lock<std::mutex> lk(st.m);
            hand_over(lk, to);
        });
    {
        int first = draw(st.tasks.size(), "first-task");
        std::unique_lock<std::mutex> lk(st.m);
        hand_over(lk, first);
        st.main_cv.wait(lk, [&]{ return st.current == -1; });
    }
    for (auto& t: st.tasks) t->th.join();
    sched = nullptr;
}

// ---------------------------------------------------------------- sub-process reference executions
bool in_quiet() { return quiet; }

int fork_twice()
{
    Host h;
    sh->scratch[0] = 0;
    fflush(nullptr);
    pid_t pid = ::syscall(SYS_fork);
    if (pid < 0) harness_error("fork: %s", strerror(errno));
    if (pid == 0)
    {
        quiet = true;
        return 0;
    }
    int st;
    while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (sh->done) ::syscall(SYS_exit_group, 0);    // the reference execution itself reported something
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); ::syscall(SYS_kill, ::syscall(SYS_getpid), WTERMSIG(st)); ::syscall(SYS_exit_group, 78); }
    if (WEXITSTATUS(st) != 0) ::syscall(SYS_exit_group, WEXITSTATUS(st));
    if (!sh->scratch[0]) harness_error("reference execution ended without a result");
    return 1;
}

void fork_finish(const std::string& r)
{
    if (r.size() > sizeof(sh->scratch_buf)) harness_error("reference result too long");
    memcpy(sh->scratch_buf, r.data(), r.size());
    sh->scratch[1] = r.size();
    sh->scratch[0] = 1;
    for (;;) ::syscall(SYS_exit_group, 0);
}

std::string fork_report() { return std::string(sh->scratch_buf, sh->scratch[1]); }

std::string in_fork(const std::function<std::string()>& f)
{
    Host h;
    if (fork_twice() == 0) fork_finish(f());
    return fork_report();
}

// ---------------------------------------------------------------- registry
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
Register::Register(const Scenario& s) { scenarios().push_back(s); }

std::string repo_dir() { const char* r = getenv("SIM_REPO"); return r ? r : "/repo"; }

std::string slurp_real(const std::string& path)
{
    std::string r;
    int fd = ::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char buf[65536];
    ssize_t n;
    while ((n = ::syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.append(buf, n);
    ::syscall(SYS_close, fd);
    return r;
}

// ---------------------------------------------------------------- supervisor
struct Result
{
    std::string cls, msg;       // empty cls: no violation
    bool error = false;         // harness error
    uint64_t hash;
    std::vector<uint32_t> choices;
};

static int stderr_fd = -1;      // memfd with the run's stderr
static int out_fd = -1;         // memfd with the run's stdout

static std::string read_fd_all(int fd)
{
    std::string r;
    char buf[4096];
    ::lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0 && r.size() < (1 << 20)) r.append(buf, n);
    return r;
}

static std::string classify_crash(int st, std::string& msg)
{
    std::string err = read_fd_all(stderr_fd);
    std::string cls;
    auto frame = [&](size_t from) -> std::string {
        // first frame that lies in the repository's sources
        size_t pos = from;
        std::string repo = repo_dir() + "/";
        for (int i = 0; i < 40; ++i)
        {
            size_t f = err.find("\n    #", pos);
            if (f == std::string::npos) break;
            size_t e = err.find('\n', f + 1);
            std::string line = err.substr(f + 1, e - f - 1);
            size_t in = line.find(" in ");
            if (in != std::string::npos && line.find(repo) != std::string::npos)
            {
                std::string fn = line.substr(in + 4);
                size_t cut = fn.find_first_of("( ");
                if (cut != std::string::npos) fn = fn.substr(0, cut);
                return fn;
            }
            pos = e == std::string::npos ? err.size() : e - 0;
            if (pos >= err.size()) break;
            --pos;
            // stop at the blank line that ends the first stack
            if (e != std::string::npos && e + 1 < err.size() && err[e + 1] == '\n') break;
            pos = e - 1;
        }
        return "?";
    };
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
        size_t s = p + strlen("ERROR: AddressSanitizer: ");
        size_t e = err.find_first_of(" \n", s);
        cls = "asan:" + err.substr(s, e - s) + ":" + frame(p);
    }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
    {
        if (err.find("terminate called") != std::string::npos)
            cls = "abort:terminate";
        else if (err.find("Assertion") != std::string::npos)
            cls = "abort:assertion";
        else
            cls = "abort";
    }
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
        cls = "hang:cpu";
    else if (WIFSIGNALED(st))
        cls = std::string("signal:") + std::to_string(WTERMSIG(st));
    else
        cls = std::string("exit:") + std::to_string(WEXITSTATUS(st));
    msg = std::string("phase: ") + sh->phase + "\n" + err.substr(0, 3000);
    return cls;
}

static const Scenario* cur_scenario;

static Result run_once(const std::vector<uint32_t>* scr, bool tail_zero, uint64_t seed)
{
    // reset shared state (not the big arrays)
    sh->done = 0; sh->nchoices = 0; sh->choice_overflow = 0; sh->hash = 1469598103934665603ull;
    sh->steps = 0; sh->peak_live = 0; sh->sim_time_us = 0; sh->events = 0; sh->switches = 0; sh->faults = 0; sh->nontrivial = 0;
    sh->log_len = 0; sh->log[0] = 0; sh->vclass[0] = sh->vmsg[0] = sh->phase[0] = sh->sample[0] = 0;
    memset(sh->counters, 0, sizeof(sh->counters));
    memset(sh->cov, 0, sizeof(sh->cov));
    if (ftruncate(stderr_fd, 0)) {}
    if (ftruncate(out_fd, 0)) {}
    script = scr; zero_tail = tail_zero; rng.s = seed;
    pid_t pid = ::syscall(SYS_fork);
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        ::lseek(stderr_fd, 0, SEEK_SET);
        ::lseek(out_fd, 0, SEEK_SET);
        ::dup2(stderr_fd, 2);
        ::dup2(out_fd, 1);
        struct rlimit rl{60, 60};
        ::setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        ::setrlimit(RLIMIT_CORE, &rl);
        step_budget = 400000000ull;
        try { cur_scenario->run(); }
        catch (std::exception& e) { violation("unexpected-exception", "%s (phase: %s)", e.what(), sh->phase); }
        finish();
    }
    int st;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    Result r;
    r.hash = sh->hash;
    r.choices.reserve(sh->nchoices);
    for (unsigned i = 0; i < sh->nchoices; ++i) r.choices.push_back(sh->choices[i].v);
    if (sh->done == 1) ;
    else if (sh->done == 2) { r.cls = sh->vclass; r.msg = sh->vmsg; }
    else if (sh->done == 3) { r.error = true; r.msg = sh->vmsg; }
    else
    {
        r.cls = classify_crash(st, r.msg);
        r.hash = fnv(r.cls, r.hash);
        sh->done = 2;
    }
    return r;
}

static std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void write_replay(const std::string& path, const std::string& prop, const Result& r, uint64_t seed, uint64_t run, bool full)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "{\n\"property\": %s,\n\"class\": %s,\n\"message\": %s,\n\"seed\": %llu,\n\"run\": %llu,\n\"hash\": \"%016llx\",\n\"choices\": [",
            json_str(prop).c_str(), json_str(r.cls).c_str(), json_str(r.msg).c_str(),
            (unsigned long long)seed, (unsigned long long)run, (unsigned long long)r.hash);
    for (size_t i = 0; i < r.choices.size(); ++i) fprintf(f, "%s%u", i ? "," : "", r.choices[i]);
    fprintf(f, "]");
    if (full)
    {
        fprintf(f, ",\n\"schedule\": [");
        for (unsigned i = 0; i < sh->nchoices; ++i)
            fprintf(f, "%s\n  [%s, %u, %u]", i ? "," : "", json_str(sh->choices[i].label ? sh->choices[i].label : "").c_str(), sh->choices[i].v, sh->choices[i].n);
        fprintf(f, "],\n\"trace\": [");
        std::string log(sh->log, sh->log_len);
        size_t p = 0; bool first = true; unsigned n = 0;
        while (p < log.size() && n++ < 5000)
        {
            size_t e = log.find('\n', p);
            if (e == std::string::npos) e = log.size();
            fprintf(f, "%s\n  %s", first ? "" : ",", json_str(log.substr(p, e - p)).c_str());
            first = false;
            p = e + 1;
        }
        fprintf(f, "]");
    }
    fprintf(f, "\n}\n");
    fclose(f);
}

static std::vector<uint32_t> read_choices(const std::string& path)
{
    std::string s = slurp_real(path);
    size_t p = s.find("\"choices\": [");
    std::vector<uint32_t> r;
    if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path.c_str()); exit(2); }
    p += strlen("\"choices\": [");
    while (p < s.size() && s[p] != ']')
    {
        if (isdigit((unsigned char)s[p])) { char* e; r.push_back(strtoul(&s[p], &e, 10)); p = e - s.data(); }
        else ++p;
    }
    return r;
}

static Result minimise(const std::vector<uint32_t>& start, const std::string& cls, double budget_s, unsigned& attempts)
{
    double t0 = now();
    attempts = 0;
    std::vector<uint32_t> best = start;
    auto trim = [](std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    auto ok = [&](const std::vector<uint32_t>& c) {
        ++attempts;
        Result r = run_once(&c, true, 0);
        return !r.error && r.cls == cls;
    };
    auto timeup = [&] { return now() - t0 > budget_s; };
    trim(best);
    bool progress = true;
    while (progress && !timeup())
    {
        progress = false;
        // cut the tail
        for (size_t cut = best.size() / 2; cut >= 1 && !timeup(); cut /= 2)
            while (best.size() > cut && !timeup())
            {
                std::vector<uint32_t> c(best.begin(), best.end() - cut);
                if (!ok(c)) break;
                best = c; trim(best); progress = true;
            }
        // delete blocks
        for (size_t len: {64, 32, 16, 8, 4, 3, 2, 1})
            for (size_t i = best.size(); i-- > 0 && !timeup(); )
            {
                if (i + len > best.size()) continue;
                std::vector<uint32_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (ok(c)) { best = c; trim(best); progress = true; if (i > best.size()) i = best.size(); }
                else if (len > 4) i = i >= len / 2 ? i - len / 2 + 1 : i;
            }
        // zero blocks, then shrink single values
        for (size_t len: {16, 4, 1})
            for (size_t i = 0; i < best.size() && !timeup(); i += len)
            {
                std::vector<uint32_t> c(best);
                bool any = false;
                for (size_t j = i; j < std::min(i + len, c.size()); ++j) if (c[j]) { c[j] = 0; any = true; }
                if (any && ok(c)) { best = c; progress = true; }
            }
        for (size_t i = 0; i < best.size() && !timeup(); ++i)
            while (best[i] > 1 && !timeup())
            {
                std::vector<uint32_t> c(best);
                c[i] /= 2;
                if (!ok(c)) { c = best; c[i] -= 1; if (!ok(c)) break; }
                best = c; progress = true;
            }
        trim(best);
    }
    Result r = run_once(&best, true, 0);
    r.choices = best;
    return r;
}

static int usage() { fprintf(stderr, "usage: sim --prop P [--seed S --worker W --time T --runs N --out F | --replay F | --minimise F --out G]\n"); return 2; }

int main(int argc, char** argv)
{
    std::string prop, out, replay, mini, viol;
    uint64_t seed = 1, worker = 0, maxruns = 1000000000;
    double tlimit = 10;
    bool selfcheck = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) exit(usage()); return argv[++i]; };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--worker") worker = strtoull(val().c_str(), 0, 10);
        else if (a == "--time") tlimit = atof(val().c_str());
        else if (a == "--runs") maxruns = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") out = val();
        else if (a == "--viol") viol = val();
        else if (a == "--replay") replay = val();
        else if (a == "--minimise") mini = val();
        else if (a == "--selfcheck") selfcheck = true;
        else return usage();
    }
    for (auto& s: scenarios()) if (prop == s.prop) cur_scenario = &s;
    if (!cur_scenario) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }

    sh = (Shared*)::mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    stderr_fd = memfd_create("sim-stderr", MFD_CLOEXEC);
    out_fd = memfd_create("sim-stdout", MFD_CLOEXEC);
    signal(SIGPIPE, SIG_IGN);
    if (cur_scenario->prepare) cur_scenario->prepare();
    if (sh->done == 3 || sh->done == 2) { fprintf(stderr, "prepare failed: %s\n", sh->vmsg); return 2; }

    if (!replay.empty())
    {
        auto c = read_choices(replay);
        Result r = run_once(&c, true, 0);
        printf("{\"class\": %s, \"message\": %s, \"hash\": \"%016llx\", \"error\": %s}\n", json_str(r.cls).c_str(), json_str(r.msg).c_str(), (unsigned long long)r.hash, r.error ? "true" : "false");
        if (getenv("SIM_SHOW_TRACE")) { fwrite(sh->log, 1, sh->log_len, stdout); printf("%s\n", r.msg.c_str()); }
        return r.error ? 2 : r.cls.empty() ? 0 : 1;
    }
    if (!mini.empty())
    {
        auto c = read_choices(mini);
        Result r0 = run_once(&c, true, 0);
        if (r0.error || r0.cls.empty()) { printf("{\"class\": \"\"}\n"); return 2; }
        unsigned attempts;
        Result r = minimise(r0.choices, r0.cls, tlimit, attempts);
        if (r.cls != r0.cls) { r = run_once(&c, true, 0); }
        write_replay(out, prop, r, seed, worker, true);
        printf("{\"class\": %s, \"hash\": \"%016llx\", \"attempts\": %u, \"from\": %zu, \"to\": %zu}\n", json_str(r.cls).c_str(), (unsigned long long)r.hash, attempts, c.size(), r.choices.size());
        return r.cls == r0.cls ? 0 : 2;
    }

    // search
    double t0 = now();
    Rng meta{seed * 0x9e3779b97f4a7c15ull + worker * 0xda942042e4dd58b5ull + 12345};
    meta.next();
    std::map<std::string, uint64_t> counters;
    std::vector<uint64_t> hashes;
    std::vector<uint8_t> cov(COV_SIZE);
    uint64_t runs = 0, nontrivial = 0, faults = 0, switches = 0, events = 0, steps = 0, simtime = 0, peak = 0, covbits = 0, mismatches = 0, max_steps = 0, overflow = 0;
    uint64_t total_hash = 0;
    std::vector<std::string> samples;
    std::vector<std::vector<uint32_t>> corpus;
    std::map<std::string, int> classes;
    std::string error;
    while (runs < maxruns && now() - t0 < tlimit)
    {
        uint64_t runseed = meta.next();
        std::vector<uint32_t> scr;
        const std::vector<uint32_t>* ps = nullptr;
        // half of the runs (once there is a corpus) mutate a run that reached new code
        uint64_t m = meta.next();
        if (!corpus.empty() && (m & 1))
        {
            scr = corpus[(m >> 8) % corpus.size()];
            unsigned nm = 1 + ((m >> 1) & 7);
            if (scr.size() > 4 && ((m >> 4) & 7) == 0) scr.resize(1 + meta.next() % scr.size());
            for (unsigned k = 0; k < nm && !scr.empty(); ++k)
            {
                uint64_t x = meta.next();
                size_t pos = (x >> 8) % scr.size();
                switch (x & 3)
                {
                    case 0: scr[pos] = meta.next() >> 33; break;
                    case 1: scr[pos] += 1; break;
                    case 2: if (scr[pos]) scr[pos] -= 1; break;
                    case 3: scr[pos] = 0; break;
                }
            }
            ps = &scr;
        }
        Result r = run_once(ps, false, runseed);
        ++runs;
        if (r.error) { error = r.msg; break; }
        total_hash = total_hash * 1099511628211ull ^ r.hash;
        faults += sh->faults; switches += sh->switches; events += sh->events; steps += sh->steps; simtime += sh->sim_time_us; overflow += sh->choice_overflow;
        if (sh->peak_live > peak) peak = sh->peak_live;
        if (sh->steps > max_steps) max_steps = sh->steps;
        if (sh->nontrivial) { ++nontrivial; hashes.push_back(r.hash); }
        for (unsigned i = 0; i < MAX_COUNTERS && sh->counters[i].name; ++i) counters[sh->counters[i].name] += sh->counters[i].v;
        if (sh->sample[0] && samples.size() < 3 && sh->nontrivial) samples.push_back(sh->sample);
        bool fresh = false;
        for (unsigned i = 0; i < COV_SIZE; ++i) if (sh->cov[i] & ~cov[i]) { cov[i] |= sh->cov[i]; fresh = true; }
        std::string log(sh->log, std::min(sh->log_len, 1u << 16));
        if (!r.cls.empty())
        {
            if (classes[r.cls]++ == 0)
            {
                write_replay(viol + "." + std::to_string(classes.size()), prop, r, seed, runs, true);
                if (classes.size() >= 3) break;
            }
            if (classes[r.cls] >= 3) break;
            continue;
        }
        if (fresh && r.choices.size() < 40000)
        {
            if (corpus.size() < 400) corpus.push_back(r.choices);
            else corpus[meta.next() % corpus.size()] = r.choices;
        }
        if (selfcheck || runs % 257 == 1)
        {
            // determinism: the same choices again must give the same history
            auto keep = r.choices;
            uint64_t hh = r.hash;
            Result r2 = run_once(&keep, true, 0);
            if (r2.hash != hh || r2.cls != r.cls)
            {
                ++mismatches;
                error = "nondeterministic run: same choices, different history";
                fprintf(stderr, "---- first\n%s\n---- second\n%s\n", log.c_str(), sh->log);
                break;
            }
            counters["determinism.replays"]++;
        }
    }
    for (auto c: cov) if (c) ++covbits;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"faults\": %llu, \"switches\": %llu, \"events\": %llu, \"steps\": %llu, \"max_steps\": %llu, \"sim_time_us\": %llu, \"peak_live\": %llu, \"cov_bits\": %llu, \"mismatches\": %llu, \"overflow\": %llu, \"wall\": %.2f, \"total_hash\": \"%016llx\", \"error\": %s, \"violations\": %zu,\n",
            (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)faults, (unsigned long long)switches, (unsigned long long)events,
            (unsigned long long)steps, (unsigned long long)max_steps, (unsigned long long)simtime, (unsigned long long)peak, (unsigned long long)covbits, (unsigned long long)mismatches, (unsigned long long)overflow,
            now() - t0, (unsigned long long)total_hash, json_str(error).c_str(), classes.size());
    fprintf(f, "\"counters\": {");
    bool first = true;
    for (auto& c: counters) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(samples[i]).c_str());
    fprintf(f, "]}\n");
    if (f != stdout)
    {
        fclose(f);
        FILE* h = fopen((out + ".hashes").c_str(), "w");
        if (h) { fwrite(hashes.data(), 8, hashes.size(), h); fclose(h); }
        FILE* g = fopen((out + ".cov").c_str(), "w");
        if (g) { fwrite(cov.data(), 1, cov.size(), g); fclose(g); }
    }
    if (!error.empty()) { fprintf(stderr, "harness error: %s\n", error.c_str()); return 2; }
    return classes.empty() ? 0 : 1;
}

}

// ---- instrumented library code reports every basic block here
extern "C" void __sanitizer_cov_trace_pc()
{
    if (sim::sut_depth <= 0) return;
    using namespace sim;
    if (++sh->steps > step_budget)
        violation("hang:steps", "no progress within %llu steps of library code (phase: %s)", (unsigned long long)step_budget, sh->phase);
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    unsigned i = (unsigned)((pc * 0x9e3779b97f4a7c15ull) >> 48);
    sh->cov[i] = 1;
    if (preempt_on && sched && my_task >= 0 && no_preempt == 0 && --preempt_in == 0) preempt();
}

// Locks taken by the library: what happens while one is held is one step, so
// that a task never waits for another one that is not running.
#define REAL(ret, name, args) extern "C" ret __real_##name args;
REAL(int, __cxa_guard_acquire, (uint64_t*))
REAL(void, __cxa_guard_release, (uint64_t*))
REAL(void, __cxa_guard_abort, (uint64_t*))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_once, (pthread_once_t*, void (*)()))
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) ++sim::no_preempt; return r; }
extern "C" void __wrap___cxa_guard_release(uint64_t* g) { --sim::no_preempt; __real___cxa_guard_release(g); }
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) { --sim::no_preempt; __real___cxa_guard_abort(g); }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); ++sim::no_preempt; return r; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { --sim::no_preempt; return __real_pthread_mutex_unlock(m); }
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { ++sim::no_preempt; int r = __real_pthread_once(o, f); --sim::no_preempt; return r; }

extern "C" int __real_vasprintf(char** strp, const char* fmt, va_list ap);
extern "C" int __wrap_vasprintf(char** strp, const char* fmt, va_list ap)
{
    if (sim::sut_depth > 0 && sim::sh && !sim::alloc::admit(1)) { *strp = nullptr; return -1; }
    sim::Host h;
    return __real_vasprintf(strp, fmt, ap);
}

void* operator new(size_t n) { return sim::do_new(n, false); }
void* operator new[](size_t n) { return sim::do_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, true); }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }

int main(int argc, char** argv) { return sim::main(argc, argv); }
