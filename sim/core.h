// Deterministic simulator core: one recorded stream of choices decides
// everything (workload, schedule, delays, faults).  Choice 0 is always the
// simplest one (no fault, stay on the current task, smallest value), so that a
// choice list can be minimised generically.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <memory>

namespace sim {

constexpr unsigned MAX_CHOICES = 1 << 18;
constexpr unsigned MAX_COUNTERS = 192;
constexpr unsigned LOG_SIZE = 1 << 20;
constexpr unsigned COV_SIZE = 1 << 16;

struct Choice { uint32_t v, n; const char* label; };
struct Counter { const char* name; uint64_t v; };

// Lives in memory shared between the supervisor and the forked run.
struct Shared
{
    volatile int done;              // run finished normally
    uint32_t nchoices;
    uint32_t choice_overflow;
    uint64_t hash;                  // hash of the event history
    uint64_t steps;                 // basic blocks executed in system-under-test code
    uint64_t peak_live;             // peak bytes allocated by the system under test
    uint64_t sim_time_us;
    uint64_t events;
    uint64_t switches;
    uint64_t faults;                // faults that fired
    uint64_t nontrivial;            // set by the scenario when the run did something the property is about
    uint32_t log_len;
    char vclass[512];
    char vmsg[4096];
    char phase[256];
    char sample[1024];
    Counter counters[MAX_COUNTERS];
    uint8_t cov[COV_SIZE];
    uint64_t scratch[64];           // for reference executions in sub-processes
    char scratch_buf[1 << 16];
    char log[LOG_SIZE];
    Choice choices[MAX_CHOICES];
};

extern Shared* sh;

// ---- choices
uint32_t draw(uint32_t n, const char* label);           // [0, n)
bool chance(uint32_t num, uint32_t den, const char* label); // true with p = num/den; 0 = false
inline uint32_t range(uint32_t lo, uint32_t hi, const char* label) { return lo + draw(hi - lo + 1, label); }
uint64_t draw64(const char* label);
template<typename T> const T& pick(const std::vector<T>& v, const char* label) { return v[draw(v.size(), label)]; }
// Small numbers mostly, up to max rarely
uint32_t skewed(uint32_t max, const char* label);

// ---- history
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // recorded + hashed
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // recorded, not hashed
void hash_bytes(const void* p, size_t n);
void count(const char* name, uint64_t n = 1);            // probe / statistic
inline void nontrivial();
void fault(const char* name);                            // a fault of this kind fired
void phase(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
std::string hexdump(const std::string& s, size_t max = 64);
std::string printable(const std::string& s, size_t max = 120);

inline void nontrivial() { sh->nontrivial = 1; }

// ---- system-under-test region: allocation faults, tracking and step budget
// are only active between enter and leave, on the thread that entered.
extern thread_local int sut_depth;
struct Sut { Sut() { ++sut_depth; } ~Sut() { --sut_depth; } };
struct Host { int old; Host() : old(sut_depth) { sut_depth = 0; } ~Host() { sut_depth = old; } };
template<typename F> auto sut(F&& f) { Sut s; return f(); }

// step budget for the current run (basic blocks of library code)
void set_step_budget(uint64_t n);

// ---- allocator seam
namespace alloc {
void reset();                        // forget everything
void fail_at(uint64_t n, bool sticky);   // the n-th (1-based) next SUT allocation fails; sticky: all after fail too
void disarm();
bool fired();
uint64_t count();                    // SUT allocations since arm/reset_count
void reset_count();
struct Mark { int64_t live_objs; int64_t live_bytes; uint64_t seq; };
Mark mark();
int64_t live_objs();
int64_t live_bytes();
std::string describe_live_since(uint64_t seq);
uint64_t seq();
void set_budget(int64_t bytes);      // violation when SUT live bytes exceed this
void set_fill(int byte);             // -1: no fill; else fill new memory with this byte
void record_sites(bool on);
}

// A run happens in a forked process; this runs f in a further forked process
// (so that it leaves no trace here) and hands back whatever it stored in
// sh->scratch_buf.  Returns false if it crashed.
std::string in_fork(const std::function<std::string()>& f);

// The same, returning twice: 0 in the new process (which runs until it calls
// fork_finish), 1 in the calling one, once the new process has finished.
int fork_twice();
[[noreturn]] void fork_finish(const std::string& report);
std::string fork_report();
bool in_quiet();                      // in a forked process: no draws, no events

// ---- cooperative scheduling of caller threads
struct Sched;
// run tasks as real threads, exactly one at a time; the scheduler decides who goes on
void run_tasks(const std::vector<std::function<void()>>& tasks, unsigned switch_num = 1, unsigned switch_den = 3);
void yield_point(const char* where);   // may switch to another task (no-op outside run_tasks)
// Preemption: while tasks run, also switch between any two basic blocks of
// library code, at seeded distances
void set_preempt(bool on);
bool in_tasks();
int task_id();

// ---- scenarios
struct Scenario
{
    const char* prop;
    void (*prepare)();        // once, before forking runs (may be null)
    void (*run)();            // one simulated run
};
struct Register { Register(const Scenario& s); };
#define SIM_SCENARIO(prop, prepare, run) static sim::Register reg_##prop(sim::Scenario{#prop, prepare, run});

std::string repo_dir();
std::string slurp_real(const std::string& path);
std::vector<std::string> list_real(const std::string& dir);

}
