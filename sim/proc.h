// Simulated processes, signals and sleeping: fork, waitpid, kill, exec, signal
// dispositions and nanosleep of the library land here.  A fork runs the code of
// the child to its end in a copy of the simulated world (nothing of it can
// reach the caller's), and its life and death then happen in simulated time.
#pragma once
#include "core.h"
#include "vfs.h"
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <map>

namespace sim { namespace proc {

// What the child looked like when it ended, or became another program
struct Report
{
    bool exec = false;
    bool main_ran = false;
    bool fault = false;               // an injected fault fired in the child
    int code = 0;
    std::map<int, const void*> fds;   // open file descriptions
    std::map<int, std::string> paths;
    std::string cwd, err, program;
    bool session = false;
    std::vector<std::string> args, env;
    bool has_env = false;
};

struct Plan
{
    int64_t life_us = 0;              // -1: until killed
    int raw = 0;                      // wait status, if it gets to do its work
    int fail_nth = 0, fail_errno = 0; // the n-th system call of its setup fails
    uint64_t alloc_nth = 0;           // the n-th allocation fails
    bool exec_fails = false;
};

struct Proc
{
    pid_t pid = 0;
    int64_t exits_at = -1;            // -1: not planned
    int raw = 0;
    bool reaped = false, foreign = false;
    int64_t stops_at = -1, goes_on_at = -1;   // stopped in between, by job control or a debugger
    bool stop_told = false, cont_told = false;
    Report rep;
    std::vector<int> signals;
};

struct Disp { uintptr_t handler = 0; int flags = 0; uint64_t mask = 0; bool operator==(const Disp& o) const { return handler == o.handler && flags == o.flags && mask == o.mask; } };

void reset();
extern std::function<Plan()> plan;
extern std::deque<Proc> table;
Proc* find(pid_t pid);
pid_t add_foreign(int64_t exits_at);          // another child of the application
void recycle(pid_t pid);                      // an unrelated process gets this pid
void add_signal(int64_t at, bool restart);    // a signal with a handler arrives
extern Disp sigchld;
extern unsigned handled;                      // times the application's handler ran
void app_handler(int);
void app_handler3(int, void*, void*);
extern bool ticking;
// The highest descriptor there can be, plus one
extern int open_max;
// accumulated by the calls of one operation
struct Spent { int64_t tick = 0, over = 0; bool interrupted = false; unsigned sleeps = 0; };
extern Spent spent;
// a process that may end at any moment
extern pid_t awaited;
extern std::function<int(const char* call)> fail;   // faults in the calling process
bool in_child();
void mark_main();
}}
