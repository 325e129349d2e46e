// Deterministic simulator core: choice tapes, fault plan, event log, simulated
// disk, allocation ledger, step budget.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <setjmp.h>
#include <sys/types.h>

namespace sim {

typedef std::string Str;

// ---------------------------------------------------------------- choices
// Every decision of a run is one draw.  Two independent tapes so that shrinking
// the fault/schedule sequence does not shift the workload and vice versa.
uint32_t W(uint32_t n);                 // workload draw in [0,n); 0 is simplest
uint32_t F(uint32_t n);                 // fault / schedule draw in [0,n)
inline bool Wp(uint32_t permille) { return W(1000) >= 1000 - permille; }
inline bool Fp(uint32_t permille) { return F(1000) >= 1000 - permille; }
uint64_t W64();                         // biased 64-bit number
inline uint32_t Wr(uint32_t lo, uint32_t hi) { return lo + W(hi - lo + 1); }

// ---------------------------------------------------------------- faults
enum FaultKind {
    F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT,
    F_WRITE_ERR, F_WRITE_EINTR, F_WRITE_SHORT, F_DISK_FULL, F_CLOSE_ERR,
    F_ACCESS_ERR, F_FILE_GROWS, F_FILE_SHRINKS, F_FILE_REPLACED, F_FILE_VANISHES,
    F_CRASH, F_POWER_LOSS, F_TEAR, F_BITFLIP, F_BLOCK_ZERO, F_BLOCK_SWAP, F_BLOCK_DUP,
    F_BLOCK_LOST, F_INSERT,
    F_MSG_LOSS, F_MSG_DUP, F_MSG_REORDER, F_MSG_DELAY, F_WORKER_CRASH, F_WORKER_STALL,
    F_PTRACE_ERR, F_WAIT_ERR, F_WAIT_EINTR, F_WAIT_STOP, F_DWFL_ERR, F_DWFL_PARTIAL,
    F_ELF_ERR, F_RPM_ERR, F_RPM_MISSING, F_RPM_SHORT, F_STDOUT_ERR, F_STDOUT_SHORT,
    F_PREEMPT, F_REFORMAT, F_EXTRA_MEMBER, F_REORDER_MEMBER, F_TYPE_CHANGE, F_NOISE,
    F_FILE_MISSING, F_FILE_DAMAGED, F_OWNER_CRASH, F_PARTITION,
    F_ALLOC, F_GC, F_REENTER, F_BADVALUE, F_OWNER_DROP, F_NKINDS
};
extern const char* fault_names[F_NKINDS];

// Opportunity for a fault of a kind.  True = fires (counted).
bool fault(FaultKind k);
void count_fault(FaultKind k);          // a fault injected by other means
struct FaultPlan {
    uint64_t mask = 0;                  // enabled kinds in this run
    int mode = 0;                       // 0 none, 1 single shot, 2 two shots, 3 rate
    uint32_t nth = 0, nth2 = 0, rate = 0, opp = 0, fired = 0;
};
// Draw a swarm plan among the given kinds (no faults in clean mode).
void plan_faults(std::initializer_list<FaultKind> kinds, uint32_t span = 24);
void no_faults();
FaultPlan& plan();
uint32_t faults_fired();
struct NoFault { FaultPlan saved; NoFault(); ~NoFault(); };

bool mode_clean();                      // fault-free configuration of the check

// ---------------------------------------------------------------- log, verdicts
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void state(uint64_t h);                 // a state reached (distinct-state measure)
void probe(const char* name);           // "this rare condition was hit"
void nontrivial();                      // run did something worth counting
[[noreturn]] void violation(const Str& cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void sim_time(uint64_t us);             // advance the simulated clock
uint64_t now_us();
Str show(const Str& s, size_t max = 160);
size_t malloc_usable_size_safe(const void* p);  // requested size of a heap block
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash_str(const Str& s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- library calls
extern __thread int in_lib;
struct Lib { Lib() { ++in_lib; } ~Lib() { --in_lib; } };
struct Out { int s; Out() : s(in_lib) { in_lib = 0; } ~Out() { in_lib = s; } };
#define LIB(...) ({ ::sim::Lib lib_scope_; __VA_ARGS__; })
size_t ledger_live();                   // live allocations made by library code
std::vector<std::pair<uintptr_t, size_t>> ledger_blocks();   // the live allocations themselves
void statics_reset();                   // give the library's static variables their initial values back
void ledger_forgive();                  // forget them (after a simulated process death)

// Run fn as one simulated process life: returns true if it ran to the end, false
// if a crash fault killed it at some point.
bool process_life(const std::function<void()>& fn);
[[noreturn]] void die_now();            // kill the current simulated process
bool in_process_life();

// exit()/abort() of a simulated process (command line world)
struct ExitTrap { bool exited = false; int code = 0; };
int run_main(const std::function<int()>& fn);   // returns exit status; -1 = abort

// ---------------------------------------------------------------- simulated disk
struct Inode {
    Str data;
    bool dir = false;
    bool unreadable = false;
    uint64_t writes = 0;
    std::vector<Str> versions;          // contents held while it was open for reading
};
struct Fs {
    std::map<Str, std::shared_ptr<Inode>> files;
    void reset();
    void put(const Str& path, const Str& data);
    void mkdir(const Str& path);
    bool has(const Str& path) const;
    Str get(const Str& path) const;
    void del(const Str& path);
    size_t open_fds() const;
    void drop_fds();                    // process death: the kernel closes everything
    std::map<Str, Str> snapshot() const;
    bool stdin_open = true;
    std::function<void()> on_stdin_close; // the simulated process has a pipe as its standard input
    bool passthrough_memfd = false;     // hand out real memfds (ELF images)
    std::set<Str> memfd_paths;          // the same for these paths only
    std::set<Str> opened;               // every path opened in this run
    std::set<Str> written;              // every path written/truncated/removed
    std::set<Str> hurt;                 // every path an injected fault hit
    // fault bias: name the next faults in the log
};
extern Fs fs;

// captured standard streams of the simulated process
extern Str cap_out, cap_err;
void streams_capture(bool on);          // replace stdout/stderr by simulated streams
bool streams_lost();                    // a write to simulated stdout failed or was cut

// ---------------------------------------------------------------- step budget
extern uint64_t edge_budget;
uint64_t edges_run();
typedef void (*EdgeHook)(uint32_t id);
typedef void (*MemHook)(const void* addr, int write);
extern EdgeHook edge_hook;
extern MemHook mem_hook;

// ---------------------------------------------------------------- worlds
struct World { const char* name; void (*run)(); };
void register_world(const char* name, void (*run)());
struct Reg { Reg(const char* n, void (*r)()) { register_world(n, r); } };
#define WORLD(name) static void world_##name(); static ::sim::Reg reg_##name(#name, world_##name); static void world_##name()

template <class T> const T& pick(const std::vector<T>& v) { return v[W((uint32_t)v.size())]; }
} // namespace sim
