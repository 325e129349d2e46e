#include <memory>
#include "core.h"
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <time.h>
#include <glib.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "satyr_globals.h"

extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
off_t __real_lseek(int, off_t, int);
int __real_fstat(int, struct stat*);
int __real_fsync(int);
int __real_ftruncate(int, off_t);
void __real_exit(int) __attribute__((noreturn));
}

namespace sim {

const char* fault_names[F_NKINDS] = {
    "open_error", "seek_error", "read_error", "read_EINTR", "read_short",
    "write_error", "write_EINTR", "write_short", "disk_full", "close_error",
    "access_error", "file_grows_during_read", "file_shrinks_during_read", "file_replaced", "file_vanishes",
    "process_crash", "power_loss", "torn_tail", "bit_flip", "block_zeroed", "blocks_swapped", "block_duplicated",
    "block_lost", "bytes_inserted",
    "message_loss", "message_duplication", "message_reorder", "message_delay", "worker_crash", "worker_stall",
    "ptrace_error", "waitpid_error", "waitpid_EINTR", "extra_signal_stop", "unwinder_error", "unwinder_partial",
    "elf_read_error", "rpmdb_error", "rpm_tag_missing", "rpm_iteration_short", "stdout_error", "stdout_short",
    "preemption", "json_reformatted", "json_extra_member", "json_members_reordered", "json_type_changed", "log_noise",
    "file_missing", "file_damaged", "owner_crash", "partition",
    "allocation_failure", "garbage_collection", "reentrant_argument", "wrong_value", "reference_dropped",
};

// ------------------------------------------------------------------ context
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t& x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    void seed(uint64_t a) { s[0] = mix(a); s[1] = mix(a); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
};
struct Tape {
    std::vector<uint32_t> v;
    size_t pos = 0;
    bool replay = false;
    Rng rng;
    uint32_t draw(uint32_t n) {
        if (n <= 1) return 0;
        if (pos > 400000) return 0;
        uint32_t r;
        if (replay) r = pos < v.size() ? v[pos] % n : 0;
        else {
            r = (uint32_t)(rng.next() >> 11) % n;
            v.push_back(r);
        }
        ++pos;
        return r;
    }
};

static Tape tw, tf;
static bool g_clean;
static bool g_verbose;
static std::vector<Str> g_trace;
static uint64_t g_hash, g_evcount;
static FaultPlan g_plan;
static uint64_t g_fault_counts[F_NKINDS];
static uint32_t g_run_fired;
static std::map<Str, uint64_t> g_probes;
static std::unordered_set<uint64_t> g_states;
static uint64_t g_time_us, g_time_total;
static bool g_nontrivial;
static Str g_world, g_mode;
static uint64_t g_seed, g_idx;
static Str g_violfile;
static int g_violpipe = -1;
static Str g_viol_cls, g_viol_msg;
__thread int in_lib;

static std::map<Str, void (*)()>& worlds() { static std::map<Str, void (*)()> m; return m; }
void register_world(const char* n, void (*r)()) { worlds()[n] = r; }

uint32_t W(uint32_t n) { Out o; return tw.draw(n); }
uint32_t F(uint32_t n) { Out o; return tf.draw(n); }
uint64_t W64() {
    switch (W(6)) {
    case 0: return W(10);
    case 1: return W(100000);
    case 2: { uint64_t b = 1ULL << W(64); return b; }
    case 3: { uint64_t b = 1ULL << W(64); return b - 1; }
    case 4: return 0x7f0000000000ULL + (uint64_t)W(0x7fffffff) * 16 + W(16);
    default: { uint64_t a = W(0xffffffffu), b = W(0xffffffffu); return (a << 32) | b; }
    }
}

bool mode_clean() { return g_clean; }
FaultPlan& plan() { return g_plan; }
uint32_t faults_fired() { return g_run_fired; }
void no_faults() { g_plan = FaultPlan(); }
NoFault::NoFault() { saved = g_plan; g_plan = FaultPlan(); }
NoFault::~NoFault() { g_plan = saved; }

void plan_faults(std::initializer_list<FaultKind> kinds, uint32_t span) {
    g_plan = FaultPlan();
    if (g_clean) return;
    // 0 = none so that shrinking removes the faults
    uint32_t m = F(8);
    if (m == 0) return;
    std::vector<FaultKind> ks(kinds);
    uint64_t mask = 0;
    if (F(3) != 0) { // swarm: a random subset, often a single kind
        uint32_t n = 1 + F(3);
        for (uint32_t i = 0; i < n; i++) mask |= 1ULL << ks[F((uint32_t)ks.size())];
    } else
        for (auto k : ks) mask |= 1ULL << k;
    g_plan.mask = mask;
    if (m <= 4) { g_plan.mode = 1; g_plan.nth = F(span); }
    else if (m == 5) { g_plan.mode = 2; g_plan.nth = F(span); g_plan.nth2 = F(span); }
    else { g_plan.mode = 3; static const uint32_t rates[] = {20, 60, 150, 400}; g_plan.rate = rates[F(4)]; }
}
void count_fault(FaultKind k) {
    Out o;
    g_fault_counts[k]++;
    g_run_fired++;
    ev("FAULT %s", fault_names[k]);
}
bool fault(FaultKind k) {
    if (!g_plan.mode || !((g_plan.mask >> k) & 1)) return false;
    Out o;
    uint32_t o_ = g_plan.opp++;
    bool fire = false;
    switch (g_plan.mode) {
    case 1: fire = o_ == g_plan.nth; break;
    case 2: fire = o_ == g_plan.nth || o_ == g_plan.nth2; break;
    case 3: fire = Fp(g_plan.rate); break;
    }
    if (fire) { g_plan.fired++; count_fault(k); }
    return fire;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
void ev(const char* fmt, ...) {
    Out o;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    g_hash = hash_bytes(buf, strlen(buf) + 1, g_hash);
    g_evcount++;
    if (g_verbose && g_trace.size() < 4000) g_trace.push_back(buf);
}
void state(uint64_t h) { Out o; if (g_states.size() < 400000) g_states.insert(h); }
void probe(const char* n) { Out o; g_probes[n]++; }
void nontrivial() { g_nontrivial = true; }
void sim_time(uint64_t us) { g_time_us += us; }
uint64_t now_us() { return g_time_us; }
size_t malloc_usable_size_safe(const void* p) { return __sanitizer_get_allocated_size(p); }
Str show(const Str& s, size_t max) {
    Out o;
    Str r;
    for (size_t i = 0; i < s.size(); i++) {
        if (r.size() > max) { r += "..."; break; }
        unsigned char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// ------------------------------------------------------------------ verdict record
static Str jesc(const Str& s) {
    Str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static Str jtape(const Tape& t) {
    Str r = "[";
    size_t n = std::min(t.pos, t.v.size());
    for (size_t i = 0; i < n; i++) { if (i) r += ','; r += std::to_string(t.v[i]); }
    return r + "]";
}
static void write_all(int fd, const Str& s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = __real_write(fd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += n;
    }
}
static void write_file(const Str& path, const Str& s) {
    int fd = __real_open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    write_all(fd, s);
    __real_close(fd);
}
static Str record_json() {
    Str r = "{";
    r += "\"world\":" + jesc(g_world) + ",\"mode\":" + jesc(g_mode);
    r += ",\"seed\":" + std::to_string(g_seed) + ",\"idx\":" + std::to_string(g_idx);
    r += ",\"class\":" + jesc(g_viol_cls) + ",\"message\":" + jesc(g_viol_msg);
    char hb[32];
    snprintf(hb, sizeof hb, "%016llx", (unsigned long long)g_hash);
    r += ",\"hash\":\"" + Str(hb) + "\",\"events\":" + std::to_string(g_evcount);
    r += ",\"faults_fired\":" + std::to_string(g_run_fired);
    r += ",\"sim_us\":" + std::to_string(g_time_us);
    r += ",\"edges\":" + std::to_string(edges_run());
    r += ",\"tape_w\":" + jtape(tw) + ",\"tape_f\":" + jtape(tf);
    if (g_verbose) {
        r += ",\"trace\":[";
        for (size_t i = 0; i < g_trace.size(); i++) { if (i) r += ','; r += jesc(g_trace[i]); }
        r += "]";
    }
    return r + "}";
}
static bool g_reporting;
[[noreturn]] static void finish_violation() {
    in_lib = 0;
    if (!g_violfile.empty()) write_file(g_violfile, record_json() + "\n");
    if (g_violpipe >= 0) write_all(g_violpipe, g_viol_cls + "\n");
    _exit(3);
}
// A leak seen inside a run counts only when the same run leaks again in this process: what is
// allocated once (a cache, the first use of a library facility) is no leak.
static sigjmp_buf g_again;
static volatile int g_passes_left;
static pthread_t g_main_thread;
void violation(const Str& cls, const char* fmt, ...) {
    in_lib = 0;
    if (!cls.compare(0, 5, "leak:") && g_passes_left > 0 && pthread_equal(pthread_self(), g_main_thread)) {
        g_passes_left = g_passes_left - 1;
        siglongjmp(g_again, 1);
    }
    g_reporting = true;
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    ev("VIOLATION %s", cls.c_str());
    g_viol_cls = cls;
    g_viol_msg = buf;
    if (g_verbose) g_trace.push_back(Str("violation: ") + buf);
    finish_violation();
}
static Str frame_func(const char* line) {
    const char* in = strstr(line, " in ");
    if (!in) return "";
    in += 4;
    const char* e = in;
    while (*e && *e != ' ' && *e != '\n' && *e != '(') e++;
    return Str(in, e - in);
}
static void asan_cb(const char* report) {
    if (g_reporting) return;
    g_reporting = true;
    in_lib = 0;
    Str rep(report);
    Str kind = "unknown";
    size_t p = rep.find("ERROR: AddressSanitizer: ");
    if (p != Str::npos) {
        size_t b = p + strlen("ERROR: AddressSanitizer: ");
        size_t e = rep.find_first_of(" \n:", b);
        kind = rep.substr(b, e - b);
        if (kind == "attempting") kind = rep.substr(b, rep.find_first_of("\n", b) - b).find("double") != Str::npos ? "double-free" : "bad-free";
    }
    Str func;
    size_t pos = 0;
    Str first;
    while (pos < rep.size()) {
        size_t e = rep.find('\n', pos);
        if (e == Str::npos) e = rep.size();
        Str line = rep.substr(pos, e - pos);
        pos = e + 1;
        size_t h = line.find_first_not_of(' ');
        if (h == Str::npos) { if (!first.empty()) break; continue; }
        if (line[h] != '#') continue;
        Str f = frame_func(line.c_str());
        if (first.empty()) first = f.empty() ? "?" : f;
        if (line.find("/src/lib/") != Str::npos || line.find("/src/satyr.c") != Str::npos || line.find("/src/python/") != Str::npos) { func = f; break; }
    }
    if (func.empty()) func = first;
    g_viol_cls = "memory:" + kind + ":" + func;
    g_viol_msg = rep.substr(0, 3500);
    g_hash = hash_bytes(g_viol_cls.data(), g_viol_cls.size(), g_hash);
    finish_violation();
}
static void death_cb() {
    if (g_reporting) return;
    g_reporting = true;
    in_lib = 0;
    g_viol_cls = "undefined:death";
    g_viol_msg = "the sanitizer runtime ended the process";
    finish_violation();
}
static void sig_handler(int sig) {
    if (g_reporting) _exit(4);
    g_reporting = true;
    g_viol_cls = sig == SIGALRM ? "hang" : "signal:" + std::to_string(sig);
    g_viol_msg = sig == SIGALRM ? "run did not finish within the wall-clock guard" : "process died from a signal";
    finish_violation();
}

// ------------------------------------------------------------------ ledger
// live allocations made while library code runs: open addressing, own memory
static const size_t LCAP = 1 << 16;
static uintptr_t* l_ptr;
static size_t l_live, l_tomb;
static bool l_on, l_full;
static size_t lhash(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ULL >> 48; }
static __thread bool l_busy;
static void hook_malloc(const volatile void* p, size_t) {
    if (!l_on || !in_lib || !p || l_busy) return;
    uintptr_t v = (uintptr_t)p;
    if (l_live + l_tomb > LCAP / 2) {
        if (l_live > LCAP / 4) { l_full = true; return; }
        static uintptr_t keep[LCAP / 4 + 1];            // drop the tombstones
        size_t n = 0;
        for (size_t k = 0; k < LCAP; k++) if (l_ptr[k] > 1) keep[n++] = l_ptr[k];
        memset(l_ptr, 0, LCAP * sizeof(*l_ptr));
        for (size_t k = 0; k < n; k++) { size_t h = lhash(keep[k]) & (LCAP - 1); while (l_ptr[h]) h = (h + 1) & (LCAP - 1); l_ptr[h] = keep[k]; }
        l_tomb = 0;
    }
    size_t i = lhash(v) & (LCAP - 1);
    while (l_ptr[i] > 1) { if (l_ptr[i] == v) return; i = (i + 1) & (LCAP - 1); }
    if (l_ptr[i] == 1) --l_tomb;
    l_ptr[i] = v;
    ++l_live;
}
static void hook_free(const volatile void* p) {
    if (!l_on || !p || !l_live) return;
    uintptr_t v = (uintptr_t)p;
    size_t i = lhash(v) & (LCAP - 1);
    while (l_ptr[i]) {
        if (l_ptr[i] == v) { l_ptr[i] = 1; ++l_tomb; --l_live; return; }
        i = (i + 1) & (LCAP - 1);
    }
}
// Blocks that the library's static variables lead to are caches, not leaks.
extern "C" { extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)); }
static Str st_data, st_bss;
static uint32_t st_resets;
static std::vector<uintptr_t> reachable_from_statics() __attribute__((no_sanitize("address")));
static bool l_has(uintptr_t v) {
    size_t i = lhash(v) & (LCAP - 1);
    while (l_ptr[i]) { if (l_ptr[i] == v) return true; i = (i + 1) & (LCAP - 1); }
    return false;
}
static std::vector<uintptr_t> reachable_from_statics() {
    std::vector<uintptr_t> todo;
    if (!l_live) return todo;
    std::set<uintptr_t> seen;
    auto scan = [&](const char* a, const char* b) __attribute__((no_sanitize("address"))) {
        for (a = (const char*)(((uintptr_t)a + 7) & ~7UL); a + 8 <= b; a += 8) {
            uintptr_t v = *(const uintptr_t*)a;
            if (v > 4096 && l_has(v) && seen.insert(v).second) todo.push_back(v);
        }
    };
    scan(__start_libdata, __stop_libdata);
    scan(__start_libbss, __stop_libbss);
    for (size_t i = 0; i < todo.size(); i++) scan((const char*)todo[i], (const char*)todo[i] + malloc_usable_size_safe((void*)todo[i]));
    return todo;
}
size_t ledger_live() {
    Out o;
    return l_live ? l_live - reachable_from_statics().size() : 0;
}
__attribute__((no_sanitize("address"))) void statics_snapshot() {
    for (volatile char* p = __start_libdata; p < __stop_libdata; p++) st_data.push_back(*p);
    for (volatile char* p = __start_libbss; p < __stop_libbss; p++) st_bss.push_back(*p);
}
// A fresh process: the library's variables get their initial values back.
__attribute__((no_sanitize("address"))) void statics_reset() {
    Out o;
    auto copy = [&](char* a, const Str& s) __attribute__((no_sanitize("address"))) {
        bool diff = false;
        const uintptr_t *w = (const uintptr_t*)s.data(); volatile uintptr_t* x = (volatile uintptr_t*)a;
        for (size_t i = 0; i < s.size() / 8; i++) if (x[i] != w[i] && (x[i] >> 32) != 0xffffffff) { diff = true; x[i] = w[i]; }   // (a GPrivate's key cannot be given back)
        for (size_t i = s.size() & ~7UL; i < s.size(); i++) if (a[i] != s[i]) { diff = true; a[i] = s[i]; }
        return diff;
    };
    if (st_resets > 600) return;              // every fresh start leaks what the variables held
    for (auto v : reachable_from_statics()) hook_free((void*)v);
    bool d = copy(__start_libdata, st_data);
    d |= copy(__start_libbss, st_bss);
    if (d) st_resets++;
}
std::vector<std::pair<uintptr_t, size_t>> ledger_blocks() {
    Out o;
    std::vector<std::pair<uintptr_t, size_t>> v;
    for (size_t i = 0; i < LCAP; i++) if (l_ptr[i] > 1) v.push_back({l_ptr[i], malloc_usable_size_safe((void*)l_ptr[i])});
    return v;
}
void ledger_forgive() {
    if (l_live || l_tomb || l_full) memset(l_ptr, 0, LCAP * sizeof(*l_ptr));
    l_live = l_tomb = 0;
    l_full = false;
}
static Str leak_class(Str* msg) {
    std::vector<std::pair<Str, size_t>> sites;
    size_t total = 0;
    for (size_t i = 0; i < LCAP; i++) {
        if (l_ptr[i] <= 1) continue;
        total++;
        if (sites.size() >= 40) continue;
        void* st[24];
        int tid;
        size_t n = __asan_get_alloc_stack((void*)l_ptr[i], st, 24, &tid);
        Str fn;
        for (size_t k = 0; k < n; k++) {
            char buf[512];
            __sanitizer_symbolize_pc(st[k], "%f %s", buf, sizeof buf);
            if (strstr(buf, "/src/lib/") || strstr(buf, "/src/satyr.c") || strstr(buf, "/src/python/")) {
                char* sp = strchr(buf, ' ');
                if (sp) *sp = 0;
                fn = buf;
                break;
            }
        }
        if (fn.empty()) fn = "?";
        bool found = false;
        for (auto& s : sites) if (s.first == fn) { s.second++; found = true; }
        if (!found) sites.push_back({fn, 1});
    }
    std::sort(sites.begin(), sites.end());
    *msg = std::to_string(total) + " allocation(s) still live:";
    for (auto& s : sites) *msg += " " + s.first + "x" + std::to_string(s.second);
    return "leak:" + (sites.empty() ? Str("?") : sites[0].first);
}

// ------------------------------------------------------------------ process life
static sigjmp_buf life_env;
static bool life_armed;
bool in_process_life() { return life_armed; }
bool process_life(const std::function<void()>& fn) {
    life_armed = true;
    int saved = in_lib;
    if (sigsetjmp(life_env, 0) == 0) {
        fn();
        life_armed = false;
        return true;
    }
    life_armed = false;
    in_lib = saved;
    fs.drop_fds();
    statics_reset();
    reset_library_globals();
    ledger_forgive();
    return false;
}
void die_now() {
    if (!life_armed) violation("harness:crash-outside-life", "crash fault outside a process life");
    siglongjmp(life_env, 1);
}
static sigjmp_buf exit_env;
static bool exit_armed;
static int exit_code;
static std::vector<void (*)(void)> exit_handlers;
int run_main(const std::function<int()>& fn) {
    exit_armed = true;
    int saved = in_lib;
    int rc;
    { Out o; exit_handlers.clear(); }
    if (sigsetjmp(exit_env, 0) == 0) rc = fn();
    else rc = exit_code;
    // what the C library does at the end of a process
    volatile int code = rc;
    if (sigsetjmp(exit_env, 0) == 0) {
        while (!exit_handlers.empty()) { auto h = exit_handlers.back(); exit_handlers.pop_back(); h(); }
        in_lib = saved;
        fflush(stdout);
    } else code = exit_code;            // _exit() in a handler
    rc = code & 0xff;
    exit_armed = false;
    in_lib = saved;
    return rc;
}

// ------------------------------------------------------------------ disk
Fs fs;
struct Fd { std::shared_ptr<Inode> ino; off_t off; int flags; Str path; };
static std::map<int, Fd>& fdt() { static std::map<int, Fd> m; return m; }
static std::set<int>& memfds() { static std::set<int> s; return s; }
static bool fs_active;
static const int FD0 = 5000;

void Fs::reset() { Out o; files.clear(); drop_fds(); opened.clear(); written.clear(); hurt.clear(); passthrough_memfd = false; memfd_paths.clear(); stdin_open = true; on_stdin_close = nullptr; }
void Fs::put(const Str& p, const Str& d) { Out o; auto i = std::make_shared<Inode>(); i->data = d; files[p] = i; }
void Fs::mkdir(const Str& p) { Out o; auto i = std::make_shared<Inode>(); i->dir = true; files[p] = i; }
bool Fs::has(const Str& p) const { return files.count(p) != 0; }
Str Fs::get(const Str& p) const { auto i = files.find(p); return i == files.end() ? Str() : i->second->data; }
void Fs::del(const Str& p) { Out o; files.erase(p); }
size_t Fs::open_fds() const { return fdt().size() + memfds().size(); }
void Fs::drop_fds() { Out o; fdt().clear(); for (int f : memfds()) __real_close(f); memfds().clear(); }
std::map<Str, Str> Fs::snapshot() const {
    std::map<Str, Str> r;
    for (auto& f : files) r[f.first] = f.second->dir ? "<dir>" : f.second->data;
    return r;
}
static Str norm(const char* p) {
    Str s(p), r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '/' && !r.empty() && r.back() == '/') continue;
        r += s[i];
    }
    return r;
}
static void crash_point(const char* where) {
    if (life_armed && fault(F_CRASH)) { ev("crash at %s", where); die_now(); }
}

static int fs_open(const char* path, int flags) {
    Str p = norm(path);
    sim_time(50);
    crash_point("open");
    fs.opened.insert(p);
    if (fault(F_OPEN_ERR)) {
        static const int e[] = {EACCES, EMFILE, EIO, ENOMEM};
        errno = e[F(4)];
        fs.hurt.insert(p);
        ev("open %s -> errno %d", p.c_str(), errno);
        return -1;
    }
    auto it = fs.files.find(p);
    if (it != fs.files.end() && fault(F_FILE_VANISHES)) {
        fs.files.erase(it);
        fs.hurt.insert(p);
        it = fs.files.end();
    }
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (it == fs.files.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; ev("open %s -> ENOENT", p.c_str()); return -1; }
        if (fault(F_DISK_FULL)) { fs.hurt.insert(p); errno = ENOSPC; return -1; }
        fs.files[p] = std::make_shared<Inode>();
        fs.written.insert(p);
        it = fs.files.find(p);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (it->second->dir && wr) { errno = EISDIR; return -1; }
    if (it->second->unreadable) { errno = EACCES; return -1; }
    if (wr && (flags & O_TRUNC)) { it->second->data.clear(); it->second->writes++; fs.written.insert(p); }
    int fd = FD0;
    if (!wr && (fs.passthrough_memfd || fs.memfd_paths.count(p))) {
        fd = (int)syscall(SYS_memfd_create, "sim", 0);
        if (fd < 0) violation("harness:memfd", "memfd_create failed");
        const Str& d = it->second->data;
        size_t o = 0;
        while (o < d.size()) { ssize_t n = __real_write(fd, d.data() + o, d.size() - o); if (n <= 0) break; o += n; }
        __real_lseek(fd, 0, SEEK_SET);
        memfds().insert(fd);
        ev("open %s -> ok (%zu bytes)", p.c_str(), d.size());
        return fd;
    }
    while (fdt().count(fd)) fd++;
    it->second->versions.clear();
    it->second->versions.push_back(it->second->data);
    fdt()[fd] = Fd{it->second, (flags & O_APPEND) ? (off_t)it->second->data.size() : 0, flags, p};
    ev("open %s flags %d -> fd %d", p.c_str(), flags & (O_ACCMODE | O_TRUNC | O_CREAT), fd);
    if (wr) crash_point("after open");
    return fd;
}
static void concurrent_change(Fd& f) {
    if ((f.flags & O_ACCMODE) != O_RDONLY || f.ino->dir) return;
    if (fault(F_FILE_GROWS)) {
        Str extra;
        uint32_t n = 1 + F(64);
        for (uint32_t i = 0; i < n; i++) extra += (char)('A' + F(26));
        f.ino->data += extra;
        f.ino->versions.push_back(f.ino->data);
        ev("file grows by %u", n);
    }
    if (fault(F_FILE_SHRINKS)) {
        f.ino->data.resize(F((uint32_t)f.ino->data.size() + 1));
        f.ino->versions.push_back(f.ino->data);
        ev("file shrinks to %zu", f.ino->data.size());
    }
    if (fault(F_FILE_REPLACED)) {
        auto n = std::make_shared<Inode>();
        n->data = "replacement";
        fs.files[f.path] = n;
        ev("file replaced by rename");
    }
}
static ssize_t fs_read(int fd, void* buf, size_t n, off_t* at) {
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; ev("read bad fd"); return -1; }
    Fd& f = it->second;
    sim_time(20 + n / 1000);
    concurrent_change(f);
    if (f.ino->dir) { errno = EISDIR; return -1; }
    if (fault(F_READ_ERR)) { fs.hurt.insert(f.path); errno = EIO; return -1; }
    if (fault(F_READ_EINTR)) { fs.hurt.insert(f.path); errno = EINTR; return -1; }
    off_t off = at ? *at : f.off;
    size_t avail = (size_t)off < f.ino->data.size() ? f.ino->data.size() - off : 0;
    size_t m = std::min(n, avail);
    if (m > 1 && fault(F_READ_SHORT)) { m = 1 + F((uint32_t)m - 1); fs.hurt.insert(f.path); }
    memcpy(buf, f.ino->data.data() + off, m);
    if (!at) f.off += m;
    ev("read fd %d %zu -> %zu", fd, n, m);
    return (ssize_t)m;
}
static ssize_t fs_write(int fd, const void* buf, size_t n, off_t* at) {
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; ev("write bad fd"); return -1; }
    Fd& f = it->second;
    sim_time(20 + n / 500);
    if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (fault(F_WRITE_ERR)) { fs.hurt.insert(f.path); errno = EIO; return -1; }
    if (fault(F_WRITE_EINTR)) { fs.hurt.insert(f.path); errno = EINTR; return -1; }
    size_t m = n;
    int after = 0;
    if (fault(F_DISK_FULL)) {
        fs.hurt.insert(f.path);
        m = F((uint32_t)n + 1);
        if (m == 0) { errno = ENOSPC; return -1; }
        if (m == n) m = n - 1;
        if (m == 0) { errno = ENOSPC; return -1; }
    } else if (n > 1 && fault(F_WRITE_SHORT)) m = 1 + F((uint32_t)n - 1);
    if (life_armed && fault(F_CRASH)) { m = F((uint32_t)n + 1); after = 1; }
    if (f.flags & O_APPEND) f.off = f.ino->data.size();
    off_t off = at ? *at : f.off;
    if (f.ino->data.size() < (size_t)off + m) f.ino->data.resize(off + m, '\0');
    memcpy(&f.ino->data[0] + off, buf, m);
    f.ino->writes++;
    fs.written.insert(f.path);
    if (!at) f.off += m;
    ev("write fd %d %zu -> %zu%s", fd, n, m, after ? " then crash" : "");
    if (after) die_now();
    return (ssize_t)m;
}
static off_t fs_lseek(int fd, off_t off, int whence) {
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; return -1; }
    Fd& f = it->second;
    concurrent_change(f);
    if (fault(F_SEEK_ERR)) { fs.hurt.insert(f.path); errno = F(2) ? EOVERFLOW : ESPIPE; ev("lseek -> error"); return -1; }
    off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f.off : (off_t)(f.ino->dir ? 4096 : f.ino->data.size());
    if (base + off < 0) { errno = EINVAL; return -1; }
    f.off = base + off;
    ev("lseek fd %d %d -> %lld", fd, whence, (long long)f.off);
    return f.off;
}
static int fs_close(int fd) {
    auto it = fdt().find(fd);
    if (it == fdt().end()) {
        if (memfds().count(fd)) { memfds().erase(fd); ev("close mem"); return __real_close(fd); }
        violation("fd:close-of-unowned", "close(%d) of a descriptor that is not open", fd);
    }
    bool wr = (it->second.flags & O_ACCMODE) != O_RDONLY;
    if (wr) crash_point("before close");
    ev("close fd %d", fd);
    Str closed = it->second.path;
    fdt().erase(fd);
    if (fault(F_CLOSE_ERR)) { fs.hurt.insert(closed); static const int e[] = {EIO, ENOSPC, EINTR}; errno = e[F(3)]; return -1; }
    if (wr) crash_point("after close");
    return 0;
}
static void fill_stat(struct stat* st, const Inode& i) {
    memset(st, 0, sizeof *st);
    st->st_mode = i.dir ? (S_IFDIR | 0755) : (S_IFREG | 0640);
    st->st_size = i.dir ? 4096 : i.data.size();
    st->st_nlink = 1;
    st->st_blksize = 4096;
}
static int fs_stat(const char* path, struct stat* st) {
    Str p = norm(path);
    if (fault(F_ACCESS_ERR)) { fs.hurt.insert(p); errno = EACCES; return -1; }
    auto it = fs.files.find(p);
    if (it == fs.files.end()) { errno = ENOENT; return -1; }
    fill_stat(st, *it->second);
    return 0;
}
static int fs_access(const char* path, int) {
    Str p = norm(path);
    sim_time(10);
    if (fault(F_ACCESS_ERR)) { fs.hurt.insert(p); errno = EACCES; ev("access %s -> EACCES", p.c_str()); return -1; }
    if (!fs.files.count(p)) { errno = ENOENT; ev("access %s -> ENOENT", p.c_str()); return -1; }
    ev("access %s -> ok", p.c_str());
    return 0;
}

// simulated standard streams
Str cap_out, cap_err;
static FILE *real_out, *real_err, *sim_out, *sim_err;
static bool lost;
bool streams_lost() { return lost; }
static bool stream_is_sim(FILE* f) { return f && (f == sim_out || f == sim_err); }
static ssize_t out_write(void* c, const char* b, size_t n) {
    Out o;
    if (c) { cap_err.append(b, n); return n; }
    if (fault(F_STDOUT_ERR)) { static const int e[] = {EPIPE, ENOSPC, EIO}; errno = e[F(3)]; lost = true; ev("stdout write %zu -> error", n); return 0; }
    if (n > 1 && fault(F_STDOUT_SHORT)) {   // stdio writes the rest with another call
        size_t m = 1 + F((uint32_t)n - 1);
        cap_out.append(b, m);
        ev("stdout write %zu -> %zu", n, m);
        ssize_t r = out_write(c, b + m, n - m);
        return r ? m + r : m;
    }
    cap_out.append(b, n);
    ev("stdout write %zu", n);
    return n;
}
void streams_capture(bool on) {
    Out o;
    if (on) {
        cap_out.clear();
        cap_err.clear();
        lost = false;
        if (!real_out) { real_out = stdout; real_err = stderr; }
        cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
        sim_out = fopencookie(nullptr, "w", io);
        sim_err = fopencookie((void*)1, "w", io);
        setvbuf(sim_err, nullptr, _IONBF, 0);
        stdout = sim_out;
        stderr = sim_err;
    } else {
        stdout = real_out;
        stderr = real_err;
        fclose(sim_out);
        fclose(sim_err);
        sim_out = sim_err = nullptr;
    }
}

// ------------------------------------------------------------------ steps
uint64_t edge_budget = 60000000;
static uint64_t g_edges;
static uint32_t g_nguards;
static std::vector<uint8_t>& covmap() { static std::vector<uint8_t> v(1 << 16); return v; }
static uint8_t g_cov[1 << 16];
EdgeHook edge_hook;
MemHook mem_hook;
uint64_t edges_run() { return g_edges; }
} // namespace sim
using namespace sim;

extern "C" {
// undefined behaviour found by the UBSan checks compiled into the library
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
__attribute__((used, visibility("default"))) void __ubsan_on_report(void) {
    if (g_reporting) return;
    const char *kind = "?", *msg = "?", *file = "?";
    unsigned line = 0, col = 0;
    char* addr = nullptr;
    __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
    const char* b = strrchr(file, '/');
    in_lib = 0;




    violation(Str("undefined:") + kind + ":" + (b ? b + 1 : file), "%s (%s:%u:%u)", msg, b ? b + 1 : file, line, col);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (uint32_t* x = a; x < b; x++) *x = ++g_nguards;
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!in_lib) return;
    g_cov[*g & 0xffff] = 1;
    if (++g_edges > edge_budget)
        violation("nontermination", "more than %llu basic blocks executed in one run", (unsigned long long)edge_budget);
    if (edge_hook) edge_hook(*g);
}
#define MEMCB(n, w) void __sanitizer_cov_##n(void* p) { if (mem_hook && in_lib) mem_hook(p, w); }
MEMCB(load1, 0) MEMCB(load2, 0) MEMCB(load4, 0) MEMCB(load8, 0) MEMCB(load16, 0)
MEMCB(store1, 1) MEMCB(store2, 1) MEMCB(store4, 1) MEMCB(store8, 1) MEMCB(store16, 1)

// ------------------------------------------------------------------ seams
static int do_open(const char* p, int flags, int mode) {
    if (!fs_active) return __real_open(p, flags, mode);
    Out o;
    return fs_open(p, flags);
}
#define OPENMODE int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int __wrap_open(const char* p, int flags, ...) { OPENMODE return do_open(p, flags, mode); }
int __wrap_open64(const char* p, int flags, ...) { OPENMODE return do_open(p, flags, mode); }
int __wrap_openat(int, const char* p, int flags, ...) { OPENMODE return do_open(p, flags, mode); }
int __wrap_creat(const char* p, mode_t mode) { return do_open(p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int __wrap_close(int fd) {
    if (fs_active && in_lib && fd == 0 && fs.on_stdin_close) {
        Out o;
        if (!fs.stdin_open) { errno = EBADF; ev("close stdin -> EBADF"); return -1; }
        fs.stdin_open = false;
        fs.on_stdin_close();
        if (fault(F_CLOSE_ERR)) { errno = EIO; ev("close stdin -> EIO"); return -1; }
        ev("close stdin");
        return 0;
    }
    if (!fs_active || (fd < FD0 && !memfds().count(fd) && !in_lib)) return __real_close(fd);
    Out o;
    return fs_close(fd);
}
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!fs_active || fd < FD0) return __real_read(fd, b, n); Out o; return fs_read(fd, b, n, nullptr); }
ssize_t __wrap___read_chk(int fd, void* b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t at) { if (!fs_active || fd < FD0) return __real_pread(fd, b, n, at); Out o; return fs_read(fd, b, n, &at); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t at) { return __wrap_pread(fd, b, n, at); }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (fs_active && in_lib && (fd == 1 || fd == 2) && sim_out) { Out o; ssize_t r = out_write(fd == 1 ? nullptr : (void*)1, (const char*)b, n); return r == 0 && n ? -1 : r; }
    if (!fs_active || fd < FD0) return __real_write(fd, b, n);
    Out o; return fs_write(fd, b, n, nullptr);
}
ssize_t __real_readv(int, const struct iovec*, int); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { if (!fs_active || fd < FD0) return __real_readv(fd, v, n); for (int i = 0; i < n; i++) if (v[i].iov_len) return __wrap_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (!fs_active || (fd < FD0 && !(in_lib && sim_out && (fd == 1 || fd == 2)))) return __real_writev(fd, v, n); for (int i = 0; i < n; i++) if (v[i].iov_len) return __wrap_write(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t at) { if (!fs_active || fd < FD0) return __real_pwrite(fd, b, n, at); Out o; return fs_write(fd, b, n, &at); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t at) { if (!fs_active || fd < FD0) return __real_pwrite(fd, b, n, at); Out o; return fs_write(fd, b, n, &at); }
off_t __wrap_lseek(int fd, off_t o_, int w) { if (!fs_active || fd < FD0) return __real_lseek(fd, o_, w); Out o; return fs_lseek(fd, o_, w); }
off_t __wrap_lseek64(int fd, off_t o_, int w) { return __wrap_lseek(fd, o_, w); }
int __wrap_fstat(int fd, struct stat* st) {
    if (!fs_active || fd < FD0) return __real_fstat(fd, st);
    Out o;
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; return -1; }
    if (fault(F_SEEK_ERR)) { fs.hurt.insert(it->second.path); errno = EOVERFLOW; ev("fstat -> error"); return -1; }
    fill_stat(st, *it->second.ino);
    concurrent_change(it->second);
    return 0;
}
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t at) {
    if (!fs_active || fd < FD0) return __real_mmap(a, n, prot, flags, fd, at);
    Out o;
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; return MAP_FAILED; }
    if (it->second.ino->dir || (prot & PROT_WRITE && flags & MAP_SHARED)) { errno = ENODEV; return MAP_FAILED; }
    if (fault(F_READ_ERR)) { fs.hurt.insert(it->second.path); errno = ENOMEM; ev("mmap -> error"); return MAP_FAILED; }
    void* r = __real_mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (r != MAP_FAILED && (size_t)at < it->second.ino->data.size()) memcpy(r, it->second.ino->data.data() + at, std::min(n, it->second.ino->data.size() - (size_t)at));
    ev("mmap fd %d %zu", fd, n);
    return r;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t at) { return __wrap_mmap(a, n, prot, flags, fd, at); }
int __wrap_fstat64(int fd, struct stat* st) { return __wrap_fstat(fd, st); }
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* st) { if (!fs_active) return __real_stat(p, st); Out o; return fs_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { return __wrap_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return __wrap_stat(p, st); }
int __real_access(const char*, int);
int __wrap_access(const char* p, int m) { if (!fs_active) return __real_access(p, m); Out o; return fs_access(p, m); }
int __wrap_faccessat(int, const char* p, int m, int) { return __wrap_access(p, m); }
int __wrap_fsync(int fd) { if (!fs_active || fd < FD0) return __real_fsync(fd); Out o; crash_point("fsync"); if (fault(F_WRITE_ERR)) { if (fdt().count(fd)) fs.hurt.insert(fdt().at(fd).path); errno = EIO; ev("fsync -> EIO"); return -1; } return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
    if (!fs_active || fd < FD0) return __real_ftruncate(fd, n);
    Out o;
    auto it = fdt().find(fd);
    if (it == fdt().end()) { errno = EBADF; return -1; }
    it->second.ino->data.resize(n);
    fs.written.insert(it->second.path);
    return 0;
}
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) {
    if (!fs_active) return __real_rename(a, b);
    Out o;
    crash_point("rename");
    auto it = fs.files.find(norm(a));
    if (it == fs.files.end()) { errno = ENOENT; return -1; }
    if (fault(F_WRITE_ERR)) { errno = EIO; return -1; }
    fs.files[norm(b)] = it->second;
    fs.files.erase(norm(a));
    fs.written.insert(norm(b));
    crash_point("after rename");
    return 0;
}
int __real_unlink(const char*);
int __wrap_unlink(const char* a) {
    if (!fs_active) return __real_unlink(a);
    Out o;
    crash_point("unlink");
    if (!fs.files.erase(norm(a))) { errno = ENOENT; return -1; }
    fs.written.insert(norm(a));
    return 0;
}
int __wrap_remove(const char* a) { return __wrap_unlink(a); }
int __wrap_mkstemp(char* t) {
    Out o;
    size_t l = strlen(t);
    for (int i = 0; i < 1000; i++) {
        char b[8];
        snprintf(b, sizeof b, "%06d", i);
        memcpy(t + l - 6, b, 6);
        if (!fs.files.count(norm(t))) return fs_open(t, O_RDWR | O_CREAT | O_EXCL);
    }
    errno = EEXIST;
    return -1;
}
int __wrap_mkstemp64(char* t) { return __wrap_mkstemp(t); }
int __wrap_mkostemp(char* t, int) { return __wrap_mkstemp(t); }
int __wrap_fchmod(int, mode_t) { return 0; }
int __wrap_chmod(const char*, mode_t) { return 0; }
char* __real_realpath(const char*, char*);
char* __wrap_realpath(const char* p, char* buf) {
    if (!fs_active) return __real_realpath(p, buf);
    Str n;
    { Out o; n = norm(p); if (fault(F_ACCESS_ERR) || !fs.files.count(n)) { errno = ENOENT; ev("realpath %s -> ENOENT", n.c_str()); return nullptr; } }
    if (buf) { strcpy(buf, n.c_str()); return buf; }
    return strdup(n.c_str());
}
// stdio on simulated files
static ssize_t ck_read(void* c, char* b, size_t n) { Out o; return fs_read((int)(intptr_t)c, b, n, nullptr); }
static ssize_t ck_write(void* c, const char* b, size_t n) { Out o; ssize_t r = fs_write((int)(intptr_t)c, b, n, nullptr); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* off, int w) { Out o; off_t r = fs_lseek((int)(intptr_t)c, *off, w); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void* c) { Out o; return fs_close((int)(intptr_t)c); }
static FILE* ck_open(int fd, const char* mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie((void*)(intptr_t)fd, mode, io);
}
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* mode) {
    if (!fs_active) return __real_fopen(p, mode);
    int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if (strchr(mode, '+')) flags = (flags & ~O_ACCMODE) | O_RDWR;
    int fd;
    { Out o; fd = fs_open(p, flags); }
    return fd < 0 ? nullptr : ck_open(fd, mode);
}
FILE* __wrap_fopen64(const char* p, const char* mode) { return __wrap_fopen(p, mode); }
FILE* __real_fdopen(int, const char*);
FILE* __wrap_fdopen(int fd, const char* mode) { if (!fs_active || fd < FD0) return __real_fdopen(fd, mode); return ck_open(fd, mode); }
gboolean __wrap_g_file_get_contents(const gchar* name, gchar** contents, gsize* length, GError** error) {
    int fd;
    { Out o; fd = fs_open(name, O_RDONLY); }
    if (fd < 0) {
        int e = errno;
        g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(e), "Failed to open file “%s”: %s", name, strerror(e));
        return FALSE;
    }
    GString* s = g_string_new(nullptr);
    char buf[4096];
    ssize_t n;
    while (true) {
        { Out o; n = fs_read(fd, buf, sizeof buf, nullptr); }
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        g_string_append_len(s, buf, n);
    }
    int e = errno;
    { Out o; fs_close(fd); }
    if (n < 0) {
        g_string_free(s, TRUE);
        g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(e), "Failed to read: %s", strerror(e));
        return FALSE;
    }
    if (length) *length = s->len;
    *contents = g_string_free(s, FALSE);
    return TRUE;
}
gboolean __wrap_g_file_set_contents(const gchar* name, const gchar* contents, gssize length, GError** error) {
    size_t n = length < 0 ? strlen(contents) : (size_t)length;
    Str tmp = Str(name) + ".tmp";
    int fd;
    { Out o; fd = fs_open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC); }
    bool ok = fd >= 0;
    size_t off = 0;
    while (ok && off < n) {
        ssize_t w;
        { Out o; w = fs_write(fd, contents + off, n - off, nullptr); }
        if (w < 0 && errno == EINTR) continue;
        if (w <= 0) { ok = false; break; }
        off += w;
    }
    if (fd >= 0) { Out o; if (fs_close(fd) < 0) ok = false; }
    if (ok) ok = __wrap_rename(tmp.c_str(), name) == 0;
    if (!ok) { g_set_error(error, G_FILE_ERROR, G_FILE_ERROR_IO, "write failed"); return FALSE; }
    return TRUE;
}
gboolean __wrap_g_file_test(const gchar* name, GFileTest t) {
    Out o;
    if (fs_access(name, 0) != 0) return FALSE;
    auto it = fs.files.find(norm(name));
    if (t & G_FILE_TEST_EXISTS) return TRUE;
    if ((t & G_FILE_TEST_IS_DIR) && it->second->dir) return TRUE;
    if ((t & G_FILE_TEST_IS_REGULAR) && !it->second->dir) return TRUE;
    return FALSE;
}
void __wrap_exit(int code) {
    if (exit_armed) { exit_code = code; siglongjmp(exit_env, 1); }
    __real_exit(code);
}
void __wrap__exit(int code) { if (exit_armed) { exit_code = code; siglongjmp(exit_env, 1); } syscall(SYS_exit_group, code); __builtin_unreachable(); }
int __real_atexit(void (*)(void));
int __wrap_atexit(void (*f)(void)) {
    if (!exit_armed) return __real_atexit(f);
    Out o;
    exit_handlers.push_back(f);
    return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
    if (!in_lib) return __real_time(t);
    time_t v = 1700000000 + (time_t)(now_us() / 1000000);
    if (t) *t = v;
    return v;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
    if (in_lib && exit_armed && stream_is_sim(f)) {         // the stream itself is kept for the simulator
        bool bad = ferror(f) != 0;
        if (fflush(f) != 0) bad = true;
        return bad ? EOF : 0;
    }
    return __real_fclose(f);
}
void __wrap_abort(void) { violation("abort", "abort() called by the code under test"); }
void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    const char* b = strrchr(file, '/');
    violation(Str("assert:") + (func ? func : "?"), "assertion failed: %s (%s:%u, %s)", expr, b ? b + 1 : file, line, func);
}
__attribute__((used, visibility("default"))) const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:handle_sigbus=1:handle_sigfpe=1:handle_sigill=1:"
           "allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
           "detect_stack_use_after_return=0:print_suppressions=0:quarantine_size_mb=8:"
           "malloc_context_size=12:strict_string_checks=0:detect_odr_violation=0:print_full_thread_history=0";
}
}

// ------------------------------------------------------------------ runs
namespace sim {
static void null_log(const gchar*, GLogLevelFlags lvl, const gchar* msg, gpointer) {
    Out o;
    if (lvl & G_LOG_FLAG_FATAL) { fprintf(stderr, "fatal glib log: %s\n", msg); }
    if (lvl & G_LOG_LEVEL_CRITICAL) probe("glib_critical");
}
static uint64_t run_seed(uint64_t seed, uint64_t idx, const Str& world) {
    uint64_t h = hash_str(world) ^ (seed * 0x9E3779B97F4A7C15ULL);
    uint64_t x = h + idx * 0xD1342543DE82EF95ULL;
    return Rng::mix(x);
}
static void reset_run() {
    g_hash = 1469598103934665603ULL;
    g_evcount = 0;
    g_plan = FaultPlan();
    g_run_fired = 0;
    g_time_us = 0;
    g_nontrivial = false;
    g_edges = 0;
    g_trace.clear();
    g_viol_cls.clear();
    g_viol_msg.clear();
    edge_hook = nullptr;
    mem_hook = nullptr;
    edge_budget = 60000000;
    fs.reset();
    cap_out.clear();
    cap_err.clear();
    statics_reset();
    reset_library_globals();
    in_lib = 0;
    errno = 0;
}
static void run_once() {
    reset_run();
    tw.pos = tf.pos = 0;
    ledger_forgive();
    l_on = true;
    fs_active = true;
    worlds()[g_world]();
    fs_active = false;
    if (fs.open_fds()) violation("fd:leak", "%zu descriptor(s) left open at the end of the run", fs.open_fds());
}
// One run including the leak verdict (repeated to tell caches from leaks).
static void start_generate(uint64_t idx);
static volatile bool g_generating;
static void run_index() {
    static uint64_t fc0[F_NKINDS];
    static std::map<Str, uint64_t> pr0;
    memcpy(fc0, g_fault_counts, sizeof fc0);
    pr0 = g_probes;
    g_generating = !tw.replay && !tf.replay;
    g_main_thread = pthread_self();
    g_passes_left = 2;
    if (sigsetjmp(g_again, 0)) {
        l_on = false;
        fs_active = false;
        life_armed = exit_armed = false;
        memcpy(g_fault_counts, fc0, sizeof fc0);
        g_probes = pr0;
        if (g_generating) start_generate(g_idx);
    }
    run_once();
    g_passes_left = 0;
    uint64_t h = g_hash, evc = g_evcount;
    uint32_t fired = g_run_fired;
    uint64_t t = g_time_us;
    bool nt = g_nontrivial;
    uint64_t e = g_edges;
    std::vector<Str> tr = g_trace;
    if (ledger_live()) {
        bool rw = tw.replay, rf = tf.replay;
        uint64_t fc[F_NKINDS];
        memcpy(fc, g_fault_counts, sizeof fc);
        auto pr = g_probes;
        tw.replay = tf.replay = true;
        for (int k = 0; k < 2; k++) {
            run_once();
            if (!ledger_live()) break;
        }
        if (ledger_live()) {
            Str msg;
            l_on = false;
            Str cls = leak_class(&msg);
            g_hash = h;
            violation(cls, "memory leak: %s", msg.c_str());
        }
        tw.replay = rw;
        tf.replay = rf;
        memcpy(g_fault_counts, fc, sizeof fc);
        g_probes = pr;
    }
    l_on = false;
    g_hash = h;
    g_evcount = evc;
    g_run_fired = fired;
    g_time_us = t;
    g_nontrivial = nt;
    g_edges = e;
    g_trace = tr;
}
static void start_generate(uint64_t idx) {
    g_idx = idx;
    uint64_t s = run_seed(g_seed, idx, g_world + "/" + g_mode);
    tw = Tape();
    tf = Tape();
    tw.rng.seed(s);
    tf.rng.seed(s ^ 0x5bd1e995ULL * 0x100000001ULL);
}
static bool parse_tape(const char* s, Tape& t) {
    t = Tape();
    t.replay = true;
    while (*s) {
        while (*s == ' ' || *s == ',') s++;
        if (*s < '0' || *s > '9') break;
        t.v.push_back((uint32_t)strtoul(s, (char**)&s, 10));
    }
    return true;
}
} // namespace sim

extern "C" const char* __asan_default_options();
static Str arg(int argc, char** argv, const char* name, const char* def = "") {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
extern "C" pid_t __real_waitpid(pid_t, int*, int);
int main(int argc, char** argv) {
    Str cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto& w : worlds()) printf("%s\n", w.first.c_str()); return 0; }
    g_world = arg(argc, argv, "--world");
    g_mode = arg(argc, argv, "--mode", "fault");
    g_clean = g_mode == "clean";
    g_seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    if (!worlds().count(g_world)) { fprintf(stderr, "unknown world %s\n", g_world.c_str()); return 2; }
    l_ptr = (uintptr_t*)mmap(nullptr, LCAP * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
    __asan_set_error_report_callback(asan_cb);
    __sanitizer_set_death_callback(death_cb);
    g_log_set_default_handler(null_log, nullptr);
    signal(SIGALRM, sig_handler);
    signal(SIGTRAP, sig_handler);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int guard = atoi(arg(argc, argv, "--guard", "60").c_str());
    g_violfile = arg(argc, argv, "--viol");
    init_library();
    statics_snapshot();

    if (cmd == "batch") {
        uint64_t from = strtoull(arg(argc, argv, "--from", "0").c_str(), nullptr, 10);
        uint64_t to = strtoull(arg(argc, argv, "--to", "1").c_str(), nullptr, 10);
        Str out = arg(argc, argv, "--out");
        bool rev = arg(argc, argv, "--reverse", "0") == "1";
        Str hashes = arg(argc, argv, "--hashes");
        uint64_t stop_at = strtoull(arg(argc, argv, "--deadline", "0").c_str(), nullptr, 10);
        uint64_t runs = 0, nt = 0, evs = 0, edges = 0;
        std::unordered_set<uint64_t> traces;
        Str hl;
        Str sample;
        for (uint64_t k = from; k < to; k++) {
            if (stop_at && (runs & 15) == 0 && (uint64_t)time(nullptr) >= stop_at) break;
            uint64_t i = rev ? to - 1 - (k - from) : k;
            start_generate(i);
            g_verbose = (k - from) < 1 && !rev;
            alarm(guard);
            run_index();
            alarm(0);
            runs++;
            if (g_nontrivial || g_run_fired) { nt++; traces.insert(g_hash); }
            evs += g_evcount;
            edges += g_edges;
            g_time_total += g_time_us;
            if (g_verbose) {
                sample = "{\"idx\":" + std::to_string(i) + ",\"events\":" + std::to_string(g_evcount) + ",\"trace\":[";
                for (size_t x = 0; x < g_trace.size() && x < 25; x++) { if (x) sample += ','; sample += jesc(g_trace[x]); }
                sample += "]}";
            }
            if (!hashes.empty()) { char b[64]; snprintf(b, sizeof b, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)g_hash); hl += b; }
        }
        if (!hashes.empty()) write_file(hashes, hl);
        Str r = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nt) + ",\"events\":" + std::to_string(evs);
        r += ",\"sim_us\":" + std::to_string(g_time_total) + ",\"edges_executed\":" + std::to_string(edges);
        r += ",\"faults\":{";
        bool first = true;
        for (int k = 0; k < F_NKINDS; k++) if (g_fault_counts[k]) { if (!first) r += ","; first = false; r += jesc(fault_names[k]) + ":" + std::to_string(g_fault_counts[k]); }
        r += "},\"probes\":{";
        first = true;
        for (auto& p : g_probes) { if (!first) r += ","; first = false; r += jesc(p.first) + ":" + std::to_string(p.second); }
        r += "},\"guards\":" + std::to_string(g_nguards);
        r += ",\"sample\":" + (sample.empty() ? Str("null") : sample) + "}";
        write_file(out, r + "\n");
        Str bin;
        for (auto h : traces) bin.append((const char*)&h, 8);
        write_file(out + ".traces", bin);
        bin.clear();
        for (auto h : g_states) bin.append((const char*)&h, 8);
        write_file(out + ".states", bin);
        bin.clear();
        for (uint32_t i = 1; i <= g_nguards && i < (1 << 16); i++) if (g_cov[i]) { bin.append((const char*)&i, 4); }
        write_file(out + ".cov", bin);
        return 0;
    }
    if (cmd == "one" || cmd == "replay" || cmd == "range") {
        g_verbose = true;
        Str out = arg(argc, argv, "--out");
        alarm(guard);
        if (cmd == "one") start_generate(strtoull(arg(argc, argv, "--idx", "0").c_str(), nullptr, 10));
        else if (cmd == "range") { // a history of runs in one process, ending with idx
            uint64_t from = strtoull(arg(argc, argv, "--from", "0").c_str(), nullptr, 10);
            uint64_t idx = strtoull(arg(argc, argv, "--idx", "0").c_str(), nullptr, 10);
            g_verbose = false;
            for (uint64_t i = from; i < idx; i++) { alarm(guard); start_generate(i); run_index(); }
            g_verbose = true;
            alarm(guard);
            start_generate(idx);
        } else {
            // tapes on stdin: two lines
            Str in;
            char buf[65536];
            ssize_t n;
            while ((n = __real_read(0, buf, sizeof buf)) > 0) in.append(buf, n);
            size_t nl = in.find('\n');
            parse_tape(in.substr(0, nl).c_str(), tw);
            parse_tape(nl == Str::npos ? "" : in.substr(nl + 1).c_str(), tf);
        }
        if (g_violfile.empty()) g_violfile = out;
        run_index();
        alarm(0);
        if (!out.empty()) write_file(out, record_json() + "\n");
        return 0;
    }
    if (cmd == "serve") {
        // candidate tapes on stdin, one class per line on stdout; each in a forked child
        Str buf;
        char tmp[65536];
        std::vector<Str> lines;
        auto getline_ = [&](Str& l) {
            size_t nl;
            while ((nl = buf.find('\n')) == Str::npos) {
                ssize_t n = __real_read(0, tmp, sizeof tmp);
                if (n <= 0) return false;
                buf.append(tmp, n);
            }
            l = buf.substr(0, nl);
            buf.erase(0, nl + 1);
            return true;
        };
        Str a, b;
        while (getline_(a) && getline_(b)) {
            int pfd[2];
            if (pipe(pfd)) return 2;
            pid_t pid = fork();
            if (pid == 0) {
                __real_close(pfd[0]);
                g_violpipe = pfd[1];
                g_violfile.clear();
                int dn = __real_open("/dev/null", O_WRONLY);
                dup2(dn, 2);
                parse_tape(a.c_str(), tw);
                parse_tape(b.c_str(), tf);
                alarm(guard);
                run_index();
                char r[64];
                int n = snprintf(r, sizeof r, "\n");
                __real_write(pfd[1], r, n);
                _exit(0);
            }
            __real_close(pfd[1]);
            Str res;
            ssize_t n;
            while ((n = __real_read(pfd[0], tmp, sizeof tmp)) > 0) res.append(tmp, n);
            __real_close(pfd[0]);
            int st;
            __real_waitpid(pid, &st, 0);
            size_t nl = res.find('\n');
            if (nl == Str::npos) res = "died";
            else res = res.substr(0, nl);
            write_all(1, res + "\n");
        }
        return 0;
    }
    fprintf(stderr, "usage: sim batch|one|replay|range|serve --world W --mode clean|fault ...\n");
    return 2;
}
