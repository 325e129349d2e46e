// S12: threads of one process at work at the same time.  Real threads, one running at a time; the
// simulator decides at every basic block and at every access to shared memory who goes on.
#include "text.h"
#include "probdir.h"
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <locale.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <algorithm>
extern "C" {
#include "abrt.h"
#include "normalize.h"
#include "utils.h"
#include "distance.h"
#include "cluster.h"
#include "unstrip.h"
extern char __data_start, _end;
}
using namespace sim;

namespace {
// ------------------------------------------------------------------ scheduler
struct Th { pthread_t t; int id; sem_t go; bool done = true; std::function<void()> job; };
std::vector<Th*> pool;
sem_t main_go;
int cur = -1;
uint32_t nth;
thread_local int self_id = -1;
thread_local int locks_held;             // no switch while the running thread holds a lock: a blocked thread cannot run
uint64_t cold_gap, slice, hot_seen, switches;
uint32_t hot_gap, hot_scale, hot_left, scale, after;
const uint64_t NEVER = ~0ULL, SLICE = 60000;
uintptr_t data_lo, data_hi;
std::vector<std::pair<uintptr_t, uintptr_t>> shared_mem;    // sorted
std::set<uintptr_t> dirty;                                  // global or shared words written while threads ran

uint64_t draw_cold() { if (mode_clean()) return NEVER; uint32_t v = F(scale * 64); return v == 0 ? NEVER : 1 + v % scale; }
uint32_t draw_hot() {                                       // 0: never again
    if (mode_clean() || !hot_left) return 0;
    hot_left--;
    return F(hot_scale * 8) ? 1 + F(hot_scale) : 0;
}
void to_thread(int n) {
    int me = self_id;
    cur = n;
    slice = SLICE;
    sem_post(&pool[n]->go);
    while (sem_wait(&pool[me]->go)) {}
}
int next_runnable(bool drawn) {
    std::vector<int> r;
    for (uint32_t k = 1; k < nth; k++) { int i = (self_id + k) % nth; if (!pool[i]->done) r.push_back(i); }
    if (r.empty()) return -1;
    return r[drawn && r.size() > 1 ? F((uint32_t)r.size()) : 0];
}
void preempt(const char* why, bool drawn) {
    int n = next_runnable(drawn);
    if (n < 0) return;
    switches++;
    count_fault(F_PREEMPT);
    ev("%s: thread %d -> %d", why, self_id, n);
    to_thread(n);
}
void on_edge(uint32_t) {
    if (self_id < 0 || self_id != cur || locks_held) return;
    if (--slice == 0) { slice = SLICE; Out o; if (next_runnable(false) >= 0) { ev("slice"); int n = next_runnable(false); to_thread(n); } return; }
    if (after) {                                               // a global was just written
        after--;
        if (hot_gap && --hot_gap == 0) { Out o; hot_gap = draw_hot(); preempt("preempt after a store to a global", true); return; }
    }
    if (cold_gap == NEVER || --cold_gap) return;
    Out o;
    cold_gap = draw_cold();
    preempt("preempt", true);
}
bool in_shared(uintptr_t a) {
    if (a >= data_lo && a < data_hi) return true;
    auto i = std::upper_bound(shared_mem.begin(), shared_mem.end(), std::make_pair(a, ~(uintptr_t)0));
    return i != shared_mem.begin() && a < (--i)->second;
}
void on_mem(const void* p, int write) {
    if (self_id < 0 || self_id != cur || locks_held) return;
    uintptr_t a = (uintptr_t)p;
    if (write ? !in_shared(a) : (dirty.empty() || !dirty.count(a & ~7UL))) return;
    Out o;
    if (write) dirty.insert(a & ~7UL);
    if (write && a >= data_lo && a < data_hi) after = 100;
    hot_seen++;
    if (!hot_gap || --hot_gap) return;
    hot_gap = draw_hot();
    preempt(write ? "preempt before a store to shared memory" : "preempt before a load of shared memory", true);
}
// memory the C library and GLib touch for their caller
void touch(const void* p, int write) { if (mem_hook && in_lib && p) on_mem(p, write); }
void* thread_main(void* arg) {
    Th* me = (Th*)arg;                                      // not through pool: it may still be growing
    self_id = me->id;
    while (true) {
        while (sem_wait(&me->go)) {}
        slice = SLICE;
        locks_held = 0;
        me->job();
        me->done = true;
        me->job = nullptr;
        int n = -1;
        for (uint32_t k = 1; k < nth; k++) { int i = (self_id + k) % nth; if (!pool[i]->done) { n = i; break; } }
        cur = n;
        ev("thread %d is done", self_id);
        sem_post(n < 0 ? &main_go : &pool[n]->go);
    }
    return nullptr;
}
void run_threads(const std::vector<std::function<void()>>& jobs) {
    nth = (uint32_t)jobs.size();
    if (pool.empty()) {
        sem_init(&main_go, 0, 0);
        data_lo = (uintptr_t)&__data_start;
        data_hi = (uintptr_t)&_end;
    }
    while (pool.size() < nth) {
        Th* t = new Th;
        sem_init(&t->go, 0, 0);
        t->id = (int)pool.size();
        pool.push_back(t);
        if (pthread_create(&t->t, nullptr, thread_main, t)) violation("harness:thread", "cannot start a thread");
    }
    for (uint32_t i = 0; i < nth; i++) { pool[i]->job = jobs[i]; pool[i]->done = false; }
    static const uint32_t scales[] = {12, 60, 400, 3000, 15000};
    scale = scales[F(5)];
    cold_gap = draw_cold();
    static const uint32_t hots[] = {2, 6, 40, 300};
    hot_scale = hots[F(4)];
    hot_left = hot_scale < 40 ? 300 : 100;
    hot_gap = draw_hot();
    if (!mode_clean() && hot_scale < 40) hot_gap = 1;
    slice = SLICE; hot_seen = switches = 0; after = 0; dirty.clear();
    cur = mode_clean() ? 0 : (int)F(nth);
    edge_hook = on_edge;
    mem_hook = on_mem;
    sem_post(&pool[cur]->go);
    while (sem_wait(&main_go)) {}
    edge_hook = nullptr;
    mem_hook = nullptr;
}
}
// a thread that holds a lock or runs a one-time initialisation is not interrupted
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { locks_held++; return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (locks_held) locks_held--; return __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { locks_held++; return __real_pthread_rwlock_rdlock(m); }
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { locks_held++; return __real_pthread_rwlock_wrlock(m); }
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (locks_held) locks_held--; return __real_pthread_rwlock_unlock(m); }
void __real_g_mutex_lock(GMutex* m);
void __wrap_g_mutex_lock(GMutex* m) { locks_held++; return __real_g_mutex_lock(m); }
void __real_g_mutex_unlock(GMutex* m);
void __wrap_g_mutex_unlock(GMutex* m) { if (locks_held) locks_held--; return __real_g_mutex_unlock(m); }
void __real_g_rec_mutex_lock(GRecMutex* m);
void __wrap_g_rec_mutex_lock(GRecMutex* m) { locks_held++; return __real_g_rec_mutex_lock(m); }
void __real_g_rec_mutex_unlock(GRecMutex* m);
void __wrap_g_rec_mutex_unlock(GRecMutex* m) { if (locks_held) locks_held--; return __real_g_rec_mutex_unlock(m); }
void __real_g_rw_lock_writer_lock(GRWLock* m);
void __wrap_g_rw_lock_writer_lock(GRWLock* m) { locks_held++; return __real_g_rw_lock_writer_lock(m); }
void __real_g_rw_lock_writer_unlock(GRWLock* m);
void __wrap_g_rw_lock_writer_unlock(GRWLock* m) { if (locks_held) locks_held--; return __real_g_rw_lock_writer_unlock(m); }
void __real_g_rw_lock_reader_lock(GRWLock* m);
void __wrap_g_rw_lock_reader_lock(GRWLock* m) { locks_held++; return __real_g_rw_lock_reader_lock(m); }
void __real_g_rw_lock_reader_unlock(GRWLock* m);
void __wrap_g_rw_lock_reader_unlock(GRWLock* m) { if (locks_held) locks_held--; return __real_g_rw_lock_reader_unlock(m); }
int __real_pthread_once(pthread_once_t* c, void (*f)(void));
int __wrap_pthread_once(pthread_once_t* c, void (*f)(void)) { locks_held++; int r = __real_pthread_once(c, f); locks_held--; return r; }
gpointer __real_g_once_impl(GOnce* o, GThreadFunc f, gpointer a);
gpointer __wrap_g_once_impl(GOnce* o, GThreadFunc f, gpointer a) { locks_held++; gpointer r = __real_g_once_impl(o, f, a); locks_held--; return r; }
gboolean __real_g_once_init_enter(volatile void* p);
gboolean __wrap_g_once_init_enter(volatile void* p) { gboolean r = __real_g_once_init_enter(p); if (r) locks_held++; return r; }
void __real_g_once_init_leave(volatile void* p, gsize v);
void __wrap_g_once_init_leave(volatile void* p, gsize v) { __real_g_once_init_leave(p, v); if (locks_held) locks_held--; }
gboolean __real_g_once_init_enter_pointer(void* p);
gboolean __wrap_g_once_init_enter_pointer(void* p) { gboolean r = __real_g_once_init_enter_pointer(p); if (r) locks_held++; return r; }
void __real_g_once_init_leave_pointer(void* p, gpointer v);
void __wrap_g_once_init_leave_pointer(void* p, gpointer v) { __real_g_once_init_leave_pointer(p, v); if (locks_held) locks_held--; }
}

// what the library has GLib and the C library write to and read from: a switch comes before or after the call, not within
extern "C" {
void* __real___asan_memcpy(void* d, const void* s, size_t n);
void* __wrap___asan_memcpy(void* d, const void* s, size_t n) { touch(s, 0); touch(d, 1); void* r = __real___asan_memcpy(d, s, n); touch(d, 1); return r; }
void* __real___asan_memmove(void* d, const void* s, size_t n);
void* __wrap___asan_memmove(void* d, const void* s, size_t n) { touch(s, 0); touch(d, 1); void* r = __real___asan_memmove(d, s, n); touch(d, 1); return r; }
void* __real___asan_memset(void* d, int c, size_t n);
void* __wrap___asan_memset(void* d, int c, size_t n) { touch(d, 1); void* r = __real___asan_memset(d, c, n); touch(d, 1); return r; }
char* __real_strcpy(char* d, const char* s);
char* __wrap_strcpy(char* d, const char* s) { touch(s, 0); touch(d, 1); char* r = __real_strcpy(d, s); touch(d, 1); return r; }
char* __real_strncpy(char* d, const char* s, size_t n);
char* __wrap_strncpy(char* d, const char* s, size_t n) { touch(s, 0); touch(d, 1); char* r = __real_strncpy(d, s, n); touch(d, 1); return r; }
char* __real_strcat(char* d, const char* s);
char* __wrap_strcat(char* d, const char* s) { touch(s, 0); touch(d, 1); char* r = __real_strcat(d, s); touch(d, 1); return r; }
char* __real_strncat(char* d, const char* s, size_t n);
char* __wrap_strncat(char* d, const char* s, size_t n) { touch(s, 0); touch(d, 1); char* r = __real_strncat(d, s, n); touch(d, 1); return r; }
char* __real_stpcpy(char* d, const char* s);
char* __wrap_stpcpy(char* d, const char* s) { touch(s, 0); touch(d, 1); char* r = __real_stpcpy(d, s); touch(d, 1); return r; }
gsize __real_g_strlcpy(gchar* d, const gchar* s, gsize n);
gsize __wrap_g_strlcpy(gchar* d, const gchar* s, gsize n) { touch(s, 0); touch(d, 1); gsize r = __real_g_strlcpy(d, s, n); touch(d, 1); return r; }
gsize __real_g_strlcat(gchar* d, const gchar* s, gsize n);
gsize __wrap_g_strlcat(gchar* d, const gchar* s, gsize n) { touch(s, 0); touch(d, 1); gsize r = __real_g_strlcat(d, s, n); touch(d, 1); return r; }
char* __real_strdup(const char* s);
char* __wrap_strdup(const char* s) { touch(s, 0); char* r = __real_strdup(s); return r; }
gchar* __real_g_strdup(const gchar* s);
gchar* __wrap_g_strdup(const gchar* s) { touch(s, 0); gchar* r = __real_g_strdup(s); return r; }
gchar* __real_g_strndup(const gchar* s, gsize n);
gchar* __wrap_g_strndup(const gchar* s, gsize n) { touch(s, 0); gchar* r = __real_g_strndup(s, n); return r; }
int __real_strcmp(const char* a, const char* b);
int __wrap_strcmp(const char* a, const char* b) { touch(a, 0); touch(b, 0); int r = __real_strcmp(a, b); return r; }
int __real_strncmp(const char* a, const char* b, size_t n);
int __wrap_strncmp(const char* a, const char* b, size_t n) { touch(a, 0); touch(b, 0); int r = __real_strncmp(a, b, n); return r; }
int __real_g_strcmp0(const char* a, const char* b);
int __wrap_g_strcmp0(const char* a, const char* b) { touch(a, 0); touch(b, 0); int r = __real_g_strcmp0(a, b); return r; }
size_t __real_strlen(const char* a);
size_t __wrap_strlen(const char* a) { touch(a, 0); size_t r = __real_strlen(a); return r; }
GString* __real_g_string_append(GString* g, const gchar* s);
GString* __wrap_g_string_append(GString* g, const gchar* s) { touch(s, 0); touch(g, 1); GString* r = __real_g_string_append(g, s); touch(g, 1); return r; }
GString* __real_g_string_append_len(GString* g, const gchar* s, gssize n);
GString* __wrap_g_string_append_len(GString* g, const gchar* s, gssize n) { touch(s, 0); touch(g, 1); GString* r = __real_g_string_append_len(g, s, n); touch(g, 1); return r; }
GString* __real_g_string_append_c(GString* g, gchar c);
GString* __wrap_g_string_append_c(GString* g, gchar c) { touch(g, 1); GString* r = __real_g_string_append_c(g, c); touch(g, 1); return r; }
GString* __real_g_string_insert_len(GString* g, gssize p, const gchar* s, gssize n);
GString* __wrap_g_string_insert_len(GString* g, gssize p, const gchar* s, gssize n) { touch(s, 0); touch(g, 1); GString* r = __real_g_string_insert_len(g, p, s, n); touch(g, 1); return r; }
GString* __real_g_string_insert_c(GString* g, gssize p, gchar c);
GString* __wrap_g_string_insert_c(GString* g, gssize p, gchar c) { touch(g, 1); GString* r = __real_g_string_insert_c(g, p, c); touch(g, 1); return r; }
GString* __real_g_string_prepend(GString* g, const gchar* s);
GString* __wrap_g_string_prepend(GString* g, const gchar* s) { touch(s, 0); touch(g, 1); GString* r = __real_g_string_prepend(g, s); touch(g, 1); return r; }
GString* __real_g_string_assign(GString* g, const gchar* s);
GString* __wrap_g_string_assign(GString* g, const gchar* s) { touch(s, 0); touch(g, 1); GString* r = __real_g_string_assign(g, s); touch(g, 1); return r; }
GString* __real_g_string_truncate(GString* g, gsize n);
GString* __wrap_g_string_truncate(GString* g, gsize n) { touch(g, 1); GString* r = __real_g_string_truncate(g, n); touch(g, 1); return r; }
GString* __real_g_string_set_size(GString* g, gsize n);
GString* __wrap_g_string_set_size(GString* g, gsize n) { touch(g, 1); GString* r = __real_g_string_set_size(g, n); touch(g, 1); return r; }
GString* __real_g_string_erase(GString* g, gssize p, gssize n);
GString* __wrap_g_string_erase(GString* g, gssize p, gssize n) { touch(g, 0); touch(g, 1); GString* r = __real_g_string_erase(g, p, n); touch(g, 1); return r; }
gchar* __real_g_compute_checksum_for_string(GChecksumType t, const gchar* s, gssize n);
gchar* __wrap_g_compute_checksum_for_string(GChecksumType t, const gchar* s, gssize n) { touch(s, 0); gchar* r = __real_g_compute_checksum_for_string(t, s, n); return r; }
static char static_state;        // stands for what these keep between calls
char* __real_strtok(char* s, const char* d);
char* __wrap_strtok(char* s, const char* d) { touch(&static_state, 1); char* r = __real_strtok(s, d); touch(&static_state, 1); return r; }
char* __real_setlocale(int c, const char* l);
char* __wrap_setlocale(int c, const char* l) { touch(&static_state, 1); char* r = __real_setlocale(c, l); touch(&static_state, 1); return r; }
struct tm* __real_localtime(const time_t* t);
struct tm* __wrap_localtime(const time_t* t) { touch(&static_state, 1); struct tm* r = __real_localtime(t); touch(&static_state, 1); return r; }
struct tm* __real_gmtime(const time_t* t);
struct tm* __wrap_gmtime(const time_t* t) { touch(&static_state, 1); struct tm* r = __real_gmtime(t); touch(&static_state, 1); return r; }
char* __real_ctime(const time_t* t);
char* __wrap_ctime(const time_t* t) { touch(&static_state, 1); char* r = __real_ctime(t); touch(&static_state, 1); return r; }
char* __real_asctime(const struct tm* t);
char* __wrap_asctime(const struct tm* t) { touch(&static_state, 1); char* r = __real_asctime(t); touch(&static_state, 1); return r; }
char* __real_strerror(int e);
char* __wrap_strerror(int e) { touch(&static_state, 1); char* r = __real_strerror(e); touch(&static_state, 1); return r; }
char* __real_dirname(char* p);
char* __wrap_dirname(char* p) { touch(&static_state, 1); char* r = __real_dirname(p); touch(&static_state, 1); return r; }
int __real_chdir(const char* p);
int __wrap_chdir(const char* p) { touch(&static_state, 1); int r = __real_chdir(p); touch(&static_state, 1); return r; }
mode_t __real_umask(mode_t m);
mode_t __wrap_umask(mode_t m) { touch(&static_state, 1); mode_t r = __real_umask(m); touch(&static_state, 1); return r; }
int __real_vsnprintf(char* d, size_t n, const char* f, va_list a);
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a) { touch(d, 1); int r = __real_vsnprintf(d, n, f, a); touch(d, 1); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, n, f, a); va_end(a); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, (size_t)INT32_MAX, f, a); va_end(a); return r; }
void __real_g_string_append_vprintf(GString* g, const gchar* f, va_list a);
void __wrap_g_string_append_vprintf(GString* g, const gchar* f, va_list a) { touch(g, 1); __real_g_string_append_vprintf(g, f, a); touch(g, 1); }
void __wrap_g_string_append_printf(GString* g, const gchar* f, ...) { va_list a; va_start(a, f); __wrap_g_string_append_vprintf(g, f, a); va_end(a); }
void __real_g_string_vprintf(GString* g, const gchar* f, va_list a);
void __wrap_g_string_vprintf(GString* g, const gchar* f, va_list a) { touch(g, 1); __real_g_string_vprintf(g, f, a); touch(g, 1); }
void __wrap_g_string_printf(GString* g, const gchar* f, ...) { va_list a; va_start(a, f); __wrap_g_string_vprintf(g, f, a); va_end(a); }
}

// ------------------------------------------------------------------ work
namespace {
Str dig(const MObj& o) {
    Str r = "{";
    for (auto& kv : o.s) r += kv.first + "=" + kv.second + ";";
    for (auto& kv : o.n) r += kv.first + "=" + std::to_string(kv.second) + ";";
    return r + "}";
}
Str dig(const MThread& t) { Str r = dig((const MObj&)t) + "["; for (auto& f : t.f) r += dig(f); return r + "]"; }
Str dig(const MTrace& m) {
    Str r = dig((const MObj&)m) + " crash " + std::to_string(m.crash);
    for (auto& t : m.t) r += dig(t);
    for (auto& x : m.modules) r += "mod " + x + ",";
    for (auto& l : m.libs) r += "lib " + dig(l);
    if (m.crash_frame) r += "cf " + dig(*m.crash_frame);
    return r;
}
Str dig(const MReport& m) {
    Str r = dig((const MObj&)m) + (m.has_os ? "os " + dig(m.os) : "");
    for (auto& p : m.pkgs) r += "pkg " + dig(p);
    if (m.has_trace) r += dig(m.trace);
    for (auto& a : m.auth) r += "auth " + a.first + "=" + a.second;
    return r;
}
Str take(char* s) { if (!s) return "(null)"; Str r = s; LIB(g_free(s)); return r; }
Str num(double d) { char b[40]; snprintf(b, sizeof b, "%.9g;", d); return b; }

Str cstr(const char* s) { return s ? s : "(null)"; }
Str hashes(struct sr_stacktrace* st) {
    Str r;
    r += take(LIB(sr_stacktrace_get_bthash(st, SR_BTHASH_NORMAL))) + take(LIB(sr_stacktrace_get_bthash(st, SR_BTHASH_NOHASH)));
    auto t = LIB(sr_stacktrace_find_crash_thread(st));
    if (t) {
        r += take(LIB(sr_thread_get_duphash(t, 3, nullptr, SR_DUPHASH_NORMAL)));
        r += take(LIB(sr_thread_get_duphash(t, 0, (char*)"component", SR_DUPHASH_NOHASH)));
        r += take(LIB(sr_thread_get_duphash(t, 5, nullptr, (enum sr_duphash_flags)(SR_DUPHASH_NOHASH | SR_DUPHASH_NONORMALIZE | SR_DUPHASH_KOOPS_COMPAT))));
        r += std::to_string(LIB(sr_thread_frame_count(t)));
    }
    return r;
}
// everything that only reads
Str read_trace(struct sr_stacktrace* st, int what) {
    int limit = what / 8;
    switch (what % 8) {
    default: return take(LIB(sr_stacktrace_to_json(st)));
    case 1: return hashes(st);
    case 2: return take(LIB(sr_stacktrace_get_reason(st)));
    case 3: return take(LIB(sr_stacktrace_to_short_text(st, limit ? limit : 5)));
    case 4: {
        Str r;
        std::vector<struct sr_thread*> v;
        for (auto t = LIB(sr_stacktrace_threads(st)); t; t = LIB(sr_thread_next(t))) v.push_back(t);
        for (auto a : v) for (auto b : v) for (int d = SR_DISTANCE_JARO_WINKLER; d < SR_DISTANCE_NUM; d++) r += num(LIB(sr_distance((enum sr_distance_type)d, a, b)));
        return r;
    }
    case 5: {
        Str r;
        for (auto t = LIB(sr_stacktrace_threads(st)); t; t = LIB(sr_thread_next(t))) {
            auto d = LIB(sr_thread_dup(t));
            LIB(sr_thread_normalize(d));
            r += dig(thread_of(d));
            LIB(sr_thread_free(d));
        }
        return r;
    }
    case 6: return dig(trace_of(st));
    case 7: {
        if (st->type != SR_REPORT_GDB) return hashes(st);
        auto g = (struct sr_gdb_stacktrace*)st;
        Str r = take(LIB(sr_gdb_stacktrace_to_text(g, true))) + num(LIB(sr_gdb_stacktrace_quality_simple(g))) + num(LIB(sr_gdb_stacktrace_quality_complex(g)));
        auto c = LIB(sr_gdb_stacktrace_dup(g));
        LIB(sr_normalize_gdb_stacktrace(c));
        LIB(sr_gdb_stacktrace_set_libnames(c));
        r += dig(trace_of((struct sr_stacktrace*)c));
        for (auto t = g->threads; t; t = t->next) r += take(LIB(sr_gdb_thread_format_funs(t)));
        LIB(sr_gdb_stacktrace_free(c));
        return r;
    }
    }
}
Str read_threads(const std::vector<struct sr_thread*>& v, int what) {
    Str r;
    if (what == 0) {
        int n = (int)v.size();
        for (int d = SR_DISTANCE_JARO_WINKLER; d < SR_DISTANCE_NUM; d++) {
            auto x = LIB(sr_threads_compare((struct sr_thread**)v.data(), n - 1, n, (enum sr_distance_type)d));
            for (int i = 0; i < n - 1; i++) for (int j = 0; j < n; j++) if (i != j) r += num(LIB(sr_distances_get_distance(x, i, j)));
            auto g = LIB(sr_distances_cluster_objects(x));
            for (int i = 0; i < g->size; i++) r += std::to_string(g->order[i]) + ",";
            for (int i = 0; i + 1 < g->size; i++) r += num(g->merge_levels[i]);
            auto c = LIB(sr_dendrogram_cut(g, 0.5, 1));
            for (auto k = c; k; k = k->next) for (int i = 0; i < k->size; i++) r += std::to_string(k->objects[i]) + (i + 1 < k->size ? "-" : " ");
            while (c) { auto k = c->next; LIB(sr_cluster_free(c)); c = k; }
            LIB(sr_dendrogram_free(g));
            LIB(sr_distances_free(x));
        }
    } else {
        for (size_t i = 0; i + 1 < v.size(); i++) {
            r += num(LIB(sr_distance((enum sr_distance_type)(what % SR_DISTANCE_NUM), v[i], v[i + 1])));
            auto a = LIB(sr_thread_frames(v[i])), b = LIB(sr_thread_frames(v[i + 1]));
            if (a && b) r += std::to_string(LIB(sr_frame_cmp_distance(a, b)));
            r += take(LIB(sr_thread_get_duphash(v[i], 2, nullptr, SR_DUPHASH_NORMAL)));
        }
    }
    return r;
}
Str parse_all(int type, const Str& text, int what) {
    const char* in = text.c_str();
    struct sr_location loc;
    LIB(sr_location_init(&loc));
    Str r;
    if (what == 0) {
        char* e = nullptr;
        auto st = LIB(sr_stacktrace_parse((enum sr_report_type)type, text.c_str(), &e));
        if (e) r += "error " + take(e);
        if (!st) return r + " nothing";
        r += dig(trace_of(st)) + hashes(st);
        LIB(sr_stacktrace_free(st));
        return r;
    }
    auto st = LIB(parse_trace(type, &in, &loc));
    r = std::to_string(in - text.c_str()) + " " + std::to_string(loc.line) + ":" + std::to_string(loc.column) + " " + cstr(loc.message);
    if (!st) return r + " nothing";
    r += dig(trace_of(st));
    if (what == 2) {
        for (auto t = LIB(sr_stacktrace_threads(st)); t; t = LIB(sr_thread_next(t))) LIB(sr_thread_normalize(t));
        r += dig(trace_of(st));
    }
    r += take(LIB(sr_stacktrace_to_json(st)));
    LIB(sr_stacktrace_free(st));
    return r;
}
Str json_all(int type, const Str& js) {
    char* e = nullptr;
    auto st = LIB(sr_stacktrace_from_json_text((enum sr_report_type)type, js.c_str(), &e));
    Str r = e ? take(e) : Str();
    if (!st) return r + "nothing";
    r += dig(trace_of(st)) + take(LIB(sr_stacktrace_to_json(st))) + take(LIB(sr_stacktrace_get_reason(st)));
    LIB(sr_stacktrace_free(st));
    return r;
}
Str report_all(const Str& js) {
    char* e = nullptr;
    auto rep = LIB(sr_report_from_json_text(js.c_str(), &e));
    Str r = e ? take(e) : Str();
    if (!rep) return r + "nothing";
    r += dig(report_of(rep)) + take(LIB(sr_report_to_json(rep)));
    LIB(report_free_all(rep));
    return r;
}
void os_cb(char* k, char* v, void* d) { Out o; *(Str*)d += Str(k) + "=" + v + ";"; free(k); free(v); }
Str small_all(const Str& a, const Str& b, int what) {
    Str r;
    switch (what) {
    case 0: { Str acc; LIB(sr_parse_os_release(a.c_str(), os_cb, &acc)); return acc; }
    case 1: {
        auto os = LIB(sr_operating_system_new());
        bool ok = LIB(sr_operating_system_parse_etc_os_release(a.c_str(), os));
        r = std::to_string(ok) + dig(os_of(os));
        LIB(sr_operating_system_free(os));
        return r;
    }
    case 2: {
        auto p = LIB(sr_abrt_parse_dso_list(a.c_str()));
        p = LIB(sr_rpm_package_sort(p));
        p = LIB(sr_rpm_package_uniq(p));
        for (auto& x : pkgs_of(p)) r += dig(x);
        LIB(sr_rpm_package_free(p, true));
        return r;
    }
    case 3: {
        char *e = nullptr, *n = nullptr, *v = nullptr, *l = nullptr, *ar = nullptr; uint32_t ep = 0;
        if (LIB(sr_rpm_package_parse_nevra(b.c_str(), &n, &ep, &v, &l, &ar))) { r = cstr(n) + std::to_string(ep) + cstr(v) + cstr(l) + cstr(ar); LIB(g_free(n)); LIB(g_free(v)); LIB(g_free(l)); LIB(g_free(ar)); }
        if (e) LIB(g_free(e));
        return r;
    }
    case 4: return take(LIB(sr_demangle_symbol("_ZN4llvm9FoldingSetINS_3FooEE3barEiPKc"))) + take(LIB(sr_indent(b.c_str(), 3))) + take(LIB(sr_build_path("/a", b.c_str(), nullptr)));
    case 5: { char h[200]; Str s = b.substr(0, 60); LIB(sr_bin2hex(h, s.c_str(), (int)s.size())); return Str(h, 2 * s.size()) + take(LIB(anonymize_path(g_strdup(b.c_str())))); }
    default: {
        auto u = LIB(sr_unstrip_parse(a.c_str()));
        for (auto e = u; e; e = e->next) r += std::to_string(e->start) + "+" + std::to_string(e->length) + cstr(e->build_id) + cstr(e->file_name) + cstr(e->mod_name) + ";";
        LIB(sr_unstrip_free(u));
        return r;
    }
    }
}
Str json_text_of(const MTrace& m) {
    auto st = LIB(trace_to(m));
    Str j = take(LIB(sr_stacktrace_to_json(st)));
    LIB(sr_stacktrace_free(st));
    return j;
}
struct sr_thread* a_thread(int type, const MThread& t) {
    struct sr_thread* x = LIB(thread_to(type, t));
    if (!x) { MTrace m; m.type = type; m.t.push_back(t); x = (struct sr_thread*)LIB(trace_to(m)); }   // the trace is its only thread
    return x;
}
struct Op { Str name; std::function<Str()> fn; Str want; };
struct Shared {
    std::vector<std::pair<MTrace, struct sr_stacktrace*>> traces;
    std::vector<struct sr_thread*> threads; int ttype = 0; std::vector<MThread> models;
    struct sr_report* rep = nullptr; MReport rmodel;
    struct sr_rpm_package* pkgs = nullptr; std::vector<MPkg> pmodel;
};
Str cut(Str t) { if (t.size() && W(3) == 0) t.resize(W((uint32_t)t.size())); return t; }
int fam_own = -1, fam_shared = -1, fam_type = -1;            // a run in which every thread does the same kind of work
int some_type(bool all) { return fam_type >= 0 ? fam_type : gen_type(all); }
Op own_op() {
    Op o;
    switch (fam_own >= 0 ? fam_own : (int)W(8)) {
    default: {
        int type = some_type(true), what = W(3);
        Str text = type == SR_REPORT_CORE ? json_text_of(gen_trace(type, 3, 6)) : render(type).text;
        text = cut(text);
        if (type == SR_REPORT_CORE) { o.name = "json core"; o.fn = [=] { return json_all(type, text); }; }
        else { o.name = Str("parse ") + type_name(type); o.fn = [=] { return parse_all(type, text, what); }; }
        break;
    }
    case 3: { int type = some_type(false); Str js = cut(json_text_of(gen_trace(type, 3, 5))); o.name = Str("json ") + type_name(type); o.fn = [=] { return json_all(type, js); }; break; }
    case 4: { auto rep = report_to(gen_report(some_type(false))); Str js = cut(take(LIB(sr_report_to_json(rep)))); LIB(report_free_all(rep)); o.name = "report"; o.fn = [=] { return report_all(js); }; break; }
    case 5: {
        MTrace m = gen_trace(some_type(true), 3, 6); int what = W(32);
        o.name = Str("work on ") + type_name(m.type);
        o.fn = [=] { auto st = LIB(trace_to(m)); Str r = read_trace(st, what); for (auto t = LIB(sr_stacktrace_threads(st)); t; t = LIB(sr_thread_next(t))) LIB(sr_thread_normalize(t)); r += dig(trace_of(st)) + hashes(st); LIB(sr_stacktrace_free(st)); return r; };
        break;
    }
    case 6: {
        int what = W(7);
        Str a, b = gen_text();
        switch (what) {
        case 0: case 1: for (uint32_t i = W(7); i > 0; i--) a += pick_str({"NAME=", "ID=", "VERSION_ID=", "PRETTY_NAME=", "CPE_NAME="}) + pick_str({"Fedora", "\"Fedora Linux\"", "21", "'x y'", "\"a\\\"b\"", "cpe:/o:x:21"}) + "\n"; break;
        case 2: for (uint32_t i = W(6); i > 0; i--) a += "/usr/lib/x" + std::to_string(W(5)) + ".so p" + std::to_string(W(4)) + "-1:2." + std::to_string(W(3)) + "-3.x86_64 (Vendor Inc) 1390" + std::to_string(W(100)) + "\n"; break;
        case 3: b = "pkg-" + std::to_string(W(3)) + ":1." + std::to_string(W(9)) + "-2.fc21.x86_64"; break;
        case 6: for (uint32_t i = W(5); i > 0; i--) a += "0x4" + std::to_string(i) + "0000+0x1000 aabb" + std::to_string(W(9)) + "0@0x400274 /usr/lib/l" + std::to_string(W(9)) + ".so - mod" + std::to_string(W(9)) + "\n"; break;
        }
        o.name = "small " + std::to_string(what);
        o.fn = [=] { return small_all(a, b, what); };
        break;
    }
    case 7: {
        std::vector<MThread> v; int type = some_type(true), what = W(4);
        for (uint32_t i = 2 + W(3); i > 0; i--) { MTrace m = gen_trace(type, 1, 5); if (m.t.size()) v.push_back(m.t[0]); }
        if (v.size() < 2) v = {MThread(), MThread()};
        o.name = Str("distances ") + type_name(type);
        o.fn = [=] { std::vector<struct sr_thread*> t; for (auto& m : v) t.push_back(a_thread(type, m)); Str r = read_threads(t, what); for (auto x : t) LIB(sr_thread_free(x)); return r; };
        break;
    }
    }
    return o;
}
Op shared_op(const Shared& s) {
    Op o;
    switch (fam_shared >= 0 ? fam_shared : (int)W(5)) {
    default: { auto& t = s.traces[W((uint32_t)s.traces.size())]; auto st = t.second; int what = W(32); o.name = Str("read shared ") + type_name(t.first.type) + " " + std::to_string(what); o.fn = [=] { return read_trace(st, what); }; break; }
    case 3: { auto v = s.threads; int what = W(5); o.name = Str("compare shared ") + type_name(s.ttype); o.fn = [=] { return read_threads(v, what); }; break; }
    case 4: {
        auto rep = s.rep; auto p = s.pkgs; int what = W(3);
        o.name = "read shared report";
        o.fn = [=] {
            if (what == 0) return take(LIB(sr_report_to_json(rep)));
            if (what == 1) return dig(report_of(rep)) + hashes(rep->stacktrace);
            Str r = std::to_string(p ? LIB(sr_rpm_package_count(p)) : 0);
            for (auto a = p; a; a = a->next) for (auto b = p; b; b = b->next) r += std::to_string(LIB(sr_rpm_package_cmp(a, b)) > 0) + std::to_string(LIB(sr_rpm_package_cmp_nevra(a, b)) < 0);
            return r;
        };
        break;
    }
    }
    return o;
}
}

WORLD(threads) {
    uint32_t n = 2 + W(3);
    fam_own = fam_shared = fam_type = -1;
    if (W(3) == 0) { fam_own = W(8); if (W(2)) fam_shared = W(5); if (W(2)) fam_type = gen_type(false); }
    Shared s;
    for (uint32_t i = 1 + W(2); i > 0; i--) { MTrace m = gen_trace(gen_type(true), 3, 5); if (W(4) == 0) m.crash = -1; auto st = LIB(trace_to(m)); s.traces.push_back({trace_of(st), st}); }
    s.ttype = gen_type(true);
    for (uint32_t i = 2 + W(2); i > 0; i--) { MTrace m = gen_trace(s.ttype, 1, 4); MThread t; if (m.t.size()) t = m.t[0]; auto x = a_thread(s.ttype, t); s.threads.push_back(x); s.models.push_back(thread_of(x)); }
    { MReport r = gen_report(gen_type(false)); s.rep = LIB(report_to(r)); s.rmodel = report_of(s.rep); }
    for (uint32_t i = W(4); i > 0; i--) { auto p = LIB(pkg_to(gen_pkg())); s.pkgs = LIB(sr_rpm_package_append(s.pkgs, p)); }
    s.pmodel = pkgs_of(s.pkgs);
    // what each call returns when it runs alone
    std::vector<std::vector<Op>> ops(n);
    for (uint32_t i = 0; i < n; i++) {
        for (uint32_t k = 1 + W(3); k > 0; k--) {
            Op o = W(2) ? own_op() : shared_op(s);
            if (i && W(4) == 0) { auto& x = ops[W(i)]; o = x[W((uint32_t)x.size())]; }     // the same work in two threads
            ops[i].push_back(o);
        }
    }
    for (auto& v : ops) for (auto& o : v) {
        o.want = o.fn();
        if (W(4) == 0 && o.fn() != o.want) violation("alone-differs", "%s returns something else the second time", o.name.c_str());
    }
    if (W(2)) { statics_reset(); probe("cold_statics"); }        // the threads are the first to use the library
    shared_mem.clear();
    for (auto& b : ledger_blocks()) shared_mem.push_back({b.first, b.first + b.second});
    std::sort(shared_mem.begin(), shared_mem.end());
    size_t live = ledger_live();
    // all at once
    nontrivial();
    std::vector<std::function<void()>> jobs;
    for (uint32_t i = 0; i < n; i++) jobs.push_back([&, i] {
        for (auto& o : ops[i]) {
            ev("thread %u: %s", i, o.name.c_str());
            Str r = o.fn();
            if (r != o.want) {
                size_t k = 0; while (k < r.size() && k < o.want.size() && r[k] == o.want[k]) k++;
                k = k > 40 ? k - 40 : 0;
                violation("interference", "thread %u: %s returns ...%s instead of ...%s", i, o.name.c_str(), show(r.substr(k, 200)).c_str(), show(o.want.substr(k, 200)).c_str());
            }
        }
    });
    run_threads(jobs);
    if (hot_seen) probe("shared_memory_written");
    if (switches > 3) probe("several_switches");
    if (ledger_live() != live) violation("leak:threads", "%zu allocations more than before the threads ran", ledger_live() - live);
    // nothing changed
    for (auto& t : s.traces) { Str d = diff(t.first, trace_of(t.second)); if (d.size()) violation("shared-changed", "%s", d.c_str()); }
    for (size_t i = 0; i < s.threads.size(); i++) { Str d = diff(s.models[i], thread_of(s.threads[i]), "thread"); if (d.size()) violation("shared-changed", "%s", d.c_str()); }
    { Str d = diff(s.rmodel, report_of(s.rep)); if (d.size()) violation("shared-changed", "%s", d.c_str()); d = diff_pkgs(s.pmodel, pkgs_of(s.pkgs)); if (d.size()) violation("shared-changed", "%s", d.c_str()); }
    for (auto& v : ops) for (auto& o : v) if (W(3) == 0 && o.fn() != o.want) violation("after-differs", "%s returns something else after the threads ran", o.name.c_str());
    for (auto& t : s.traces) LIB(sr_stacktrace_free(t.second));
    for (auto t : s.threads) LIB(sr_thread_free(t));
    LIB(report_free_all(s.rep));
    LIB(sr_rpm_package_free(s.pkgs, true));
    state(switches * 1000003 + hash_str(ops[0][0].name));
}
