// S05: crash data damaged in storage or transport, given to every reader; what a reader
// returns is then used in full.
#include "damage.h"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <algorithm>
extern "C" {
#include "utils.h"
#include "abrt.h"
#include "normalize.h"
#include "distance.h"
#include "unstrip.h"
}
namespace sim {
const std::vector<std::pair<Str, Str>>& corpus() {
    static std::vector<std::pair<Str, Str>> c;
    if (c.empty()) {
        char exe[4096];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        Str dir(exe, n > 0 ? n : 0);
        for (int i = 0; i < 3; i++) dir = dir.substr(0, dir.rfind('/'));
        dir += "/corpus";
        std::vector<Str> names;
        DIR* d = opendir(dir.c_str());
        if (d) { while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name); closedir(d); }
        std::sort(names.begin(), names.end());
        for (auto& x : names) { std::ifstream f(dir + "/" + x, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); c.push_back({x, ss.str()}); }
        if (c.empty()) violation("harness:corpus", "no corpus in %s", dir.c_str());
    }
    return c;
}
Str damage_bytes(const Str& in) {
    Str s = in;
    if (s.empty()) return s;
    auto block = [&](size_t& b, size_t& l) {
        static const uint32_t sizes[] = {1, 2, 4, 8, 16, 64, 512, 4096};
        l = sizes[F(8)];
        b = F((uint32_t)s.size());
        if (l >= 512) b -= b % l;
        if (b + l > s.size()) l = s.size() - b;
    };
    size_t b, l, b2, l2;
    uint32_t rounds = 1 + F(3);
    for (uint32_t i = 0; i < rounds && !s.empty(); i++) {
        if (fault(F_TEAR)) s.resize(F((uint32_t)s.size() + 1));
        if (!s.empty() && fault(F_BITFLIP)) { uint32_t n = 1 + F(4); while (n--) { size_t p = F((uint32_t)s.size()); s[p] = s[p] ^ (1 << F(8)); } }
        if (!s.empty() && fault(F_BLOCK_ZERO)) { block(b, l); for (size_t k = 0; k < l; k++) s[b + k] = 0; }
        if (!s.empty() && fault(F_BLOCK_LOST)) { block(b, l); s.erase(b, l); }
        if (!s.empty() && fault(F_BLOCK_DUP)) { block(b, l); Str t = s.substr(b, l); uint32_t n = 1 + F(3); while (n--) s.insert(b, t); }
        if (!s.empty() && fault(F_BLOCK_SWAP)) { block(b, l); block(b2, l2); l = std::min(l, l2); for (size_t k = 0; k < l && b + k < s.size() && b2 + k < s.size(); k++) std::swap(s[b + k], s[b2 + k]); }
        if (!s.empty() && fault(F_INSERT)) {
            static const char* junk[] = {"\n", " ", "\"", "\\", "(", ")", "[", "]", "<", ">", "{", "}", "0x", "99999999999999999999999", "-1", "\t", ",", ":", "=", "-", ".", "'", "`", "\xff", "\x80", "#0  ", "Thread ", "at ", " from ", "ffffffffffffffff", "? ", "<unknown>", "\r\n", "null", "\n\n", "_Z", "@@"};
            uint32_t n = 1 + F(3);
            while (n--) s.insert(F((uint32_t)s.size() + 1), junk[F(sizeof junk / sizeof *junk)]);
        }
    }
    return s;
}
static void drop(char* s) { if (s) LIB(g_free(s)); }
static void use_thread(int type, struct sr_thread* t, bool whole) {
    int n = LIB(sr_thread_frame_count(t));
    if (n < 0) violation("damage:count", "a thread has %d frames", n);
    static const int flagsets[] = {SR_DUPHASH_NORMAL, SR_DUPHASH_NOHASH, SR_DUPHASH_NONORMALIZE | SR_DUPHASH_NOHASH, SR_DUPHASH_KOOPS_COMPAT | SR_DUPHASH_NORMAL};
    char pfx[] = "component";
    for (int fl : flagsets) drop(LIB(sr_thread_get_duphash(t, fl & 1 ? 3 : 0, fl & 2 ? pfx : nullptr, (enum sr_duphash_flags)fl)));
    GString* gs = LIB(g_string_new(nullptr));
    struct sr_frame* prev = nullptr;
    for (struct sr_frame* f = LIB(sr_thread_frames(t)); f; f = LIB(sr_frame_next(f))) {
        LIB(sr_frame_append_to_str(f, gs));
        if (LIB(sr_frame_cmp(f, f)) != 0) violation("damage:self-compare", "a %s frame differs from itself", type_name(type));
        if (LIB(sr_frame_cmp_distance(f, f)) != 0) probe("frame_distance_to_itself");
        if (prev) { int a = LIB(sr_frame_cmp(prev, f)), b = LIB(sr_frame_cmp(f, prev)); if ((a == 0) != (b == 0)) violation("damage:compare-asymmetric", "%s frames", type_name(type)); LIB(sr_frame_cmp_distance(prev, f)); }
        prev = f;
    }
    LIB(g_string_free(gs, TRUE));
    if (!whole) return;
    MThread before = thread_of(t);
    struct sr_thread* d = LIB(sr_thread_dup(t));
    Str df = diff(before, thread_of(d), "copy");
    if (!df.empty()) violation("damage:copy", "%s", df.c_str());
    bool multi = type == SR_REPORT_GDB || type == SR_REPORT_CORE || type == SR_REPORT_JAVA;
    if (multi && LIB(sr_thread_cmp(t, d)) != 0 ) violation("damage:copy-differs", "a %s thread differs from its copy", type_name(type));
    for (int k = 0; k < SR_DISTANCE_NUM && n < 40; k++) {
        if (k == SR_DISTANCE_DAMERAU_LEVENSHTEIN && n > 16) continue;
        LIB(sr_distance((enum sr_distance_type)k, t, d));
    }
    LIB(sr_thread_normalize(d));
    LIB(sr_thread_normalize(d));
    int m = LIB(sr_thread_frame_count(d));
    if (m > n) violation("damage:normalize-adds", "normalization made %d frames out of %d", m, n);
    if (type == SR_REPORT_GDB) {
        struct sr_gdb_thread* g = (struct sr_gdb_thread*)d;
        LIB(sr_glibc_thread_find_exit_frame(g));
        LIB(sr_gdb_normalize_optimize_thread(g));
        LIB(sr_normalize_gdb_paired_unknown_function_names((struct sr_gdb_thread*)t, g));
        int ok, all;
        LIB(sr_gdb_thread_quality_counts(g, &ok, &all));
        LIB(sr_gdb_thread_quality(g));
        drop(LIB(sr_gdb_thread_format_funs(g)));
        LIB(sr_gdb_thread_remove_frames_below_n(g, 2));
    }
    while (struct sr_frame* f = LIB(sr_thread_frames(d))) {
        struct sr_frame* s = LIB(sr_frame_next(f));
        bool ok = s && (m & 1) ? LIB(sr_thread_remove_frames_above(d, s)) : LIB(sr_thread_remove_frame(d, f));
        if (!ok) violation("damage:remove", "a frame of a %s thread cannot be removed", type_name(type));
    }
    LIB(sr_thread_free(d));
    if (type != SR_REPORT_GDB) { df = diff(before, thread_of(t), "original"); if (!df.empty()) violation("damage:use-changes", "using a copy changed the original: %s", df.c_str()); }
}
static void free_copy(int type, struct sr_stacktrace* d) { (void)type; LIB(sr_stacktrace_free(d)); }
void use_fully(struct sr_stacktrace* st) {
    int type = st->type;
    MTrace before = trace_of(st);
    drop(LIB(sr_stacktrace_to_short_text(st, 5)));
    drop(LIB(sr_stacktrace_to_short_text(st, 0)));
    drop(LIB(sr_stacktrace_get_reason(st)));
    drop(LIB(sr_stacktrace_get_bthash(st, SR_BTHASH_NORMAL)));
    drop(LIB(sr_stacktrace_get_bthash(st, SR_BTHASH_NOHASH)));
    char* json = LIB(sr_stacktrace_to_json(st));
    if (type != SR_REPORT_GDB) {
        if (!json) violation("damage:no-json", "a %s stack trace has no JSON form", type_name(type));
        char* err = nullptr;
        struct sr_stacktrace* re = LIB(sr_stacktrace_from_json_text((enum sr_report_type)type, json, &err));
        if (!re && !err) violation("damage:no-message", "%s JSON refused without a message", type_name(type));
        if (re && err) violation("damage:message-on-success", "%s", err);
        if (re) LIB(sr_stacktrace_free(re)); else probe("own_json_refused");
        drop(err);
    }
    drop(json);
    Str df = diff(before, trace_of(st));
    if (!df.empty()) violation("damage:use-changes", "reading a %s stack trace changed it: %s", type_name(type), df.c_str());
    struct sr_thread* crash = LIB(sr_stacktrace_find_crash_thread(st));
    bool seen = !crash;
    int nt = 0;
    for (struct sr_thread* t = LIB(sr_stacktrace_threads(st)); t; t = LIB(sr_thread_next(t))) {
        if (t == crash) seen = true;
        use_thread(type, t, nt < 3 || t == crash);
        if (++nt > 100000) violation("damage:endless", "the thread list does not end");
    }
    if (!seen) violation("damage:crash-thread", "the crash thread of a %s stack trace is not one of its threads", type_name(type));
    switch (type) {
    case SR_REPORT_GDB: {
        struct sr_gdb_stacktrace* g = (struct sr_gdb_stacktrace*)st;
        LIB(sr_gdb_stacktrace_quality_simple(g));
        LIB(sr_gdb_stacktrace_quality_complex(g));
        drop(LIB(sr_gdb_stacktrace_to_text(g, false)));
        drop(LIB(sr_gdb_stacktrace_to_text(g, true)));
        struct sr_gdb_frame* cf = LIB(sr_gdb_stacktrace_get_crash_frame(g));
        if (cf) LIB(sr_gdb_frame_free(cf)); else probe("no_crash_frame");
        struct sr_gdb_stacktrace* d = LIB(sr_gdb_stacktrace_dup(g));
        df = diff(trace_of(st), trace_of((struct sr_stacktrace*)d), "copy");
        if (!df.empty()) violation("damage:copy", "%s", df.c_str());
        LIB(sr_gdb_stacktrace_set_libnames(d));
        if (d->threads) {
            struct sr_gdb_thread* o = LIB(sr_gdb_thread_get_optimized(d->threads, d->libs, 5));
            if (o) LIB(sr_gdb_thread_free(o));
            if (d->libs) for (struct sr_gdb_frame* f = d->threads->frames; f; f = f->next) LIB(sr_gdb_sharedlib_find_address(d->libs, f->address));
        }
        LIB(sr_normalize_gdb_stacktrace(d));
        LIB(sr_gdb_stacktrace_limit_frame_depth(d, 2));
        drop(LIB(sr_gdb_stacktrace_to_text(d, true)));
        struct sr_gdb_thread* c = LIB(sr_gdb_stacktrace_find_crash_thread(d));
        if (c) LIB(sr_gdb_stacktrace_remove_threads_except_one(d, c));
        LIB(sr_gdb_stacktrace_free(d));
        break;
    }
    case SR_REPORT_CORE: {
        struct sr_core_stacktrace* c = (struct sr_core_stacktrace*)st;
        struct sr_core_stacktrace* d = LIB(sr_core_stacktrace_dup(c));
        struct sr_core_thread* ct = LIB(sr_core_stacktrace_find_crash_thread(d));
        bool own = !ct;
        for (struct sr_core_thread* t = d->threads; t; t = t->next) own = own || t == ct;
        if (!own) violation("damage:copy-shares", "the crash thread of a copied core stack trace belongs to the original");
        free_copy(type, (struct sr_stacktrace*)d);
        break;
    }
    case SR_REPORT_JAVA: {
        struct sr_java_stacktrace* d = LIB(sr_java_stacktrace_dup((struct sr_java_stacktrace*)st));
        free_copy(type, (struct sr_stacktrace*)d);
        break;
    }
    case SR_REPORT_KERNELOOPS: {
        struct sr_koops_stacktrace* d = LIB(sr_koops_stacktrace_dup((struct sr_koops_stacktrace*)st));
        LIB(sr_normalize_koops_stacktrace(d));
        drop(LIB(sr_koops_stacktrace_get_reason(d)));
        free_copy(type, (struct sr_stacktrace*)d);
        break;
    }
    default: break;
    }
}
}
using namespace sim;
struct Exact { // exactly sized copy: a read one byte past the terminator is caught
    char* p; Str orig;
    explicit Exact(const Str& s) : orig(s.c_str()) { p = (char*)malloc(orig.size() + 1); memcpy(p, orig.c_str(), orig.size() + 1); }
    void check(const char* what) { if (memcmp(p, orig.c_str(), orig.size() + 1)) violation("damage:input-changed", "%s changed its input", what); }
    ~Exact() { free(p); }
};
static void report_use(struct sr_report* r) {
    char* j = LIB(sr_report_to_json(r));
    if (!j) violation("damage:report-json", "an accepted report cannot be written");
    char* err = nullptr;
    struct sr_report* r2 = LIB(sr_report_from_json_text(j, &err));
    if (!r2) { if (!err) violation("damage:no-message", "own report JSON refused without a message"); probe("own_report_json_refused"); drop(err); }
    else { if (err) violation("damage:message-on-success", "%s", err); report_free_all(r2); }
    drop(j);
    if (r->stacktrace) use_fully(r->stacktrace);
    if (r->rpm_packages) {
        drop(LIB(sr_rpm_package_to_json(r->rpm_packages, true)));
        r->rpm_packages = LIB(sr_rpm_package_sort(r->rpm_packages));
        r->rpm_packages = LIB(sr_rpm_package_uniq(r->rpm_packages));
    }
}
static void free_libs(struct sr_gdb_sharedlib* l) { while (l) { auto n = l->next; LIB(sr_gdb_sharedlib_free(l)); l = n; } }
static void use_packages(struct sr_rpm_package* p) {
    for (auto q = p; q; q = q->next) {
        if (!q->name || !q->version || !q->release || !q->architecture) violation("damage:partial-package", "a package without %s", !q->name ? "name" : !q->version ? "version" : !q->release ? "release" : "architecture");
        for (auto z = p; z; z = z->next) { LIB(sr_rpm_package_cmp(q, z)); LIB(sr_rpm_package_cmp_nvr(q, z)); LIB(sr_rpm_package_cmp_nevra(q, z)); }
    }
    if (p) drop(LIB(sr_rpm_package_to_json(p, true)));
    if (p) p = LIB(sr_rpm_package_sort(p));
    if (p) p = LIB(sr_rpm_package_uniq(p));
    LIB(sr_rpm_package_free(p, true));
}
static void read_trace(int type, const Str& text, int api) {
    Exact e(text);
    char* err = nullptr;
    struct sr_stacktrace* st;
    if (api == 0 || type == SR_REPORT_CORE) {
        st = LIB(sr_stacktrace_parse((enum sr_report_type)type, e.p, &err));
        if (!st && (!err || !*err)) violation("damage:no-message", "a %s text was refused without a message", type_name(type));
        if (st && err) violation("damage:message-on-success", "%s", err);
        drop(err);
    } else {
        struct sr_location loc;
        sr_location_init(&loc);
        const char* in = e.p;
        st = LIB(parse_trace(type, &in, &loc));
        if (!st && (!loc.message || !*loc.message)) violation("damage:no-message", "a %s text was refused without a message", type_name(type));
        if (in < e.p || in > e.p + strlen(e.p)) violation("damage:cursor", "the reader's position left the text");
        if (!st) drop(LIB(sr_location_to_string(&loc)));
    }
    e.check("a stack trace reader");
    ev("%s text %zu: %s", type_name(type), text.size(), st ? "object" : "refused");
    if (st) { probe("object_from_text"); use_fully(st); e.check("using the object"); LIB(sr_stacktrace_free(st)); }
}
static void read_trace_json(int type, const Str& text, int api) {
    Exact e(text);
    char* err = nullptr;
    struct sr_stacktrace* st = api == 0 || type != SR_REPORT_CORE ? LIB(sr_stacktrace_from_json_text((enum sr_report_type)type, e.p, &err))
                                                                : (struct sr_stacktrace*)LIB(sr_core_stacktrace_from_json_text(e.p, &err));
    if (!st && (!err || !*err)) violation("damage:no-message", "%s JSON was refused without a message", type_name(type));
    if (st && err) violation("damage:message-on-success", "%s", err);
    drop(err);
    e.check("a JSON reader");
    ev("%s json %zu: %s", type_name(type), text.size(), st ? "object" : "refused");
    if (st) { probe("object_from_json"); use_fully(st); LIB(sr_stacktrace_free(st)); }
}
static Str dso_text() {
    Str t;
    uint32_t n = W(8);
    for (uint32_t i = 0; i < n; i++) {
        t += "/usr/lib64/lib" + gen_ident() + ".so.1 " + gen_ident() + "-" + (W(3) == 2 ? std::to_string(W(30)) + ":" : "") + std::to_string(W(30)) + "." + std::to_string(W(30)) + "-" + std::to_string(W(30)) + ".fc" + std::to_string(W(30)) + "." +
             pick_str({"x86_64", "i686", "noarch"}) + " (Fedora Project) " + std::to_string(1400000000u + W(100000000)) + "\n";
    }
    return t;
}
static Str os_release() {
    Str t;
    static const char* keys[] = {"ID", "VERSION_ID", "VERSION", "CPE_NAME", "VARIANT_ID", "NAME", "PRETTY_NAME", "ANSI_COLOR", "BUG_REPORT_URL"};
    uint32_t n = W(12);
    for (uint32_t i = 0; i < n; i++) {
        if (W(8) == 7) { t += pick_str({"# comment\n", "\n", "=x\n", "garbage\n"}); continue; }
        const char* k = keys[W(9)];
        Str v = !strcmp(k, "VERSION") ? pick_str({"20 (Heisenbug)", "24 (Rawhide)", ""}) : !strcmp(k, "CPE_NAME") ? "cpe:/o:fedoraproject:fedora:20" : gen_ident();
        static const char* q[] = {"", "\"", "'"};
        const char* qq = q[W(3)];
        if (W(5) == 4) v += pick_str({"\\\"", "\\n", "\\$", "\\`", "'", " "});
        t += Str(k) + "=" + qq + v + qq + "\n";
    }
    return t;
}
static Str unstrip() {
    Str t;
    uint32_t n = W(8);
    for (uint32_t i = 0; i < n; i++) {
        t += "0x" + hex(W64()) + "+0x" + hex(W(0x1000000)) + " ";
        t += W(4) == 3 ? Str("-") : hex(W64()) + hex(W64()) + (W(2) ? "@0x" + hex(W64()) : "");
        t += " " + pick_str({"/usr/bin/will_abort", "-", ".", "/usr/lib64/libc-2.13.so"}) + " " + pick_str({"-", "/usr/lib/debug/x.debug"}) + " " + pick_str({"[exe]", "libc.so.6", "linux-vdso.so.1"}) + "\n";
    }
    return t;
}
static Str nevra() {
    return gen_ident() + pick_str({"-", "", "-lib-"}) + pick_str({"1:", "", "0:", "4294967295:", "4294967296:"}) + pick_str({"2.0", "", "1"}) + pick_str({"-", ""}) + pick_str({"3.fc20", "", "7"}) + pick_str({".", ""}) + pick_str({"x86_64", "", "noarch"});
}
static Str gdb_libs() {
    Str t = "From                To                  Syms Read   Shared Object Library\n";
    uint32_t n = W(6);
    for (uint32_t i = 0; i < n; i++) {
        t += W(4) == 3 ? "                                        " : "0x" + hex(0x3000000000ULL + W(1000000)) + "  0x" + hex(0x3000000000ULL + W(10000000)) + "  ";
        t += pick_str({"Yes         ", "No          ", "Yes (*)     "}) + "/lib64/lib" + gen_ident() + ".so.1\n";
    }
    return t + "$1 = 0x0\n";
}
static void pieces(int type, const Str& text) { // the readers of parts, at any place of a text
    Exact e(text);
    size_t len = strlen(e.p);
    uint32_t n = 1 + F(6);
    for (uint32_t i = 0; i < n; i++) {
        const char* start = e.p + F((uint32_t)len + 1);
        if (F(2)) while (start > e.p && start[-1] != '\n') start--;
        const char* in = start;
        struct sr_location loc;
        sr_location_init(&loc);
        uint32_t which = F(4);
        switch (type) {
        case SR_REPORT_GDB:
            if (which == 0) { auto f = LIB(sr_gdb_frame_parse(&in, &loc)); if (f) { GString* s = LIB(g_string_new(nullptr)); LIB(sr_gdb_frame_append_to_str(f, s, true)); LIB(g_string_free(s, TRUE)); LIB(sr_gdb_frame_free(f)); } else if (!loc.message) violation("damage:no-message", "gdb frame"); }
            else if (which == 1) { auto t = LIB(sr_gdb_thread_parse(&in, &loc)); if (t) LIB(sr_gdb_thread_free(t)); else if (!loc.message) violation("damage:no-message", "gdb thread"); }
            else if (which == 2) { auto f = LIB(sr_gdb_frame_parse_header(&in, &loc)); if (f) LIB(sr_gdb_frame_free(f)); else if (!loc.message) violation("damage:no-message", "gdb frame header"); }
            else { struct sr_gdb_frame* f = nullptr; if (LIB(sr_gdb_stacktrace_parse_header(&in, &f, &loc)) && f) LIB(sr_gdb_frame_free(f)); }
            break;
        case SR_REPORT_PYTHON: { auto f = LIB(sr_python_frame_parse(&in, &loc)); if (f) LIB(sr_python_frame_free(f)); else if (!loc.message) violation("damage:no-message", "python frame"); break; }
        case SR_REPORT_RUBY: { auto f = LIB(sr_ruby_frame_parse(&in, &loc)); if (f) LIB(sr_ruby_frame_free(f)); else if (!loc.message) violation("damage:no-message", "ruby frame"); else LIB(g_free((void *)loc.message)); break; }
        case SR_REPORT_JAVASCRIPT: { auto f = LIB(sr_js_frame_parse(&in, &loc)); if (f) LIB(sr_js_frame_free(f)); else if (!loc.message) violation("damage:no-message", "js frame"); break; }
        case SR_REPORT_JAVA:
            if (which & 1) { auto f = LIB(sr_java_frame_parse(&in, &loc)); if (f) LIB(sr_java_frame_free_full(f)); else if (!loc.message) violation("damage:no-message", "java frame"); }
            else { auto t = LIB(sr_java_thread_parse(&in, &loc)); if (t) LIB(sr_java_thread_free(t)); else if (!loc.message) violation("damage:no-message", "java thread"); }
            break;
        case SR_REPORT_KERNELOOPS:
            if (which & 1) { auto f = LIB(sr_koops_frame_parse(&in)); if (f) LIB(sr_koops_frame_free(f)); }
            else { char** m = LIB(sr_koops_stacktrace_parse_modules(&in)); if (m) { for (char** x = m; *x; x++) LIB(g_free(*x)); LIB(g_free(m)); } }
            break;
        }
        if (in < e.p || in > e.p + len) violation("damage:cursor", "a part reader's position left the text");
        e.check("a part reader");
    }
}
static int corpus_type(const Str& name) {
    if (!name.compare(0, 4, "gdb-")) return SR_REPORT_GDB;
    if (!name.compare(0, 5, "java-")) return SR_REPORT_JAVA;
    if (!name.compare(0, 3, "js-")) return SR_REPORT_JAVASCRIPT;
    if (!name.compare(0, 7, "python-")) return SR_REPORT_PYTHON;
    if (!name.compare(0, 5, "ruby-")) return SR_REPORT_RUBY;
    if (!name.compare(0, 6, "koops-")) return SR_REPORT_KERNELOOPS;
    return -1;
}
WORLD(damage) {
    static const int types[] = {SR_REPORT_GDB, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT};
    uint32_t kind = W(16);
    if (kind >= 14) kind = 0;
    int type = types[W(6)];
    Str text;
    switch (kind) {
    case 0: case 1: case 2: text = render(type).text; break;
    case 3: case 4: { // a real sample
        auto& c = corpus();
        auto& x = c[W((uint32_t)c.size())];
        type = corpus_type(x.first);
        text = x.second;
        break;
    }
    case 5: { static const int jt[] = {SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT}; type = jt[W(6)]; text = json_write(jval_of(gen_trace(type)), JStyle()); break; }
    case 6: type = gen_type(false); text = json_write(jval_of(gen_report(type)), JStyle()); break;
    case 7: text = os_release(); break;
    case 8: text = W(3) == 2 ? "Red Hat Enterprise Linux Server release 6.2 (Santiago)" : gen_ident() + " Linux release " + pick_str({"20", "20.1", "", "Rawhide", "7.1.1503"}) + pick_str({" (Core)", "", "\n"}); break;
    case 9: text = unstrip(); break;
    case 10: text = dso_text(); break;
    case 11: text = nevra(); break;
    case 12: text = pick_str({"", "Thread\n"}); for (uint32_t i = 0, n = W(8); i < n; i++) text += gen_ident() + pick_str({"\n", " \n", " lib" "x.so\n", "", "\nThread\n"}); break;
    case 13: text = gdb_libs(); break;
    }
    plan_faults({F_TEAR, F_BITFLIP, F_BLOCK_ZERO, F_BLOCK_LOST, F_BLOCK_DUP, F_BLOCK_SWAP, F_INSERT}, 10);
    uint32_t rounds = 1 + W(6);
    for (uint32_t k = 0; k < rounds; k++) {
        Str d = damage_bytes(text);
        if (d != text) nontrivial();
        state(hash_str(d));
        uint32_t api = W(3);
        switch (kind) {
        case 0: case 1: case 2: case 3: case 4:
            if (type < 0) { // a JSON sample
                Exact e(d);
                if (api == 2) { static const int jt[] = {SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT}; read_trace_json(jt[W(6)], d, 0); }
                goto report;
            }
            if (api == 2) pieces(type, d);
            // the kind of a file can be wrong too
            if (W(12) == 11) type = types[W(6)];
            read_trace(type, d, api);
            break;
        case 5: read_trace_json(type, d, api); break;
        case 6: report: {
            Exact e(d);
            char* err = nullptr;
            struct sr_report* r = LIB(sr_report_from_json_text(e.p, &err));
            if (!r && (!err || !*err)) violation("damage:no-message", "report JSON was refused without a message");
            if (r && err) violation("damage:message-on-success", "%s", err);
            drop(err);
            e.check("the report reader");
            ev("report %zu: %s", d.size(), r ? "object" : "refused");
            if (r) { probe("object_from_report"); report_use(r); report_free_all(r); }
            break;
        }
        case 7: {
            Exact e(d);
            struct sr_operating_system* os = LIB(sr_operating_system_new());
            bool ok = LIB(sr_operating_system_parse_etc_os_release(e.p, os));
            if (ok && (!os->name || !os->version)) violation("damage:os", "accepted without %s", os->name ? "version" : "name");
            if (api == 1) { Exact e2(damage_bytes(text)); LIB(sr_operating_system_parse_etc_os_release(e2.p, os)); } // read again after a change
            if (os->name && os->version) drop(LIB(sr_operating_system_to_json(os)));
            LIB(sr_operating_system_free(os));
            e.check("the os-release reader");
            ev("os-release %d", ok);
            break;
        }
        case 8: {
            Exact e(d);
            char *name = nullptr, *version = nullptr;
            bool ok = LIB(sr_operating_system_parse_etc_system_release(e.p, &name, &version));
            if (ok && (!name || !*name || !version)) violation("damage:system-release", "accepted without %s", version ? "name" : "version");
            if (!ok && (name || version)) violation("damage:system-release-out", "refused but returned %s", name ? "a name" : "a version");
            drop(name); drop(version);
            e.check("the system-release reader");
            ev("system-release %d", ok);
            break;
        }
        case 9: {
            Exact e(d);
            struct sr_unstrip_entry* u = LIB(sr_unstrip_parse(e.p));
            for (auto x = u; x; x = x->next) {
                if (!x->build_id || !x->file_name || !x->mod_name) violation("damage:unstrip", "an entry with a missing text");
                LIB(sr_unstrip_find_address(u, x->start));
            }
            LIB(sr_unstrip_find_address(u, W64()));
            if (api) {
                Str g = render(SR_REPORT_GDB).text;
                Exact ge(damage_bytes(g));
                struct sr_core_stacktrace* c = LIB(sr_core_stacktrace_create(ge.p, e.p, "/usr/bin/x"));
                if (c) { probe("core_from_gdb"); use_fully((struct sr_stacktrace*)c); LIB(sr_core_stacktrace_free(c)); }
                ge.check("creating a core stack trace");
            }
            LIB(sr_unstrip_free(u));
            e.check("the unstrip reader");
            ev("unstrip %d", u != nullptr);
            break;
        }
        case 10: {
            Exact e(d);
            struct sr_rpm_package* p = LIB(sr_abrt_parse_dso_list(e.p));
            ev("dso list %d", p ? LIB(sr_rpm_package_count(p)) : 0);
            use_packages(p);
            e.check("the dso_list reader");
            break;
        }
        case 11: {
            Exact e(d);
            struct sr_rpm_package* p = LIB(sr_rpm_package_new());
            bool ok = api == 2 ? LIB(sr_rpm_package_parse_nvr(e.p, &p->name, &p->version, &p->release)) : LIB(sr_rpm_package_parse_nevra(e.p, &p->name, &p->epoch, &p->version, &p->release, &p->architecture));
            if (ok && (!p->name || !p->version || !p->release || (api != 2 && !p->architecture))) violation("damage:partial-package", "a package name was accepted in part");
            // what a caller does on failure: release the package (see sr_abrt_parse_dso_list)
            LIB(sr_rpm_package_free(p, true));
            e.check("the package name reader");
            ev("nevra %d", ok);
            break;
        }
        case 12: {
            Exact e(d);
            struct sr_gdb_thread* t = LIB(sr_gdb_thread_parse_funs(e.p));
            e.check("the function list reader");
            if (t) { use_thread(SR_REPORT_GDB, (struct sr_thread*)t, true); drop(LIB(sr_gdb_thread_format_funs(t))); LIB(sr_gdb_thread_free(t)); }
            ev("funs %d", t != nullptr);
            break;
        }
        case 13: {
            Exact e(d);
            struct sr_gdb_sharedlib* l = LIB(sr_gdb_sharedlib_parse(e.p));
            e.check("the shared library reader");
            int n = LIB(sr_gdb_sharedlib_count(l));
            if (l) { struct sr_gdb_sharedlib* c = LIB(sr_gdb_sharedlib_dup(l, true)); if (LIB(sr_gdb_sharedlib_count(c)) != n) violation("damage:copy", "shared libraries"); LIB(sr_gdb_sharedlib_find_address(l, W64())); free_libs(c); }
            free_libs(l);
            ev("libs %d", n);
            break;
        }
        }
    }
}
