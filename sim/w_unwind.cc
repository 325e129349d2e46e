// S08: core dumps and debugger listings.  S07: the crash handler's live unwinding.
#include "unwind.h"
extern "C" {
#include "core/unwind.h"
#include "abrt.h"
#include "gdb/stacktrace.h"
}
using namespace sim;

static Str compare(const UImage& im, const MTrace& got, bool faulty, bool hook, int tid) {
    if (got.s.count("?")) return got.s.at("?");
    if (hook) {
        if (got.t.size() != 1) return std::to_string(got.t.size()) + " threads, there is one crashing thread";
        for (auto& t : im.t) if (t.tid == tid) return check_unwound(im, t, got.t[0]);
        return "no such thread";
    }
    if (got.t.size() > im.t.size()) return std::to_string(got.t.size()) + " threads, the dump has " + std::to_string(im.t.size());
    for (size_t i = 0; i < got.t.size(); i++) { Str x = check_unwound(im, im.t[i], got.t[i]); if (x.size()) return x; }
    return "";
}
struct ListedFrame { uint64_t pc; Str fn; bool handler; };
static Str gdb_listing(const UImage& im, MTrace& want, uint32_t& frames, std::vector<std::vector<ListedFrame>>& full) {
    Str t = "Core was generated by `x'.\nProgram terminated with signal 11, Segmentation fault.\n";
    if (W(2) && im.t[0].f.size()) { char b[160]; snprintf(b, sizeof b, "#0  0x%016llx in fn0 (a=1) from /lib/x.so\n", (unsigned long long)im.t[0].f[0].pc); t += b; }
    t += "\n";
    std::vector<size_t> order;
    for (size_t i = 0; i < im.t.size(); i++) order.push_back(im.t.size() - 1 - i);
    want = MTrace(); want.type = SR_REPORT_CORE;
    frames = 0;
    for (size_t k : order) {
        const UThread& th = im.t[k];
        MThread mt;
        full.push_back({});
        Str body;
        uint32_t n = 0;
        for (auto& f : th.f) {
            char b[160];
            if (n && f.activation && W(2)) { snprintf(b, sizeof b, "#%u  <signal handler called>\n", n++); body += b; full.back().push_back({0, "", true}); }
            bool noaddr = n == 0 && W(4) == 0;
            MFrame m = resolved(im, f.pc, true);
            if (noaddr) { snprintf(b, sizeof b, "#%u  fn%u (a=1) at x.c:%u\n", n, n, n + 1); m = resolved(im, NOADDR, true); }
            else snprintf(b, sizeof b, "#%u  0x%016llx in fn%u (a=1) from /lib/x.so\n", n, (unsigned long long)f.pc, n);
            body += b;
            full.back().push_back({noaddr ? NOADDR : f.pc, "fn" + std::to_string(n), false});
            n++;
            m.n["noaddr"] = noaddr;
            mt.f.push_back(m);
        }
        if (!n) { body = "#0  0x0000000000000010 in ?? ()\n"; MFrame m = resolved(im, 0x10, true); m.n["noaddr"] = 0; mt.f.push_back(m); full.back().push_back({0x10, "", false}); }
        t += "Thread " + std::to_string(k + 1) + " (LWP " + std::to_string(th.tid) + "):\n" + body;
        if (W(3)) t += "\n";
        if (mt.f.size() > 256) mt.f.erase(mt.f.begin(), mt.f.end() - 256);
        frames += (uint32_t)mt.f.size();
        want.t.push_back(mt);
    }
    return t;
}
static Str hexid(const UMod& m) { Str h; char b[3]; for (unsigned char c : m.build_id) { snprintf(b, sizeof b, "%02x", c); h += b; } return h; }
static Str unstrip_listing(const UImage& im) {
    Str t;
    if (W(4) == 0) t += "\n";
    for (auto& m : im.mods) {
        Str id = m.build_id.size() ? hexid(m) : Str("-");
        Str file = m.path.size() ? m.path : Str(".");
        for (auto& c : file) if (c == ' ') c = '_';
        char b[100];
        snprintf(b, sizeof b, "0x%llx+0x%llx ", (unsigned long long)m.start, (unsigned long long)(m.end - m.start));
        t += b;
        if (m.build_id.size()) snprintf(b, sizeof b, "@0x%llx", (unsigned long long)m.start + 0x274); else b[0] = 0;
        t += id + b + " " + file + " - " + m.name + "\n";
    }
    return t;
}
// what attaching the listing to the module map means
static MFrame attached(const UImage& im, uint64_t pc) {
    MFrame f = resolved(im, pc, true);
    f.s.clear();
    bool in = false;
    for (auto& m : im.mods) if (pc >= m.start && pc < m.end) {
        in = true;
        if (m.build_id.size()) f.s["build_id"] = hexid(m);
        f.s["file_name"] = m.path.size() ? m.path : Str(".");
        for (auto& c : f.s["file_name"]) if (c == ' ') c = '_';
        break;
    }
    if (!in) f.n["build_id_offset"] = NOADDR;
    return f;
}
static int crash_index(const Str& text) {
    const char* p = text.c_str(); struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_stacktrace* g = LIB(sr_gdb_stacktrace_parse(&p, &loc));
    if (!g) return -2;
    struct sr_gdb_thread* c = LIB(sr_gdb_stacktrace_find_crash_thread(g));
    int i = 0, r = -1;
    for (auto t = g->threads; t; t = t->next, i++) if (t == c) r = i;
    LIB(sr_gdb_stacktrace_free(g));
    return r;
}

struct Dump { std::vector<std::vector<ListedFrame>> gdb_full; UImage* im; Str core, exe; bool torn = false, damaged = false, bad = false, missing = false; Str gdb, unstrip; MTrace gdb_want; uint32_t gdb_frames = 0; int gdb_crash = -1; };
static void finish(const char* what, size_t before) {
    if (live_sessions()) violation("leak:session", "%s leaves %zu unwinder sessions behind", what, live_sessions());
    if (fs.open_fds()) violation("leak:fd", "%s leaves %zu files open", what, fs.open_fds());
    if (ledger_live() != before) violation("leak:memory", "%s leaves %zu allocations behind", what, ledger_live() - before);
}

static void attach_listing(Dump& x) {
    size_t before = ledger_live();
    UImage& im = *x.im;
    ev("attach listing of dump %d", im.id);
    Str gdb = x.gdb, un = x.unstrip;
    bool torn = false;
    if (!mode_clean() && W(4) == 0) { un.resize(W((uint32_t)un.size() + 1)); torn = true; count_fault(F_TEAR); nontrivial(); }
    struct sr_core_stacktrace* st = LIB(sr_core_stacktrace_create(gdb.c_str(), un.c_str(), x.exe.c_str()));
    if (!st) {
        if (!torn && x.gdb_crash != -2) violation("core:attach-refused", "sr_core_stacktrace_create refused an intact listing");
        finish("sr_core_stacktrace_create", before);
        return;
    }
    MTrace got = trace_of((struct sr_stacktrace*)st);
    Str bad = got.s.count("?") ? got.s["?"] : Str();
    if (got.t.size() != x.gdb_full.size()) bad = std::to_string(got.t.size()) + " threads, the listing has " + std::to_string(x.gdb_full.size());
    size_t i = 0;
    for (auto t = st->threads; t && bad.empty(); t = t->next, i++) {
        auto& w = x.gdb_full[i];
        std::vector<MFrame> g;
        for (auto& f : got.t[i].f) g.push_back(f);
        std::vector<ListedFrame> want;
        for (auto& f : w) if (!f.handler || g.size() == w.size()) want.push_back(f);        // a frame of the debugger's own may be left out
        Str at = "listed thread " + std::to_string(i);
        if (g.size() != want.size()) { bad = at + ": " + std::to_string(g.size()) + " frames, the listing has " + std::to_string(w.size()); break; }
        for (size_t j = 0; j < g.size() && bad.empty(); j++) {
            Str fat = at + " frame " + std::to_string(j);
            if (want[j].handler) { if (g[j].s.count("build_id") || g[j].s.count("function_name")) bad = fat + ": details for a signal handler frame"; continue; }
            MFrame e = attached(im, want[j].pc);
            if (want[j].fn.size()) e.s["function_name"] = want[j].fn;
            g[j].n.erase("fingerprint_hashed");
            if (g[j].s.count("build_id") && g[j].s["build_id"].empty()) g[j].s.erase("build_id");
            if (torn) {
                if (g[j].n["address"] != e.n["address"] || g[j].s["function_name"] != e.s["function_name"]) bad = fat + ": not the listed frame";
                continue;
            }
            bad = diff(e, g[j], fat);
        }
        int tid = im.t[im.t.size() - 1 - i].tid;
        if (bad.empty() && t->id != tid) bad = at + " has id " + std::to_string((long long)t->id);
    }
    if (bad.empty() && got.crash != x.gdb_crash) bad = "the crash thread is number " + std::to_string(got.crash) + ", in the listing it is " + std::to_string(x.gdb_crash);
    if (bad.empty() && (!got.s.count("executable") || got.s["executable"] != x.exe)) bad = "the executable is missing or wrong";
    if (bad.size()) violation("core:attach", "sr_core_stacktrace_create of dump %d: %s", im.id, bad.c_str());
    LIB(sr_core_stacktrace_free(st));
    finish("sr_core_stacktrace_create", before);
}

WORLD(core) {
    fs.passthrough_memfd = true;
    plan_faults({F_OPEN_ERR, F_CLOSE_ERR, F_FILE_VANISHES, F_ACCESS_ERR, F_DWFL_ERR, F_DWFL_PARTIAL, F_ELF_ERR}, 60);
    unwind_reset();
    fs.mkdir("/v");
    uint32_t nd = 1 + W(3);
    std::vector<Dump> d(nd);
    for (uint32_t i = 0; i < nd; i++) {
        d[i].exe = "/v/bin" + std::to_string(i); d[i].core = "/v/core" + std::to_string(i);
        d[i].im = &gen_image(d[i].exe);
        Str bytes = d[i].im->core;
        if (!mode_clean()) switch (W(12)) {
        case 0: bytes.resize(W((uint32_t)bytes.size())); d[i].torn = true; count_fault(F_TEAR); break;
        case 1: { size_t a = W((uint32_t)bytes.size()); if (a >= 24 && a < 32) a = 64; bytes[a] ^= (char)(1 << W(8)); d[i].damaged = true; count_fault(F_BITFLIP); break; }
        case 2: { size_t a = 64 + W((uint32_t)bytes.size() - 64), n = 1 + W(200); for (size_t k = a; k < a + n && k < bytes.size(); k++) bytes[k] = 0; d[i].damaged = true; count_fault(F_BLOCK_ZERO); break; }
        default: break;
        }
        switch (W(20)) {
        case 0: bytes = "not an ELF file"; d[i].bad = true; break;
        case 1: if (bytes.size() > 64) { bytes[16] = 2; d[i].bad = true; } break;       // an executable, not a core
        case 2: fs.del(d[i].exe); d[i].im->exe_gone = true; break;
        case 3: d[i].missing = true; break;
        }
        if (!d[i].missing) fs.put(d[i].core, bytes);
        d[i].gdb = gdb_listing(*d[i].im, d[i].gdb_want, d[i].gdb_frames, d[i].gdb_full);
        d[i].gdb_crash = crash_index(d[i].gdb);
        d[i].unstrip = unstrip_listing(*d[i].im);
    }
    auto snap = fs.snapshot();
    uint32_t ops = 1 + W(5);
    if (ops > 1 || nd > 1) nontrivial();
    for (uint32_t k = 0; k < ops; k++) {
        Dump& x = d[W(nd)];
        UImage& im = *x.im;
        uint32_t kind = W(8) < 5 ? 0 : 1;
        if (!fs.has(x.exe)) im.exe_gone = true;
        if (kind == 1 && W(3) == 0) { attach_listing(x); continue; }
        reset_delivered();
        size_t before = ledger_live();
        uint32_t ff = faults_fired();
        char* err = nullptr;
        bool want_err = kind == 1 || W(5);
        struct sr_core_stacktrace* st;
        ev("%s dump %d", kind ? "listing of" : "unwind", im.id);
        if (kind == 0) st = LIB(sr_parse_coredump(x.core.c_str(), x.exe.c_str(), want_err ? &err : nullptr));
        else st = LIB(sr_core_stacktrace_from_gdb(x.gdb.c_str(), x.core.c_str(), x.exe.c_str(), &err));
        bool faulty = faults_fired() != ff || x.torn || x.damaged || !fs.has(x.core) || (!im.exe_gone && !fs.has(x.exe));
        if (faulty) nontrivial();
        const char* what = kind ? "sr_core_stacktrace_from_gdb" : "sr_parse_coredump";
        bool any_elf = false;
        for (auto& m : im.mods) if (m.path.size() && !(m.exe && im.exe_gone)) any_elf = true;
        if (!st) {
            if (want_err && !err) violation("core:silent-failure", "%s failed without a message", what);
            if (!faulty && !x.bad && !x.missing && any_elf && !(kind && x.gdb_crash == -2))
                violation("core:refused", "%s refused an intact dump: %s", what, err ? err : "");
        } else {
            if (err) violation("core:message-with-result", "%s succeeded and left the message %s", what, err);
            if (x.bad || x.missing) violation("core:invented", "%s succeeded on something that is no core dump", what);
            MTrace got = trace_of((struct sr_stacktrace*)st);
            if (!(x.damaged && !details_hurt()) || true) {
                Str bad;
                if (kind == 0) {
                    bad = compare(im, got, faulty, false, 0);
                    size_t full = im.t.size();
                    if (x.torn) { full = 0; for (auto e : im.note_end) if (e <= fs.get(x.core).size()) full++; }
                    if (bad.empty() && got.t.size() != full) bad = std::to_string(got.t.size()) + " threads, the dump has " + std::to_string(full);
                    if (bad.empty()) {
                        size_t i = 0;
                        for (auto t = st->threads; t; t = t->next, i++) if (t->id != im.t[i].tid) { bad = "thread " + std::to_string(i) + " has id " + std::to_string((long long)t->id) + ", should be " + std::to_string(im.t[i].tid); break; }
                    }
                    if (bad.empty() && !im.t.empty() && got.crash != 0) bad = "the crash thread is number " + std::to_string(got.crash) + ", should be the first";
                    if (bad.empty() && (!got.s.count("executable") || got.s["executable"] != x.exe)) bad = "executable is " + got.s["executable"];
                    if (bad.empty() && got.n["only_crash_thread"]) bad = "only_crash_thread is set";
                } else {
                    MTrace w = x.gdb_want;
                    if (w.t.size() != got.t.size()) bad = std::to_string(got.t.size()) + " threads, the listing has " + std::to_string(w.t.size());
                    for (size_t i = 0; i < w.t.size() && bad.empty(); i++) {
                        Str at = "listed thread " + std::to_string(i);
                        if (w.t[i].f.size() != got.t[i].f.size()) { bad = at + ": " + std::to_string(got.t[i].f.size()) + " frames, the listing has " + std::to_string(w.t[i].f.size()); break; }
                        for (size_t j = 0; j < w.t[i].f.size() && bad.empty(); j++) {
                            MFrame a = w.t[i].f[j], g = got.t[i].f[j];
                            bool noaddr = a.n["noaddr"];
                            uint64_t pc = a.n["address"];
                            Str fat = at + " frame " + std::to_string(j);
                            if (g.n["address"] != pc) { bad = fat + ": address " + hex(g.n["address"]) + ", listed " + hex(pc); break; }
                            if (noaddr) { if (g.s.count("build_id") || g.s.count("file_name") || g.s.count("function_name")) bad = fat + ": details for an unknown address"; continue; }
                            g.n.erase("fingerprint_hashed");
                            MFrame w1 = resolved(im, pc, true), w2 = resolved(im, pc, false);
                            if (details_hurt()) {
                                for (auto& kv : g.s) {
                                    bool ok = (w1.s.count(kv.first) && w1.s[kv.first] == kv.second) || (w2.s.count(kv.first) && w2.s[kv.first] == kv.second);
                                    if (kv.first == "file_name") for (auto& m : im.mods) ok |= m.name == kv.second;
                                    if (!ok) bad = fat + ": " + kv.first + " is \"" + kv.second + "\"";
                                }
                                continue;
                            }
                            if (j == 0) { Str e = diff(w1, g, fat); if (e.size()) bad = e; }
                            else { Str e1 = diff(w1, g, fat), e2 = diff(w2, g, fat); if (e1.size() && e2.size()) bad = e1; }
                        }
                    }
                    if (bad.empty() && got.crash != x.gdb_crash) bad = "the crash thread is number " + std::to_string(got.crash) + ", in the listing it is " + std::to_string(x.gdb_crash);
                    if (bad.empty() && (got.s.count("executable") ? got.s["executable"] != x.exe : !faulty && !im.exe_gone)) bad = "executable is " + (got.s.count("executable") ? got.s["executable"] : Str("missing"));
                    if (bad.empty()) {
                        size_t i = 0;
                        for (auto t = st->threads; t; t = t->next, i++) {
                            int tid = im.t[im.t.size() - 1 - i].tid;
                            if (t->id != tid) { bad = "listed thread " + std::to_string(i) + " has id " + std::to_string((long long)t->id) + ", listed " + std::to_string(tid); break; }
                        }
                    }
                }
                if (bad.empty() && !x.damaged) {
                    uint64_t s = got.n["signal"];
                    if (s != (uint64_t)im.sig && !(faulty && s == 0)) bad = "signal " + std::to_string(s) + ", the process was killed by " + std::to_string(im.sig);
                }
                if (bad.size()) violation(kind ? "core:listing" : "core:frames", "%s of dump %d: %s", what, im.id, bad.c_str());
            }
            state(model_hash(got));
            LIB(sr_core_stacktrace_free(st));
        }
        if (err) g_free(err);
        finish(what, before);
    }
    auto snap2 = fs.snapshot();
    for (auto& kv : snap2) if (!snap.count(kv.first) || snap[kv.first] != kv.second) violation("core:wrote", "%s changed", kv.first.c_str());
    if (!fs.written.empty()) violation("core:wrote", "unwinding wrote %s", fs.written.begin()->c_str());
    unwind_reset();
}

WORLD(hook) {
    plan_faults({F_OPEN_ERR, F_CLOSE_ERR, F_DWFL_ERR, F_DWFL_PARTIAL, F_PTRACE_ERR, F_WAIT_ERR, F_WAIT_EINTR, F_WAIT_STOP}, 40);
    unwind_reset();
    fs.mkdir("/v");
    uint32_t crashes = 1 + W(3);
    if (crashes > 1) nontrivial();
    for (uint32_t c = 0; c < crashes; c++) {
        UImage& im = gen_image("/v/bin" + std::to_string(c));
        UThread& th = im.t[W((uint32_t)im.t.size())];
        int tid = th.tid;
        crash_process(im, tid);
        // the kernel starts one crash handler per crash: a new process with the core on its standard input
        fs.stdin_open = true;
        fs.on_stdin_close = stdin_closed;
        reset_delivered();
        size_t before = ledger_live();
        uint32_t ff = faults_fired();
        char* err = nullptr;
        bool want_err = W(5) != 0;
        Str exe = W(6) ? im.exe : "";
        int sig = W(8) ? im.sig : (int)W(3) - 1;
        struct sr_core_stacktrace* st = nullptr;
        bool wrong_tid = W(20) == 0;
        int ask = wrong_tid ? tid + 7777 : tid;
        ev("crash of thread %d, signal %d", tid, sig);
        bool as_json = W(4) == 0;
        if (as_json) {
            char* js = LIB(sr_abrt_get_core_stacktrace_from_core_hook(ask, exe.size() ? exe.c_str() : nullptr, sig, &err));
            want_err = true;
            if (js) {
                if (err) violation("hook:message-with-result", "the stack trace comes with the message %s", err);
                char* e2 = nullptr;
                st = LIB(sr_core_stacktrace_from_json_text(js, &e2));
                if (!st) violation("hook:json", "the stack trace handed to the caller cannot be read back: %s", e2);
                st->threads->id = tid;      // not part of the persistent data
                LIB(g_free(js));
            }
        } else if (W(2)) st = LIB(sr_core_stacktrace_from_core_hook(ask, exe.size() ? exe.c_str() : nullptr, sig, want_err ? &err : nullptr));
        else {
            auto s = LIB(sr_core_stacktrace_from_core_hook_prepare(ask, want_err ? &err : nullptr));
            if (s && err) violation("hook:message-with-result", "prepare succeeded and left the message %s", err);
            if (s) {
                if (W(6) == 0) { ev("the handler gives up after preparing"); LIB(sr_core_stacktrace_unwind_state_free(s)); goto done; }
                st = LIB(sr_core_stacktrace_from_core_hook_generate(ask, exe.size() ? exe.c_str() : nullptr, sig, s, want_err ? &err : nullptr));
            }
        }
        {
        bool faulty = faults_fired() != ff;
        if (faulty) nontrivial();
        if (!st) {
            if (want_err && !err) violation("hook:silent-failure", "unwinding the crashing thread failed without a message");
            if (!faulty && !wrong_tid) violation("hook:refused", "unwinding a stopped process failed: %s", err ? err : "");
        } else {
            if (err) violation("hook:message-with-result", "the stack trace comes with the message %s", err);
            if (wrong_tid) violation("hook:invented", "a stack trace of a thread that does not exist");
            MTrace got = trace_of((struct sr_stacktrace*)st);
            if (delivered()[tid].cut) violation("hook:partial", "the unwinder failed after %zu frames and the stack trace is presented as complete", delivered()[tid].f.size());
            Str bad = compare(im, got, faulty, true, tid);
            if (bad.empty() && st->threads->id != tid) bad = "thread id " + std::to_string((long long)st->threads->id) + ", should be " + std::to_string(tid);
            if (bad.empty() && got.crash != 0) bad = "the crash thread is not set";
            if (bad.empty() && (got.s.count("executable") ? got.s["executable"] != exe : !exe.empty())) bad = "executable is wrong";
            if (bad.empty() && got.n["signal"] != (uint64_t)(sig > 0 ? sig : 0)) bad = "signal is " + std::to_string(got.n["signal"]);
            if (bad.empty() && !got.n["only_crash_thread"]) bad = "the other threads' absence is not marked";
            if (bad.size()) violation("hook:frames", "%s", bad.c_str());
            state(model_hash(got));
            LIB(sr_core_stacktrace_free(st));
        }
        }
    done:
        if (err) g_free(err);
        finish("unwinding the crashing thread", before);
    }
    unwind_reset();
    fs.on_stdin_close = nullptr;
}
