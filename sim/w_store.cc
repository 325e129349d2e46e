// S03: the core backtrace of a problem directory, created by processes that fail
// and die, read back by others.
#include "unwind.h"
#include "probdir.h"
extern "C" {
#include "abrt.h"
#include "utils.h"
#include "core/unwind.h"
}
using namespace sim;

namespace {
struct Attempt {                       // one try to create the backtrace
    UImage* im = nullptr;
    bool listing = false;
    bool ok = false;                   // acknowledged
    std::map<int, Delivered> del;      // what the unwinder delivered to it
    bool hurt = false;
    std::vector<std::vector<uint64_t>> listed;   // addresses of a debugger's listing
};
}
static Str valid_for(const Attempt& a, const Str& exe, MTrace got) {
    const UImage& im = *a.im;
    if (a.listing) {
        if (got.t.size() != a.listed.size()) return std::to_string(got.t.size()) + " threads, the listing has " + std::to_string(a.listed.size());
        for (size_t i = 0; i < got.t.size(); i++) {
            if (got.t[i].f.size() != a.listed[i].size()) return "listed thread " + std::to_string(i) + ": " + std::to_string(got.t[i].f.size()) + " frames, the listing has " + std::to_string(a.listed[i].size());
            for (size_t j = 0; j < a.listed[i].size(); j++) {
                MFrame g = got.t[i].f[j];
                Str at = "listed thread " + std::to_string(i) + " frame " + std::to_string(j);
                if (g.n["address"] != a.listed[i][j]) return at + ": address " + hex(g.n["address"]) + ", listed " + hex(a.listed[i][j]);
                MFrame w = resolved(im, a.listed[i][j], true), w2 = resolved(im, a.listed[i][j], false);
                if (a.hurt || a.listed[i][j] == NOADDR) continue;
                g.n.erase("fingerprint_hashed");
                Str d1 = diff(w, g, at), d2 = diff(w2, g, at);
                if (d1.size() && d2.size()) return d1;
            }
        }
    } else {
        if (got.t.size() != im.t.size()) return std::to_string(got.t.size()) + " threads, the dump has " + std::to_string(im.t.size());
        // what the unwinder delivered to this attempt
        auto saved = delivered();
        bool h = details_hurt();
        delivered() = a.del;
        set_details_hurt(a.hurt);
        Str bad;
        for (size_t i = 0; i < got.t.size() && bad.empty(); i++) bad = check_unwound(im, im.t[i], got.t[i]);
        delivered() = saved;
        set_details_hurt(h);
        if (bad.size()) return bad;
        if (!im.t.empty() && got.crash != 0) return "the crash thread is number " + std::to_string(got.crash);
    }
    if (got.n["signal"] != (uint64_t)im.sig && !(a.hurt && got.n["signal"] == 0)) return "signal " + std::to_string(got.n["signal"]) + ", the process was killed by " + std::to_string(im.sig);
    if (got.s.count("executable") ? got.s["executable"] != exe : !a.hurt) return "executable is " + (got.s.count("executable") ? got.s["executable"] : Str("missing"));
    return "";
}

WORLD(store) {
    unwind_reset();
    ProbDir d = gen_probdir("/var/spool/abrt/p", SR_REPORT_CORE, true);
    Str exe = "/usr/bin/crashed";
    d.files["executable"] = exe;
    if (!d.packaged) d.want.s["component_name"] = "crashed-unpackaged";
    d.files.erase("core_backtrace");
    d.write();
    fs.mkdir("/usr/bin");
    Str core_path = d.path + "/coredump", bt_path = d.path + "/core_backtrace";
    fs.memfd_paths = {core_path, exe};
    UImage* im = &gen_image(exe);
    fs.put(core_path, im->core);
    Attempt last; bool have_last = false;
    Attempt acked; bool have_acked = false;
    bool content_acked = false;        // the file holds what was acknowledged last (nothing wrote to it since)
    Str acked_bytes;
    std::vector<Attempt> torn;         // attempts whose bytes may be (partly) in the file
    uint32_t ops = 2 + W(6);
    nontrivial();
    plan_faults({F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_WRITE_ERR, F_WRITE_EINTR, F_WRITE_SHORT, F_DISK_FULL, F_CLOSE_ERR, F_ACCESS_ERR, F_CRASH, F_DWFL_ERR, F_DWFL_PARTIAL, F_ELF_ERR}, 90);
    bool retry = false;
    auto images_live = [&] { return live_sessions(); };
    for (uint32_t k = 0; k < ops || retry; k++) {
        if (k >= ops + 2) break;
        uint32_t what = retry ? 0 : W(10);
        if (what < 5) {
            if (!retry && W(4) == 0 && k) { im = &gen_image(exe); fs.put(core_path, im->core); ev("a new core dump replaces the old one"); }
            FaultPlan saved = plan();
            if (retry) no_faults();
            Attempt a; a.im = im; a.listing = W(4) == 0;
            Str gdb;
            if (a.listing) {
                gdb = "Core was generated by `x'.\n\n";
                for (size_t i = im->t.size(); i-- > 0;) {
                    gdb += "Thread " + std::to_string(i + 1) + " (LWP " + std::to_string(im->t[i].tid) + "):\n";
                    std::vector<uint64_t> l;
                    uint32_t n = 0;
                    char b[120];
                    for (auto& f : im->t[i].f) { if (n >= 250) break; snprintf(b, sizeof b, "#%u  0x%016llx in f%u () from /lib/x.so\n", n, (unsigned long long)f.pc, n); gdb += b; n++; l.push_back(f.pc); }
                    if (!n) { gdb += "#0  0x0000000000000010 in ?? ()\n"; l.push_back(0x10); }
                    gdb += "\n";
                    a.listed.push_back(l);
                }
            }
            auto snap = fs.snapshot();
            fs.written.clear();
            reset_delivered();
            uint32_t ff = faults_fired();
            size_t before = ledger_live();
            char* err = nullptr; bool ok = false;
            ev("create%s", a.listing ? " from a listing" : "");
            bool survived = process_life([&] {
                ok = a.listing ? LIB(sr_abrt_create_core_stacktrace_from_gdb(d.path.c_str(), gdb.c_str(), false, &err)) : LIB(sr_abrt_create_core_stacktrace(d.path.c_str(), false, &err));
            });
            if (!survived) { unwind_process_died(); err = nullptr; ok = false; ev("the creating process died"); }
            else if (images_live()) violation("leak:session", "creating the backtrace leaves an unwinder session behind");
            if (survived && fs.open_fds()) violation("leak:fd", "creating the backtrace leaves %zu files open", fs.open_fds());
            bool faulty = faults_fired() != ff;
            a.del = delivered(); a.hurt = details_hurt() || faulty; a.ok = ok;
            bool any_elf = false;
            for (auto& m : im->mods) if (m.path.size()) any_elf = true;
            if (survived) {
                if (ok && err) violation("store:message-with-success", "creation succeeded and left the message %s", err);
                if (!ok && (!err || !*err)) violation("store:silent-failure", "creation failed without a message");
                if (!ok && !faulty && any_elf) violation(retry ? "store:retry-fails" : "store:refused", "creation failed without a fault: %s", err);
            }
            auto now = fs.snapshot();
            for (auto& kv : snap) if (kv.first != bt_path && (!now.count(kv.first) || now[kv.first] != kv.second)) violation("store:other-file", "creating the backtrace changed %s", kv.first.c_str());
            if (survived) for (auto& kv : now) if (kv.first != bt_path && !snap.count(kv.first)) violation("store:stray-file", "creating the backtrace left %s behind", kv.first.c_str());
            bool touched = fs.written.count(bt_path) || now.count(bt_path) != snap.count(bt_path) || (now.count(bt_path) && now[bt_path] != snap[bt_path]);
            if (ok) {
                if (!now.count(bt_path)) violation("store:not-stored", "creation succeeded but there is no core_backtrace");
                acked = a; have_acked = true; content_acked = true; acked_bytes = now[bt_path]; torn.clear();
            } else if (touched) { content_acked = false; torn.push_back(a); }
            last = a; have_last = true;
            if (err) g_free(err);
            if (survived && ledger_live() != before) violation("leak:memory", "creating the backtrace leaves %zu allocations behind", ledger_live() - before);
            ledger_forgive();
            if (retry) { retry = false; plan() = saved; }
            else if (!ok && any_elf && W(2)) retry = true;
            state(hash_str(now[bt_path]) ^ ok);
        } else {
            if (retry) continue;
            // another process converts the directory
            FaultPlan saved = plan();
            no_faults();
            char* err = nullptr;
            ev("convert");
            fs.written.clear(); fs.hurt.clear();
            struct sr_report* r = LIB(sr_abrt_report_from_dir(d.path.c_str(), &err));
            if (!r) {
                if (!err || !*err) violation("store:convert-silent", "converting the directory failed without a message");
                if (content_acked) violation("store:acked-lost", "the creation was acknowledged and the directory cannot be converted: %s", err);
                probe("refused_torn");
            } else {
                if (err) violation("store:message-with-success", "the conversion succeeded and left the message %s", err);
                MReport got = report_of(r);
                if (!fs.has(bt_path)) violation("store:invented", "a report without a stored core_backtrace");
                if (!got.has_trace) violation("store:no-trace", "a report without its stack trace");
                Str bad;
                if (content_acked) bad = valid_for(acked, exe, got.trace);
                else {
                    bad = "nothing was ever stored";
                    for (auto& t : torn) { bad = valid_for(t, exe, got.trace); if (bad.empty()) break; }
                    if (bad.size() && have_acked && valid_for(acked, exe, got.trace).empty()) bad = "";
                    if (bad.empty()) probe("torn_creation_readable");
                }
                if (bad.size()) violation(content_acked ? "store:acked-wrong" : "store:torn-accepted", "%s: %s", content_acked ? "the acknowledged backtrace is not the complete one" : "a partial backtrace was accepted", bad.c_str());
                LIB(sr_report_free(r));
            }
            if (err) g_free(err);
            if (!fs.written.empty()) violation("store:reader-writes", "the conversion wrote %s", fs.written.begin()->c_str());
            if (fs.open_fds()) violation("leak:fd", "the conversion leaves files open");
            plan() = saved;
        }
    }
    (void)have_last;
    unwind_reset();
}
