// S15: the satyr command, one simulated process per invocation.
#include "unwind.h"
#include "probdir.h"
extern "C" {
#include "abrt.h"
#include "utils.h"
#include "config.h"
int satyr_main(int argc, char** argv);
}
using namespace sim;

namespace {
struct Result { int status; Str out, err; bool lost; bool faulty; };
}
static Result run_cli(const std::vector<Str>& args, bool quiet = false) {
    Result r;
    uint32_t ff = faults_fired();
    std::vector<char*> argv;
    { Out o; argv.push_back(strdup(W(2) && !quiet ? "/usr/bin/satyr" : "satyr")); for (auto& a : args) argv.push_back(strdup(a.c_str())); argv.push_back(nullptr); }
    Str line = "satyr";
    for (auto& a : args) line += " '" + show(a, 60) + "'";
    fs.hurt.clear();
    fs.written.clear();
    fs.stdin_open = true;
    streams_capture(true);
    r.status = run_main([&] { return LIB(satyr_main((int)argv.size() - 1, argv.data())); });
    r.lost = streams_lost();
    streams_capture(false);
    r.out = cap_out; r.err = cap_err;
    r.faulty = faults_fired() != ff;
    unwind_process_died();                   // the process is gone, whatever it had not released
    fs.drop_fds();
    ledger_forgive();
    for (auto a : argv) free(a);
    if (!quiet) ev("%s -> %d, %zu bytes out, %zu bytes err%s", line.c_str(), r.status, r.out.size(), r.err.size(), r.lost ? ", output lost" : "");
    return r;
}
static Str g_cmd;
static void check_status(const Result& r, bool usage_mistake) {
    if (r.status == 0 && r.lost) violation("cli:lost-output", "%s exits with 0 although its output could not be written", g_cmd.c_str());
    if (r.status == 0 && usage_mistake) violation("cli:usage-accepted", "%s exits with 0", g_cmd.c_str());
    if (r.status != 0 && r.err.empty() && !(usage_mistake && (r.lost || !r.out.empty()))) violation("cli:silent-failure", "%s exits with %d without a message", g_cmd.c_str(), r.status);
}
static void check_disk(const std::map<Str, Str>& before, const std::set<Str>& allowed) {
    auto now = fs.snapshot();
    for (auto& kv : before) if (!allowed.count(kv.first) && (!now.count(kv.first) || now[kv.first] != kv.second)) violation("cli:changed-file", "%s changed %s", g_cmd.c_str(), kv.first.c_str());
    for (auto& kv : now) if (!allowed.count(kv.first) && !before.count(kv.first)) violation("cli:stray-file", "%s created %s", g_cmd.c_str(), kv.first.c_str());
    for (auto& w : fs.written) if (!allowed.count(w) && before.count(w)) violation("cli:changed-file", "%s wrote to %s", g_cmd.c_str(), w.c_str());
}

WORLD(cli) {
    unwind_reset();
    fs.mkdir("/tmp");
    fs.mkdir("/usr/bin");
    uint32_t ops = 1 + W(5);
    if (ops > 1) nontrivial();
    plan_faults({F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_CLOSE_ERR, F_ACCESS_ERR, F_WRITE_ERR, F_WRITE_EINTR, F_WRITE_SHORT, F_DISK_FULL,
                 F_STDOUT_ERR, F_STDOUT_SHORT, F_STDOUT_ERR, F_DWFL_ERR, F_DWFL_PARTIAL, F_ELF_ERR, F_PTRACE_ERR, F_WAIT_ERR, F_WAIT_EINTR}, 30);
    uint32_t serial = 0;
    for (uint32_t op = 0; op < ops; op++) {
        if (op && W(5) == 4) no_faults();
        sim_time(W(3) * 700000);
        Str id = std::to_string(serial++);
        uint32_t k = W(10);
        std::vector<Str> a;
        auto before = fs.snapshot();
        switch (k) {
        case 0: {                                        // information
            a = {pick_str({"--help", "--usage", "--version"})};
            g_cmd = "satyr " + a[0];
            Result r = run_cli(a);
            check_status(r, false);
            check_disk(before, {});
            if (!r.status) {
                NoFault nf;
                Result ref = run_cli(a, true);
                if (ref.out.size() < 10 || ref.status) violation("cli:information", "%s says '%s' and exits with %d", g_cmd.c_str(), ref.out.c_str(), ref.status);
                if (r.out != ref.out) violation("cli:incomplete", "%s exits with 0 after printing %zu of %zu bytes", g_cmd.c_str(), r.out.size(), ref.out.size());
                if (a[0] == "--version" && r.out.find(PACKAGE_VERSION) == Str::npos) violation("cli:information", "--version prints '%s'", r.out.c_str());
            } else if (!r.faulty) violation("cli:refused", "%s exits with %d", g_cmd.c_str(), r.status);
            break;
        }
        case 1: {                                        // usage mistakes
            static const std::vector<std::vector<Str>> wrong = {{}, {"frobnicate"}, {""}, {"abrt-print-report-from-dir"}, {"abrt-create-core-stacktrace"}, {"debug"}, {"debug", "x"}, {"debug", "normalize"}, {"debug", "duphash"},
                {"debug", "duphash", "core"}, {"debug", "duphash", "cobol", "/tmp"}, {"debug", "duphash", "", "/tmp"}, {"debug", "unwind-from-hook"}, {"debug", "unwind-from-hook", "/usr/bin/x", "1"}, {"debug", "unwind-from-hook", "/usr/bin/x", "x1", "11"},
                {"debug", "unwind-from-hook", "/usr/bin/x", "100x", "11"}, {"debug", "unwind-from-hook", "/usr/bin/x", "100", "SEGV"}, {"debug", "unwind-from-hook", "/usr/bin/x", "", "11"}, {"debug", "unwind-from-hook", "/usr/bin/x", "100", ""},
                {"debug", "unwind-from-hook", "/usr/bin/x", "100", "11", "more"}, {"abrt-report-dir", "/tmp"}, {"abrt-report-dir"}, {"-h"}, {"--versio"}, {"Debug", "normalize", "/tmp"}, {"abrt-print-report"}};
            a = pick(wrong);
            g_cmd = "satyr";
            for (auto& s : a) g_cmd += " '" + s + "'";
            Result r = run_cli(a);
            check_status(r, true);
            check_disk(before, {});
            if (r.status == 0) violation("cli:usage-accepted", "%s exits with 0", g_cmd.c_str());
            break;
        }
        default: {                                       // print the report of a directory
            ProbDir d = gen_probdir("/var/spool/abrt/p" + id, 0, W(4) != 3);
            d.write();
            before = fs.snapshot();
            g_cmd = "abrt-print-report-from-dir";
            bool missing = W(12) == 0;
            a = {g_cmd, missing ? Str("/var/spool/abrt/none") : d.path};
            Result r = run_cli(a);
            auto hurt = fs.hurt;
            check_status(r, false);
            check_disk(before, {});
            if (missing) { if (!r.status) violation("cli:invented", "a report of a directory that does not exist"); break; }
            if (r.status) {
                if (!r.faulty && !d.must_fail && !d.may_fail) violation("cli:refused", "%s fails on a complete directory: %s", g_cmd.c_str(), r.err.c_str());
                break;
            }
            NoFault nf;
            char* e2 = nullptr;
            if (r.out.empty() || r.out.back() != '\n') violation("cli:incomplete", "the printed report is not terminated");
            if (d.type == SR_REPORT_INVALID) break;
            struct sr_report* rep = LIB(sr_report_from_json_text(r.out.c_str(), &e2));
            if (!rep) violation("cli:incomplete", "%s exits with 0 and its output cannot be read: %s", g_cmd.c_str(), e2);
            if (d.type != SR_REPORT_KERNELOOPS && d.type != SR_REPORT_JAVASCRIPT) {
                ProbDir pd = d;
                if (pd.type == SR_REPORT_CORE && pd.want.trace.crash < 0 && !pd.want.trace.t.empty()) pd.want.trace.crash = 0;
                for (auto& t : pd.want.trace.t) for (auto& f : t.f) if (f.n.count("fingerprint_hashed") && !f.s.count("fingerprint")) f.n["fingerprint_hashed"] = 1;
                check_report_of_dir(pd, rep, nullptr, hurt, "the command");
            }
            LIB(report_free_all(rep));
            break;
        }
        case 5: {                                        // create a core backtrace
            ProbDir d = gen_probdir("/var/spool/abrt/c" + id, SR_REPORT_CORE, true);
            Str exe = "/usr/bin/crashed" + id;
            d.files["executable"] = exe;
            d.files.erase("core_backtrace");
            if (W(3) == 0) d.files["core_backtrace"] = "old";
            d.write();
            UImage& im = gen_image(exe);
            Str core = d.path + "/coredump", bt = d.path + "/core_backtrace";
            fs.put(core, im.core);
            { Out o; fs.memfd_paths.insert(core); fs.memfd_paths.insert(exe); }
            before = fs.snapshot();
            reset_delivered();
            g_cmd = "abrt-create-core-stacktrace";
            bool missing = W(12) == 0;
            if (missing) { fs.del(core); before = fs.snapshot(); }
            Result r = run_cli({g_cmd, d.path});
            bool hurt = details_hurt() || r.faulty;
            check_status(r, false);
            check_disk(before, {bt});
            bool any_elf = false;
            for (auto& m : im.mods) if (m.path.size()) any_elf = true;
            if (missing && !r.status) violation("cli:invented", "a core backtrace without a core dump");
            if (r.status) { if (!r.faulty && any_elf && !missing) violation("cli:refused", "%s fails without a fault: %s", g_cmd.c_str(), r.err.c_str()); break; }
            NoFault nf;
            char* e = nullptr;
            Str text = fs.get(bt);
            struct sr_core_stacktrace* st = LIB(sr_core_stacktrace_from_json_text(text.c_str(), &e));
            if (!st) violation("cli:incomplete", "%s exits with 0 and the stored stack trace cannot be read: %s", g_cmd.c_str(), e);
            MTrace got = trace_of((struct sr_stacktrace*)st);
            LIB(sr_core_stacktrace_free(st));
            Str bad;
            if (got.t.size() != im.t.size()) bad = std::to_string(got.t.size()) + " threads, the dump has " + std::to_string(im.t.size());
            set_details_hurt(hurt);
            for (size_t i = 0; i < got.t.size() && bad.empty(); i++) bad = check_unwound(im, im.t[i], got.t[i]);
            if (bad.empty() && got.n["signal"] != (uint64_t)im.sig && !(hurt && got.n["signal"] == 0)) bad = "signal " + std::to_string(got.n["signal"]);
            if (bad.size()) violation("cli:wrong", "%s: %s", g_cmd.c_str(), bad.c_str());
            probe("backtrace_created");
            break;
        }
        case 6: {                                        // fingerprint of a stored crash
            int type = gen_type(true);
            Str path = "/tmp/crash" + id, text;
            if (type == SR_REPORT_CORE) {
                MTrace m = gen_trace(type, 3, 6);
                struct sr_stacktrace* st = trace_to(m);
                char* j = LIB(sr_core_stacktrace_to_json((struct sr_core_stacktrace*)st));
                text = j; LIB(g_free(j)); LIB(sr_stacktrace_free(st));
            } else text = render(type).text;
            if (W(8) == 0) text = W(2) ? "" : "nothing to see here\n";
            bool missing = W(12) == 0;
            if (!missing) fs.put(path, text);
            before = fs.snapshot();
            Str comp = W(2) ? gen_ident() : W(2) ? gen_text() : Str();
            a = {"debug", "duphash", type_name(type), path};
            if (comp.size()) a.push_back(comp);
            g_cmd = "debug duphash " + Str(type_name(type));
            // what it should print
            Str want;
            if (!missing) {
                NoFault nf;
                char* e = nullptr;
                struct sr_stacktrace* st = LIB(sr_stacktrace_parse((enum sr_report_type)type, text.c_str(), &e));
                if (st) {
                    struct sr_thread* t = LIB(sr_stacktrace_find_crash_thread(st));
                    if (t) {
                        char* c = LIB(sr_thread_get_duphash(t, 3, comp.size() ? comp.data() : nullptr, SR_DUPHASH_NOHASH));
                        char* h = LIB(sr_thread_get_duphash(t, 3, comp.size() ? comp.data() : nullptr, SR_DUPHASH_NORMAL));
                        if (c && h) want = Str("Cleartext:\n") + c + "\nHash: " + h + "\n";
                        LIB(g_free(c)); LIB(g_free(h));
                    }
                    LIB(sr_stacktrace_free(st));
                }
                if (e) LIB(g_free(e));
            }
            Result r = run_cli(a);
            check_status(r, false);
            check_disk(before, {});
            if (r.status) { if (!r.faulty && want.size()) violation("cli:refused", "%s fails: %s", g_cmd.c_str(), r.err.c_str()); }
            else if (want.empty()) violation("cli:invented", "%s prints the fingerprint of a crash that cannot be read: %s", g_cmd.c_str(), show(r.out).c_str());
            else if (r.out != want) violation("cli:incomplete", "%s prints '%s', should print '%s'", g_cmd.c_str(), show(r.out).c_str(), show(want).c_str());
            else probe("fingerprint_printed");
            break;
        }
        case 7: {                                        // normalize a list of functions
            Str path = "/tmp/list" + id, text, want = "Thread\n";
            uint32_t n = W(8) == 0 ? 200 + W(600) : W(9);
            for (uint32_t i = 0; i < n; i++) {
                Str fn = "plain_" + std::to_string(i) + (W(3) ? "" : "_x");
                text += fn + " /usr/lib64/libx" + std::to_string(W(4)) + ".so" + (W(3) ? "" : " x.c") + (i + 1 < n || W(2) ? "\n" : "");
                want += "  " + fn + "\n";
            }
            want += "\n";
            bool missing = W(12) == 0;
            if (!missing) fs.put(path, text);
            before = fs.snapshot();
            g_cmd = "debug normalize";
            Result r = run_cli({"debug", "normalize", path});
            check_status(r, false);
            check_disk(before, {});
            if (missing && !r.status) violation("cli:invented", "%s on a missing file exits with 0", g_cmd.c_str());
            if (r.status) { if (!r.faulty && !missing) violation("cli:refused", "%s fails: %s", g_cmd.c_str(), r.err.c_str()); }
            else {
                auto squeeze = [](const Str& s) { Str o; for (char c : s) if (c != ' ' && !(c == '\n' && (o.empty() || o.back() == '\n'))) o += c; return o; };
                if (squeeze(r.out) != squeeze(want)) violation("cli:incomplete", "%s of %u functions prints '%s'", g_cmd.c_str(), n, show(r.out).c_str());
            }
            break;
        }
        case 8: {                                        // unwind from the crash hook
            UImage& im = gen_image("/usr/bin/hooked" + id);
            UThread& th = im.t[W((uint32_t)im.t.size())];
            crash_process(im, th.tid);
            fs.on_stdin_close = stdin_closed;
            fs.memfd_paths.clear();
            before = fs.snapshot();
            reset_delivered();
            g_cmd = "debug unwind-from-hook";
            Str stid = std::to_string(th.tid), ssig = std::to_string(im.sig);
            bool mistake = W(5) == 0;
            if (mistake) {                               // something that is not a number, or not this one
                switch (W(6)) {
                case 0: ssig = ""; break;
                case 1: ssig = "-" + ssig; break;
                case 2: ssig += pick_str({"x", " 1", ".0", "-"}); break;
                case 3: ssig = std::to_string(65536ULL + im.sig); break;
                case 4: ssig = "184467440737095516" + std::to_string(16 + im.sig); break;
                default: stid = std::to_string((1ULL << 32) + (unsigned)th.tid); break;
                }
                g_cmd += " TID='" + stid + "' SIGNAL='" + ssig + "'";
            }
            Result r = run_cli({"debug", "unwind-from-hook", im.exe, stid, ssig});
            fs.on_stdin_close = nullptr;
            check_status(r, mistake);
            auto now = fs.snapshot();
            std::set<Str> created;
            for (auto& kv : now) if (kv.first.compare(0, 28, "/tmp/satyr-core-stacktrace-2") == 0 && (!before.count(kv.first) || before[kv.first] != kv.second || fs.written.count(kv.first))) created.insert(kv.first);
            check_disk(before, created);
            if (created.size() > 1) violation("cli:stray-file", "%s created %zu files", g_cmd.c_str(), created.size());
            if (r.status) { if (!r.faulty && !mistake) violation("cli:refused", "%s fails: %s", g_cmd.c_str(), r.err.c_str()); break; }
            if (created.empty()) violation("cli:incomplete", "%s exits with 0 and stores nothing", g_cmd.c_str());
            if (delivered()[th.tid].cut) violation("cli:wrong", "%s: the unwinder failed after %zu frames and the stack trace is presented as complete", g_cmd.c_str(), delivered()[th.tid].f.size());
            NoFault nf;
            char* e = nullptr;
            Str text = now[*created.begin()];
            struct sr_core_stacktrace* st = LIB(sr_core_stacktrace_from_json_text(text.c_str(), &e));
            if (!st) violation("cli:incomplete", "%s exits with 0 and the stored stack trace cannot be read: %s", g_cmd.c_str(), e);
            MTrace got = trace_of((struct sr_stacktrace*)st);
            LIB(sr_core_stacktrace_free(st));
            Str bad = got.t.size() != 1 ? Str("not one thread") : check_unwound(im, th, got.t[0]);
            if (bad.empty() && got.n["signal"] != (uint64_t)im.sig) bad = "signal " + std::to_string(got.n["signal"]);
            if (bad.empty() && got.s["executable"] != im.exe) bad = "executable " + got.s["executable"];
            if (bad.size()) violation("cli:wrong", "%s: %s", g_cmd.c_str(), bad.c_str());
            probe("hook_stored");
            break;
        }
        }
        state(hash_str(g_cmd) ^ k);
    }
    unwind_reset();
}
