// S02: problem directories converted to reports while system calls fail.
#include "probdir.h"
#include <algorithm>
extern "C" {
#include "abrt.h"
#include "utils.h"
}
namespace sim {
void ProbDir::write() const {
    fs.mkdir(path);
    for (auto& f : files) fs.put(path + "/" + f.first, f.second);
}
static Str q_os(const Str& v) {
    switch (W(3)) {
    case 0: if (v.find_first_of(" \"'\\$`") == Str::npos) return v; // fall through
    case 1: { Str r = "\""; for (char c : v) { if (strchr("\"\\$`", c)) r += '\\'; r += c; } return r + "\""; }
    default: if (v.find_first_of("'\\\"") != Str::npos) return q_os(v); return "'" + v + "'";
    }
}
static Str osval() { return pick_str({"fedora", "rhel", "centos", "20", "7.5", "39", "cpe:/o:fedoraproject:fedora:20", "workstation", "silver blue", "a\"b", "c$d"}); }
static void gen_os(ProbDir& d, bool perfect) {
    bool have_info = perfect || W(6) != 5;
    if (have_info) {
        Str t;
        std::vector<std::pair<Str, Str>> lines;
        bool id = perfect || W(10) != 9, ver = perfect || W(10) != 9, raw = W(10) == 9;
        auto add = [&](const char* k, const char* member) { Str v = osval(); lines.push_back({k, v}); d.os_info.s[member] = v; };
        if (id) add("ID", "name");
        if (ver) add("VERSION_ID", "version");
        if (raw) { lines.push_back({"VERSION", "24 (Rawhide)"}); d.os_info.s["version"] = "rawhide"; ver = true; }
        else if (W(2)) lines.push_back({"VERSION", "20 (Heisenbug)"});
        if (W(2)) add("CPE_NAME", "cpe");
        if (W(2)) add("VARIANT_ID", "variant");
        if (W(2)) lines.push_back({"NAME", "Some Linux"});
        if (W(3) == 2) lines.push_back({"ANSI_COLOR", "0;34"});
        for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[W((uint32_t)i)]);
        for (auto& l : lines) {
            if (W(8) == 7) t += "# a comment = no value\n";
            t += l.first + "=" + q_os(l.second) + "\n";
        }
        if (W(10) == 9 && !t.empty()) t.pop_back(); // last line not terminated
        d.files["os_info"] = t;
        d.os_info_ok = id && ver;
    }
    if (W(3) != 2 || !have_info) {
        bool good = perfect || W(6) != 5;
        if (good) {
            static const char* names[] = {"Fedora", "CentOS", "Red Hat Enterprise Linux Server", "Scientific Linux"};
            uint32_t k = W(4);
            Str ver = pick_str({"20", "6.5", "7.0.1406", "39"});
            Str n = k == 2 ? "rhel" : names[k];
            for (auto& c : n) c = tolower(c);
            d.os_fallback.s["name"] = n;
            d.os_fallback.s["version"] = ver;
            d.files["os_release"] = Str(names[k]) + " release " + ver + pick_str({" (Heisenbug)", "", "\n", " Beta"});
            d.os_fallback_ok = true;
        } else if (W(2)) d.files["os_release"] = pick_str({"", "Fedora", "garbage\n", " release 20"});
    }
    if (!d.os_info_ok && !d.os_fallback_ok) { d.must_fail = true; d.why = "no operating system"; }
    if (perfect || W(25) != 24) d.want.os.s["architecture"] = d.files["architecture"] = pick_str({"x86_64", "i686", "aarch64", "ppc64le"});
    else { d.must_fail = true; d.why = "no architecture"; }
    if (W(3)) {
        Str t;
        uint32_t n = W(6);
        Str want;
        bool have = false;
        for (uint32_t i = 0; i < n; i++) {
            uint32_t k = W(6);
            if (k == 5 && !have) { want = pick_str({"gnome", "KDE plasma", "", "i3"}); have = true; t += "DESKTOP_SESSION=" + want + "\n"; }
            else if (k == 4) t += "GDM_DESKTOP_SESSION=other\n";
            else t += pick_str({"PATH=/usr/bin:/bin", "HOME=/home/u", "A=", "LANG=cs_CZ.UTF-8"}) + "\n";
        }
        if (W(4) == 3 && !t.empty()) t.pop_back();
        d.files["environ"] = t;
        if (have) d.want.os.s["desktop"] = want;
    }
}
static Str num(uint64_t v) { return std::to_string(v); }
static MPkg simple_pkg(bool with_epoch) {
    MPkg m;
    m.s["name"] = pick_str({"bash", "glibc", "python3", "kernel-core", "libX11", "gtk3"}) + (W(4) == 3 ? "-libs" : "");
    m.s["version"] = pick_str({"1.0", "2.17", "4.2.45", "1.7.5git"});
    m.s["release"] = pick_str({"1.fc20", "4.el7", "0.1.rc2.fc39", "11"});
    m.s["architecture"] = pick_str({"x86_64", "i686", "noarch"});
    m.n["epoch"] = with_epoch && W(3) == 2 ? (W(4) == 3 ? 4294967295u : 1 + W(40)) : 0;
    m.n["install_time"] = 0;
    m.n["role"] = 0;
    return m;
}
static Str nevra_of(const MPkg& m) {
    uint64_t e = m.n.at("epoch");
    return m.s.at("name") + "-" + (e || W(8) == 7 ? num(e) + ":" : Str()) + m.s.at("version") + "-" + m.s.at("release") + "." + m.s.at("architecture");
}
static void gen_packages(ProbDir& d, bool perfect) {
    d.packaged = W(3) != 2;
    if (d.packaged) {
        MPkg m = simple_pkg(true);
        m.n["role"] = 1;
        d.files["package"] = m.s["name"] + "-" + m.s["version"] + "-" + m.s["release"];
        bool nl = d.type == SR_REPORT_KERNELOOPS && W(2);
        auto put = [&](const char* file, const Str& v, const char* what) {
            if (!perfect && W(60) == 59) { d.must_fail = true; d.why = what; return; }
            d.files[file] = v + (nl ? "\n" : "");
        };
        put("pkg_epoch", num(m.n["epoch"]), "no pkg_epoch");
        put("pkg_name", m.s["name"], "no pkg_name");
        put("pkg_version", m.s["version"], "no pkg_version");
        put("pkg_release", m.s["release"], "no pkg_release");
        put("pkg_arch", m.s["architecture"], "no pkg_arch");
        if (!perfect && d.files.count("pkg_epoch") && W(25) == 24) {
            d.files["pkg_epoch"] = pick_str({"abc", "", "-1", "4294967296", "99999999999999999999", "12x", "(none)", "0x10"});
            d.must_fail = true;
            d.why = "epoch is not a number";
        }
        d.main_pkg.push_back(m);
        if (perfect || W(12) != 11) { d.files["component"] = pick_str({"bash", "kernel", "gtk3", "python3"}); d.want.s["component_name"] = d.files["component"]; }
    } else {
        if (W(3) == 2) d.files["component"] = "stray"; // not used for crashes of unpackaged programs
        if (perfect || W(8) != 7) {
            Str base = pick_str({"will_abort", "a.out", "my prog", "x"});
            d.files["executable"] = pick_str({"/usr/bin/", "/home/u/", "/", ""}) + base;
            d.want.s["component_name"] = base + "-unpackaged";
        }
    }
    if (d.packaged && (perfect || W(3))) d.files["executable"] = "/usr/bin/" + pick_str({"bash", "python3"});
    if (W(2)) {
        Str t;
        uint32_t n = W(7);
        for (uint32_t i = 0; i < n; i++) {
            if (W(9) == 8) { t += pick_str({"/usr/lib64/libunowned.so\n", "/usr/lib64/x.so not-a-nevra (Vendor) 12\n", "\n", "/x  \n", "/lib/a.so badpkg.x86_64 (V) 1\n"}); continue; }
            MPkg m;
            if (!d.dso.empty() && W(4) == 3) m = d.dso[W((uint32_t)d.dso.size())];
            else if (d.packaged && W(5) == 4) { m = d.main_pkg[0]; m.n["role"] = 0; m.n["install_time"] = 1400000000u + W(1000); }
            else { m = simple_pkg(true); m.n["install_time"] = W(6) == 5 ? W64() : 1400000000u + W(100000000); }
            t += "/usr/lib64/lib" + num(i) + ".so.1 " + nevra_of(m) + " (Fedora Project) " + num(m.n["install_time"]) + "\n";
            d.dso.push_back(m);
        }
        d.files["dso_list"] = t;
    }
    if (W(5) == 4) {
        if (W(5) != 4) { MPkg m = simple_pkg(true); d.files["interpreter"] = nevra_of(m); d.interp.push_back(m); }
        else d.files["interpreter"] = pick_str({"", "nonsense", "python3"});
    }
}
static void gen_trace_files(ProbDir& d, bool perfect) {
    switch (d.type) {
    case SR_REPORT_CORE: {
        MTrace t = gen_trace(SR_REPORT_CORE);
        d.want.trace = t;
        d.want.has_trace = true;
        JStyle st;
        st.ws = W(3); st.esc = W(3);
        d.files["core_backtrace"] = json_write(jval_of(t), st) + "\n";
        d.trace_file = "core_backtrace";
        break;
    }
    case SR_REPORT_INVALID: return;
    default: {
        Rendered r = render(d.type);
        d.files["backtrace"] = r.text;
        d.want.trace = r.want;
        d.want.has_trace = true;
        d.trace_file = "backtrace";
        if (d.type == SR_REPORT_KERNELOOPS) {
            if (perfect || W(25) != 24) d.want.trace.s["version"] = d.files["kernel"] = pick_str({"3.10.0-123.el7.x86_64", "6.5.6-300.fc39.x86_64"});
            else { d.must_fail = true; d.why = "no kernel"; }
        }
        if (d.type == SR_REPORT_JAVASCRIPT) {
            if (perfect || W(25) != 24) d.files["analyzer"] = pick_str({"Node.js", "JavaScript", "abrt-nodejs"});
            else { d.must_fail = true; d.why = "no analyzer"; }
            if (d.files["analyzer"] == "Node.js" && d.want.trace.n.count("platform")) d.want.trace.n["platform"] = _sr_js_platform_assemble(SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8);
            if (d.must_fail && d.why == "no analyzer") d.files.erase("analyzer");
        }
    }
    }
    if (!perfect && W(25) == 24) { d.files.erase(d.trace_file); d.must_fail = true; d.why = "no stack trace"; }
}
ProbDir gen_probdir(const Str& path, int type, bool perfect) {
    ProbDir d;
    d.path = path;
    d.type = type ? type : !perfect && W(40) == 39 ? (int)SR_REPORT_INVALID : gen_type(false);
    d.want.type = d.type;
    d.want.has_os = true;
    static const std::map<int, std::vector<const char*>> names = {
        {SR_REPORT_CORE, {"CCpp"}}, {SR_REPORT_PYTHON, {"Python", "Python3"}}, {SR_REPORT_KERNELOOPS, {"Kerneloops"}},
        {SR_REPORT_JAVA, {"Java"}}, {SR_REPORT_RUBY, {"Ruby"}}, {SR_REPORT_JAVASCRIPT, {"JavaScript"}},
        {SR_REPORT_INVALID, {"xorg", "vmcore", "", "core", "Selinux"}}};
    auto& v = names.at(d.type);
    d.files["type"] = v[W((uint32_t)v.size())];
    if (!perfect && W(50) == 49) { d.files.erase("type"); d.must_fail = true; d.why = "no type"; }
    d.files["analyzer"] = d.type == SR_REPORT_JAVASCRIPT ? "" : "CCpp";
    if (d.type == SR_REPORT_JAVASCRIPT) d.files.erase("analyzer");
    gen_os(d, perfect);
    gen_packages(d, perfect);
    if (perfect || W(12) != 11) {
        uint32_t c = W(8) == 7 ? gen_u32() : 1 + W(20);
        d.files["count"] = num(c);
        d.want.n["serial"] = c;
    } else if (W(2)) {
        d.files["count"] = pick_str({"", "abc", "-1", "4294967296", "99999999999999999999", "5x", "1 2", "-99999999999999999999"});
        d.must_fail = true;
        d.why = "count is not a number";
    } else { d.must_fail = true; d.why = "no count"; }
    gen_trace_files(d, perfect);
    if (W(3) == 2) d.files["uid"] = "1000";
    if (W(3) == 2) d.files["cmdline"] = "bash -c 'x'";
    return d;
}
bool any_hurt(const ProbDir& d, const std::set<Str>& hurt) {
    for (auto& h : hurt) if (h.compare(0, d.path.size() + 1, d.path + "/") == 0) return true;
    return false;
}
static Str key(const MPkg& m) { Str k; for (auto n : {"name", "version", "release", "architecture"}) { auto i = m.s.find(n); k += i == m.s.end() ? Str("<none>") : i->second; k += '\x1f'; } return k + num(m.n.at("epoch")); }
Str check_packages(const ProbDir& d, const std::vector<MPkg>& got, const std::set<Str>& hurt) {
    auto is_hurt = [&](const char* f) { return hurt.count(d.path + "/" + f) != 0; };
    bool had_dso = d.files.count("dso_list") != 0;
    for (int variant = 0; variant < 4; variant++) {
        bool drop_dso = variant & 1, drop_int = variant & 2;
        if (drop_dso && !(had_dso && is_hurt("dso_list"))) continue;
        if (drop_int && !(d.files.count("interpreter") && is_hurt("interpreter"))) continue;
        // distinct packages, each exactly once, roles and install times kept
        std::vector<MPkg> in = d.main_pkg;
        if (!drop_dso) in.insert(in.end(), d.dso.begin(), d.dso.end());
        std::map<Str, uint64_t> role;
        std::map<Str, std::set<uint64_t>> times;
        for (auto& p : in) { Str k = key(p); role[k] |= p.n.at("role"); if (p.n.at("install_time")) times[k].insert(p.n.at("install_time")); }
        std::multiset<Str> rest;
        std::map<Str, int> seen;
        bool ok = true;
        std::vector<MPkg> body = got;
        if (!drop_int) for (auto& i : d.interp) {
            if (body.empty() || key(body.back()) != key(i) || body.back().n["role"] || body.back().n["install_time"]) { ok = false; break; }
            body.pop_back();
        }
        for (auto& p : body) {
            Str k = key(p);
            if (!role.count(k) || seen[k]++ || role[k] != p.n.at("role")) { ok = false; break; }
            if (times[k].empty() ? p.n.at("install_time") != 0 : !times[k].count(p.n.at("install_time"))) { ok = false; break; }
        }
        if (ok && seen.size() == role.size()) return Str();
    }
    Str t = "got:";
    for (auto& p : got) { t += " ["; for (auto& s : p.s) t += s.second + " "; t += "epoch " + num(p.n.at("epoch")) + " time " + num(p.n.at("install_time")) + " role " + num(p.n.at("role")) + "]"; }
    t += " stored:";
    for (auto* l : {&d.main_pkg, &d.dso, &d.interp}) { for (auto& p : *l) { t += " ["; for (auto& s : p.s) t += s.second + " "; t += "epoch " + num(p.n.at("epoch")) + " time " + num(p.n.at("install_time")) + "]"; } t += ";"; }
    return t;
}
Str check_os(const ProbDir& d, const MObj& got, const std::set<Str>& hurt) {
    auto is_hurt = [&](const char* f) { return hurt.count(d.path + "/" + f) != 0; };
    std::vector<MObj> opts;
    if (d.os_info_ok) opts.push_back(d.os_info);
    if (d.os_fallback_ok && (!d.os_info_ok || is_hurt("os_info"))) {
        opts.push_back(d.os_fallback);
        MObj m = d.os_fallback; // details only os_info has belong to the same system
        for (auto k : {"cpe", "variant"}) { auto i = d.os_info.s.find(k); if (i != d.os_info.s.end()) m.s[k] = i->second; }
        opts.push_back(m);
    }
    Str df;
    for (auto& o : opts) for (int desk = 0; desk < 2; desk++) {
        MObj w = o;
        w.n["uptime"] = 0;
        auto a = d.want.os.s.find("architecture");
        if (a != d.want.os.s.end()) w.s["architecture"] = a->second;
        auto e = d.want.os.s.find("desktop");
        if (desk && !is_hurt("environ")) continue;
        if (!desk && e != d.want.os.s.end()) w.s["desktop"] = e->second;
        Str x = diff(w, got, "os");
        if (x.empty()) return x;
        df = x;
    }
    return df.empty() ? Str("no operating system is stored") : df;
}
void check_report_of_dir(const ProbDir& d, struct sr_report* r, const char* err, const std::set<Str>& hurt, const char* what) {
    auto is_hurt = [&](const char* f) { return hurt.count(d.path + "/" + f) != 0; };
    if (!r) {
        if (!err || !*err) violation("dir:no-message", "%s of a %s directory failed without a message%s%s", what, type_name(d.type), d.must_fail ? ": " : "", d.why.c_str());
        if (!d.must_fail && !d.may_fail && !any_hurt(d, hurt)) violation("dir:refused", "%s of a complete %s directory failed: %s", what, type_name(d.type), err);
        probe("conversion_failed");
        return;
    }
    if (err) violation("dir:message-on-success", "%s of a %s directory succeeded with the message '%s'", what, type_name(d.type), err);
    if (d.must_fail) violation("dir:accepted", "%s of a %s directory succeeded although %s", what, type_name(d.type), d.why.c_str());
    MReport got = report_of(r);
    if (got.type != d.type) violation("dir:type", "%s: type '%s' became %s", what, show(d.files.at("type")).c_str(), type_name(got.type));
    Str df;
    if (!got.has_os) violation("dir:os", "%s: no operating system", what);
    df = check_os(d, got.os, hurt);
    if (!df.empty()) violation("dir:os", "%s: %s", what, df.c_str());
    auto c = d.want.s.find("component_name");
    auto g = got.s.find("component_name");
    bool c_ok = c == d.want.s.end() ? g == got.s.end() : g != got.s.end() && g->second == c->second;
    if (!c_ok && g == got.s.end()) c_ok = is_hurt("component") || is_hurt("executable") || is_hurt("package");
    if (!c_ok && g != got.s.end() && !d.packaged && is_hurt("package")) c_ok = d.files.count("component") && g->second == d.files.at("component");
    if (!c_ok) violation("dir:component", "%s: component '%s' instead of '%s'", what, g == got.s.end() ? "(none)" : g->second.c_str(), c == d.want.s.end() ? "(none)" : c->second.c_str());
    df = check_packages(d, got.pkgs, hurt);
    if (!df.empty()) violation("dir:packages", "%s: %s", what, df.c_str());
    if (got.n["serial"] != d.want.n.at("serial")) violation("dir:count", "%s: count %llu instead of %llu", what, (unsigned long long)got.n["serial"], (unsigned long long)d.want.n.at("serial"));
    if (got.has_trace != d.want.has_trace) violation("dir:trace", "%s: %s", what, got.has_trace ? "a stack trace from nowhere" : "no stack trace");
    if (got.has_trace) {
        df = diff(d.want.trace, got.trace);
        if (!df.empty()) violation("dir:trace", "%s: %s", what, df.c_str());
    }
    if (!got.auth.empty()) violation("dir:auth", "%s: authentication data from nowhere", what);
    probe("conversion_succeeded");
}
}
using namespace sim;

// what the reader of the stored stack trace makes of damaged bytes
static void damage_trace(ProbDir& d) {
    if (d.trace_file.empty() || !d.files.count(d.trace_file)) return;
    Str t = damage_bytes(d.files[d.trace_file]);
    t = t.c_str();
    if (t == d.files[d.trace_file]) return;
    NoFault nf;
    d.files[d.trace_file] = t;
    struct sr_stacktrace* st = nullptr;
    if (d.type == SR_REPORT_CORE) {
        char* e = nullptr;
        st = LIB((struct sr_stacktrace*)sr_core_stacktrace_from_json_text(t.c_str(), &e));
        if (e) LIB(g_free(e));
    } else {
        const char* in = t.c_str();
        struct sr_location loc;
        sr_location_init(&loc);
        st = LIB(parse_trace(d.type, &in, &loc));
    }
    probe(st ? "damaged_trace_readable" : "damaged_trace_unreadable");
    if (!st) { d.must_fail = true; d.why = "the stored stack trace cannot be read"; return; }
    Str v = d.want.trace.s.count("version") ? d.want.trace.s["version"] : Str();
    uint64_t platform = d.want.trace.n.count("platform") ? d.want.trace.n["platform"] : 0;
    d.want.trace = trace_of(st);
    if (d.type == SR_REPORT_JAVASCRIPT) d.want.trace.n["platform"] = platform;
    if (d.type == SR_REPORT_KERNELOOPS) d.want.trace.s["version"] = v;
    if (d.type == SR_REPORT_JAVASCRIPT) d.may_fail = true;
    LIB(sr_stacktrace_free(st));
}

WORLD(dir) {
    uint32_t nd = 1 + W(3);
    std::vector<ProbDir> dirs;
    plan_faults({F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_CLOSE_ERR, F_ACCESS_ERR,
                 F_TEAR, F_BITFLIP, F_BLOCK_ZERO, F_BLOCK_LOST, F_BLOCK_SWAP}, 30);
    for (uint32_t i = 0; i < nd; i++) {
        ProbDir d = gen_probdir("/var/spool/abrt/p" + std::to_string(i), 0, W(2));
        if (F(4) == 3) damage_trace(d);
        d.write();
        ev("dir %u type %s%s%s", i, type_name(d.type), d.must_fail ? " must fail: " : "", d.why.c_str());
        dirs.push_back(d);
    }
    auto snap = fs.snapshot();
    uint32_t ops = 1 + W(5);
    if (ops > 1) nontrivial();
    for (uint32_t op = 0; op < ops; op++) {
        if (op && W(4) == 3) no_faults();
        const ProbDir& d = dirs[W(nd)];
        fs.hurt.clear();
        char* err = nullptr;
        errno = W(3) == 2 ? (W(2) ? ERANGE : 1 + W(40)) : 0; // left over from something else
        switch (W(8)) {
        default: {
            struct sr_report* r = LIB(sr_abrt_report_from_dir(d.path.c_str(), &err));
            ev("report: %s", r ? "ok" : err ? err : "(null)");
            check_report_of_dir(d, r, err, fs.hurt, "converting");
            state(hash_str(d.path) ^ (r ? model_hash(d.want.trace) : 1) ^ fs.hurt.size());
            if (r) LIB(sr_report_free(r));
            break;
        }
        case 5: {
            struct sr_rpm_package* p = nullptr;
            int rc = LIB(sr_abrt_rpm_packages_from_dir(d.path.c_str(), &p, &err));
            ev("packages: %d %s", rc, err ? err : "");
            if (rc < 0) {
                if (!err || !*err) violation("dir:no-message", "reading the packages failed without a message");
                if (p) violation("dir:packages-on-failure", "reading the packages failed and returned packages");
                if (!any_hurt(d, fs.hurt) && !d.must_fail) violation("dir:refused", "reading the packages of a complete directory failed: %s", err);
            } else {
                if (err) violation("dir:message-on-success", "reading the packages succeeded with the message '%s'", err);
                if (d.why.compare(0, 6, "no pkg") == 0 || d.why.compare(0, 5, "epoch") == 0) violation("dir:accepted", "reading the packages succeeded although %s", d.why.c_str());
                Str df = check_packages(d, pkgs_of(p), fs.hurt);
                if (!df.empty()) violation("dir:packages", "reading the packages: %s", df.c_str());
                LIB(sr_rpm_package_free(p, true));
            }
            break;
        }
        case 6: {
            struct sr_operating_system* os = LIB(sr_abrt_operating_system_from_dir(d.path.c_str(), &err));
            ev("os: %s", os ? "ok" : err ? err : "(null)");
            bool able = (d.os_info_ok || d.os_fallback_ok) && d.files.count("architecture");
            if (!os) {
                if (!err || !*err) violation("dir:no-message", "reading the operating system failed without a message");
                if (able && !any_hurt(d, fs.hurt)) violation("dir:refused", "reading the operating system of a complete directory failed: %s", err);
            } else {
                if (err) violation("dir:message-on-success", "reading the operating system succeeded with the message '%s'", err);
                if (!able) violation("dir:accepted", "an operating system from a directory without one");
                Str df = check_os(d, os_of(os), fs.hurt);
                if (!df.empty()) violation("dir:os", "reading the operating system: %s", df.c_str());
                LIB(sr_operating_system_free(os));
            }
            break;
        }
        case 7: {
            streams_capture(true);
            bool ok = LIB(sr_abrt_print_report_from_dir(d.path.c_str(), &err));
            LIB(fflush(stdout));
            streams_capture(false);
            Str out = cap_out;
            ev("print: %d %zu", ok, out.size());
            if (!ok) { if (!out.empty()) violation("dir:printed-on-failure", "a failed conversion printed '%s'", show(out).c_str()); check_report_of_dir(d, nullptr, err, fs.hurt, "printing"); break; }
            char* e2 = nullptr;
            if (out.empty() || out.back() != '\n') violation("dir:printed", "the printed report is not terminated");
            NoFault nf;
            if (d.type != SR_REPORT_INVALID) {
                std::set<Str> hurt = fs.hurt;
                struct sr_report* r = LIB(sr_report_from_json_text(out.c_str(), &e2));
                if (!r) violation("dir:printed", "the printed report cannot be read: %s", e2);
                if (err) violation("dir:message-on-success", "printing succeeded with the message '%s'", err);
                if (d.type != SR_REPORT_KERNELOOPS && d.type != SR_REPORT_JAVASCRIPT) {
                    ProbDir pd = d; // JSON always marks a crash thread, the first one when none is known
                    if (pd.type == SR_REPORT_CORE && pd.want.trace.crash < 0 && !pd.want.trace.t.empty()) pd.want.trace.crash = 0;
                    for (auto& t : pd.want.trace.t) for (auto& f : t.f) if (f.n.count("fingerprint_hashed") && !f.s.count("fingerprint")) f.n["fingerprint_hashed"] = 1; // says nothing without one
                    check_report_of_dir(pd, r, nullptr, hurt, "printing");
                }
                LIB(report_free_all(r));
            }
            break;
        }
        }
        if (err) LIB(g_free(err));
        if (!fs.written.empty()) violation("dir:written", "%s was written", fs.written.begin()->c_str());
    }
    if (fs.snapshot() != snap) violation("dir:written", "a conversion changed the directory");
}
