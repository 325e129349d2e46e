// S14: a fleet of hosts meets the same crashes; a collector receives their reports late, repeatedly
// and in any order and files them by duplicate hash.
#include "model.h"
extern "C" {
#include "normalize.h"
#include "utils.h"
}
#include <algorithm>
using namespace sim;

namespace {
int flags_now;
struct Crash { int type; MTrace base; int top = 0; };     // base.t[crash] is the crashing thread
Str fresh(const char* p, uint32_t n) { return Str(p) + "_" + std::to_string(n); }

// the functions of simulated programs; none of them is treated specially by normalization
MFrame plain_frame(int type, uint32_t fn) {
    MFrame f;
    static const char* ext[] = {"parse", "run", "on_event", "do_work", "update", "handle"};
    Str name = fresh(ext[fn % 6], fn);
    switch (type) {
    case SR_REPORT_CORE: {
        uint32_t kind = fn % 8;
        f.n["address"] = 0x400000 + fn * 0x40; f.n["build_id_offset"] = 0x1000 + fn * 0x40; f.n["fingerprint_hashed"] = 1;
        f.s["file_name"] = "/usr/lib64/libapp" + std::to_string(fn % 3) + ".so.1";
        if (kind < 5) f.s["build_id"] = "aabbccdd0011223344556677889900112233440" + std::to_string(fn % 3);
        if (kind < 4 || kind == 5) f.s["function_name"] = name;
        if (kind == 6) f.s["fingerprint"] = "f00d" + std::to_string(fn);
        if (kind == 4 && fn % 3 == 0) f.n["build_id_offset"] += 1ULL << 40;
        break;
    }
    case SR_REPORT_GDB:
        f.s["function_name"] = name; f.n["address"] = 0x400000 + fn * 0x40; f.n["signal_handler_called"] = 0; f.n["number"] = 0; f.n["source_line"] = fn % 100;
        if (fn % 5 == 4) f.s["function_type"] = "std::vector<int>*";
        if (fn % 2) f.s["source_file"] = "src/app" + std::to_string(fn % 3) + ".c";
        break;
    case SR_REPORT_JAVA:
        if (fn % 7 != 6) f.s["name"] = "org.example.App." + name;
        f.s["file_name"] = "App" + std::to_string(fn) + ".java"; f.n["file_line"] = 10 + fn; f.n["is_native"] = 0; f.n["is_exception"] = 0;
        if (fn % 7 == 6) f.s["class_path"] = "/usr/share/java/app.jar";
        break;
    case SR_REPORT_KERNELOOPS:
        if (fn % 9 != 8) f.s["function_name"] = name;
        f.n["address"] = 0xffffffff81000000ULL + fn * 0x100; f.n["reliable"] = fn % 4 != 3; f.n["function_offset"] = fn; f.n["function_length"] = 0x100;
        f.n["from_address"] = 0; f.n["from_function_offset"] = 0; f.n["from_function_length"] = 0;
        if (fn % 3 == 0) f.s["module_name"] = "e1000e";
        break;
    case SR_REPORT_PYTHON: f.s["file_name"] = "/usr/lib/python3/app" + std::to_string(fn % 5) + ".py"; f.n["file_line"] = fn; f.s["function_name"] = name; f.n["special_file"] = 0; f.n["special_function"] = 0; break;
    case SR_REPORT_RUBY: f.s["file_name"] = "/usr/share/gems/app" + std::to_string(fn % 5) + ".rb"; f.n["file_line"] = fn; f.s["function_name"] = name; f.n["special_function"] = 0; f.n["block_level"] = 0; f.n["rescue_level"] = 0; break;
    default: f.s["file_name"] = "/usr/lib/node_modules/app" + std::to_string(fn % 5) + ".js"; f.n["file_line"] = fn; f.n["line_column"] = 3; f.s["function_name"] = name; break;
    }
    return f;
}
// what tells one frame from another for the duplicate hash
Str key_of(int type, const MFrame& f, int flags) {
    auto s = [&](const char* k) { auto i = f.s.find(k); return i == f.s.end() ? Str("?") : i->second; };
    auto n = [&](const char* k) { auto i = f.n.find(k); return std::to_string(i == f.n.end() ? 0 : i->second); };
    switch (type) {
    case SR_REPORT_CORE: return f.s.count("build_id") ? "B" + s("build_id") + "+" + n("build_id_offset") : f.s.count("function_name") ? "F" + s("function_name") : f.s.count("fingerprint") ? "P" + s("fingerprint") + "+" + n("build_id_offset") : "A" + n("address");
    case SR_REPORT_GDB: return s("function_type") + " " + s("function_name");
    case SR_REPORT_JAVA: return f.s.count("name") ? "N" + s("name") : "C" + s("class_path") + "/" + s("file_name") + ":" + n("file_line");
    case SR_REPORT_KERNELOOPS: {
        Str name = s("function_name");
        if (!(flags & SR_DUPHASH_NONORMALIZE)) name = name.substr(0, name.find('.'));
        return f.s.count("function_name") ? "F" + name : "A" + n("address");
    }
    default: return s("file_name") + ":" + n("file_line");
    }
}
std::vector<Str> key(int type, const MThread& t, int nframes, int flags) {
    std::vector<Str> k;
    const MFrame* prev = nullptr;
    for (auto& f : t.f) {
        // recursion counts once
        if (!(flags & SR_DUPHASH_NONORMALIZE) && (type == SR_REPORT_CORE || type == SR_REPORT_GDB) && prev && prev->s.count("function_name") && f.s.count("function_name") && prev->s.at("function_name") == f.s.at("function_name")) continue;
        prev = &f;
        if ((flags & SR_DUPHASH_KOOPS_COMPAT) && type == SR_REPORT_KERNELOOPS && !f.n.at("reliable")) continue;
        if (nframes && (int)k.size() >= nframes) break;
        k.push_back(key_of(type, f, flags));
    }
    return k;
}
bool multi(int type) { return type == SR_REPORT_CORE || type == SR_REPORT_GDB || type == SR_REPORT_JAVA; }
void shift(int type, MFrame& f, const std::vector<uint64_t>& load, uint32_t prefix, bool keep) {
    static const char* dirs[] = {"", "/opt/app/", "/builddir/build/BUILD/app-1/", "/mnt/x/"};
    if (keep) return;
    switch (type) {
    case SR_REPORT_CORE:
        if (f.s.count("build_id") || f.s.count("function_name") || f.s.count("fingerprint")) f.n["address"] += load[f.n["address"] / 0x40 % load.size()];
        f.s["file_name"] = dirs[prefix] + f.s["file_name"];
        break;
    case SR_REPORT_GDB:
        f.n["address"] += load[f.n["address"] / 0x40 % load.size()];
        if (f.s.count("source_file")) f.s["source_file"] = dirs[prefix] + f.s["source_file"];
        if (prefix) f.s["library_name"] = Str(dirs[prefix]) + "libapp.so";
        break;
    case SR_REPORT_JAVA:
        if (f.s.count("name")) { f.s["file_name"] = dirs[prefix] + f.s["file_name"]; if (prefix & 1) f.s["class_path"] = Str(dirs[prefix]) + "app.jar"; }
        if (prefix) f.s["message"] = "host " + std::to_string(prefix);
        break;
    case SR_REPORT_KERNELOOPS:
        if (f.s.count("function_name")) { f.n["address"] += load[0]; f.n["function_offset"] += prefix; f.n["function_length"] += prefix * 16; }
        f.n["from_address"] = load[0] & 0xffff0000;
        break;
    case SR_REPORT_PYTHON: if (prefix) f.s["line_contents"] = "x = " + std::to_string(prefix); break;
    }
}
struct Occ { int crash, host; MTrace m; int ct; };
Occ occurrence(const std::vector<Crash>& crashes, int c, int host, bool exact) {
    // everything here is the host's and the moment's doing, not the crash's
    Occ o; o.crash = c; o.host = host;
    const Crash& k = crashes[c];
    o.m = k.base;
    int ct = k.base.crash;
    std::vector<uint64_t> load;
    for (int i = 0; i < 3; i++) load.push_back(exact ? 0 : (uint64_t)W(1 << 20) << 12);
    uint32_t prefix = exact ? 0 : W(4);
    for (auto& t : o.m.t) for (auto& f : t.f) shift(k.type, f, load, prefix, exact);
    MThread crash = o.m.t[ct];
    if (k.type == SR_REPORT_KERNELOOPS && !exact) {
        for (auto& f : crash.f) if (!(flags_now & SR_DUPHASH_NONORMALIZE) && f.s.count("function_name") && W(4) == 3) f.s["function_name"] += W(2) ? ".isra.3" : ".part.0";
        o.m.s["version"] = "5." + std::to_string(W(20));
        o.m.n["taint_module_out_of_tree"] = W(2);
    }
    if (multi(k.type)) {
        // the other threads come in another order, some end earlier, new ones appear
        std::vector<MThread> others;
        for (size_t i = 0; i < o.m.t.size(); i++) if ((int)i != ct && (exact || W(5))) others.push_back(o.m.t[i]);
        if (!exact) for (uint32_t i = W(3); i > 0; i--) { MThread t; for (uint32_t j = 0; j < 1 + W(3); j++) t.f.push_back(plain_frame(k.type, 500 + W(60))); others.push_back(t); }
        for (size_t i = others.size(); i > 1; i--) std::swap(others[i - 1], others[W(i)]);
        size_t at = k.type == SR_REPORT_JAVA ? 0 : W(others.size() + 1);
        others.insert(others.begin() + at, crash);
        o.m.t = others;
        ct = at;
        bool twin = k.type == SR_REPORT_GDB && !exact && W(3) == 0 && crash.f.size() > 1 && crash.f[0].s.count("function_name") && crash.f[1].s.count("function_name")
            && !crash.f[0].n["signal_handler_called"] && !crash.f[1].n["signal_handler_called"];
        if (twin) { // other threads are in the same function; the first one by its frames is meant
            for (uint32_t i = 1 + W(2); i > 0; i--) {
                MThread t = crash;
                t.f[1].s["function_name"] = "zz" + Str(i, 'z') + t.f[1].s["function_name"];
                size_t pos = W(o.m.t.size() + 1);
                o.m.t.insert(o.m.t.begin() + pos, t);
                if ((int)pos <= ct) ct++;
            }
            probe("crash_frame_in_several_threads");
        }
        uint32_t tid0 = 1000 + W(30000);
        for (size_t i = 0; i < o.m.t.size(); i++) {
            MThread& t = o.m.t[i];
            if (k.type == SR_REPORT_CORE) t.n["id"] = tid0 + i;
            if (k.type == SR_REPORT_GDB) { t.n["tid"] = tid0 + i; t.n["number"] = twin && W(2) ? i + 1 : o.m.t.size() - i; for (size_t j = 0; j < t.f.size(); j++) t.f[j].n["number"] = j; }
            if (k.type == SR_REPORT_JAVA && !exact) t.s["name"] = "worker-" + std::to_string(W(50));
        }
        if (k.type == SR_REPORT_CORE) { o.m.crash = ct; o.m.s["executable"] = prefix ? "/opt/app/bin/app" : "/usr/bin/app"; }
        if (k.type == SR_REPORT_GDB) {
            if (!twin && W(2)) o.m.n["crash_tid"] = tid0 + ct;
            else { // found by the crash frame, which only this thread has on top
                o.m.n["crash_tid"] = (uint32_t)-1;
                o.m.crash_frame = std::make_shared<MFrame>(o.m.t[ct].f[0]);
                probe("crash_thread_by_frame");
            }
            o.m.crash = -1;
        } else if (k.type == SR_REPORT_JAVA) o.m.crash = -1;
    } else { o.m.t[0] = crash; o.m.crash = -1; }
    o.ct = multi(k.type) ? ct : 0;
    return o;
}
Str duphash(struct sr_stacktrace* s, int nframes, const Str& prefix, int flags, const char* where, int type) {
    auto t = LIB(sr_stacktrace_find_crash_thread(s));
    if (!t) violation("no-crash-thread", "%s: no crash thread in a %s stack trace", where, type_name(type));
    char* h = LIB(sr_thread_get_duphash(t, nframes, prefix.empty() ? nullptr : (char*)prefix.c_str(), (enum sr_duphash_flags)flags));
    Str r = h ? h : "";
    LIB(g_free(h));
    return r;
}
struct Field { const char* name; bool str; };
// details the exact hash compares, by type: of a frame, of a thread, of the whole
std::vector<Field> frame_fields(int type) {
    switch (type) {
    case SR_REPORT_CORE: return {{"address", 0}, {"build_id", 1}, {"build_id_offset", 0}, {"file_name", 1}, {"fingerprint", 1}};
    case SR_REPORT_GDB: return {{"function_name", 1}, {"function_type", 1}, {"number", 0}, {"source_file", 1}, {"source_line", 0}, {"signal_handler_called", 0}, {"address", 0}, {"library_name", 1}};
    case SR_REPORT_JAVA: return {{"name", 1}, {"file_name", 1}, {"file_line", 0}, {"class_path", 1}, {"is_native", 0}, {"is_exception", 0}, {"message", 1}};
    case SR_REPORT_KERNELOOPS: return {{"address", 0}, {"reliable", 0}, {"function_name", 1}, {"function_offset", 0}, {"function_length", 0}, {"module_name", 1}, {"from_address", 0}, {"from_function_name", 1}, {"from_function_offset", 0}, {"from_function_length", 0}, {"from_module_name", 1}};
    case SR_REPORT_PYTHON: return {{"file_name", 1}, {"special_file", 0}, {"file_line", 0}, {"function_name", 1}, {"special_function", 0}, {"line_contents", 1}};
    case SR_REPORT_RUBY: return {{"file_name", 1}, {"file_line", 0}, {"function_name", 1}, {"special_function", 0}, {"block_level", 0}, {"rescue_level", 0}};
    default: return {{"file_name", 1}, {"file_line", 0}, {"function_name", 1}};
    }
}
bool flip(MObj& o, const Field& f, Str* what) {
    *what = f.name;
    if (f.str) {
        auto i = o.s.find(f.name);
        if (i == o.s.end()) o.s[f.name] = "added";
        else switch (W(4)) {
        case 0: i->second += "x"; break;
        case 1: i->second = "other"; break;
        case 2: i->second[W(i->second.size())] ^= 1; if (i->second.find_first_of("\n\r,") != Str::npos) return false; break;
        default: o.s.erase(i);
        }
    } else {
        uint64_t v = o.n[f.name];
        bool flag = !strcmp(f.name, "reliable") || !strncmp(f.name, "is_", 3) || !strncmp(f.name, "special_", 8) || !strcmp(f.name, "signal_handler_called") || !strncmp(f.name, "taint_", 6);
        bool wide = strstr(f.name, "address") || strstr(f.name, "offset") || strstr(f.name, "length") || !strcmp(f.name, "from") || !strcmp(f.name, "to");
        bool narrow = !strcmp(f.name, "signal");
        o.n[f.name] = flag ? !v : wide ? v ^ (1ULL << W(64)) : narrow ? (uint16_t)(v ^ (1u << W(16))) : (uint32_t)(v ^ (1u << W(32)));
    }
    return true;
}
bool mutate(MTrace& m, Str* what) {
    uint32_t k = W(6);
    Str d;
    if (k == 5) { // of the whole
        switch (m.type) {
        case SR_REPORT_CORE: return W(2) ? flip(m, {"signal", 0}, what) : flip(m, {"executable", 1}, what);
        case SR_REPORT_KERNELOOPS: {
            uint32_t q = W(3);
            if (q == 0) return flip(m, {"version", 1}, what);
            if (q == 1) { m.modules.push_back("extra"); m.has_modules = true; *what = "modules"; return true; }
            std::vector<Str> names; for (auto& x : m.n) if (!x.first.compare(0, 6, "taint_")) names.push_back(x.first);
            Str n = names[W(names.size())]; m.n[n] = !m.n[n]; *what = n; return true;
        }
        case SR_REPORT_PYTHON: case SR_REPORT_RUBY: case SR_REPORT_JAVASCRIPT: return flip(m, {"exception_name", 1}, what);
        case SR_REPORT_JAVA: return flip(m.t[W(m.t.size())], {"name", 1}, what);
        case SR_REPORT_GDB:
            if (m.libs.empty() || W(3) == 0) { *what = "thread number"; m.t[W(m.t.size())].n["number"] ^= 1u << W(8); return true; }
            { static const Field lf[] = {{"from", 0}, {"to", 0}, {"soname", 1}}; return flip(m.libs[W(m.libs.size())], lf[W(3)], what); }
        }
    }
    size_t ti = W(m.t.size());
    MThread& t = m.t[ti];
    if (t.f.empty()) return false;
    size_t fi = W(t.f.size());
    if (k == 4) { // the frames themselves
        if (W(2)) { t.f.erase(t.f.begin() + fi); *what = "a frame removed"; return true; }
        t.f.insert(t.f.begin() + fi, t.f[fi]); *what = "a frame repeated"; return true;
    }
    auto ff = frame_fields(m.type);
    return flip(t.f[fi], ff[W(ff.size())], what);
}
} // namespace

WORLD(fleet) {
    plan_faults({F_MSG_LOSS, F_MSG_DUP, F_MSG_REORDER, F_MSG_DELAY, F_PARTITION, F_OWNER_CRASH, F_REFORMAT}, 40);
    int type = gen_type(true);
    uint32_t nc = 1 + W(4), hosts = 1 + W(4);
    // ---- the crashes: the same program, failing in slightly different places
    std::vector<Crash> crashes;
    for (uint32_t c = 0; c < nc; c++) {
        Crash k; k.type = type;
        if (c && W(3)) { // close relative of an earlier one
            k = crashes[W(c)];
            auto& f = k.base.t[k.base.crash].f;
            size_t top = std::min<size_t>(f.size(), 4);
            switch (W(5)) {
            case 0: f[W(top)] = plain_frame(type, 300 + W(100)); break;
            case 1: if (f.size() > 1) { size_t i = W(std::min<size_t>(f.size() - 1, 3)); std::swap(f[i], f[i + 1]); } break;
            case 2: f.insert(f.begin() + W(top), plain_frame(type, 400 + W(50))); break;
            case 3: if (f.size() > 1) f.erase(f.begin() + W(top)); break;
            default: { // a name one character away
                MFrame& x = f[W(top)];
                for (auto key : {"function_name", "name"}) if (x.s.count(key)) x.s[key] += "b";
                if (x.n.count("file_line")) x.n["file_line"] += 1;
                if (x.n.count("build_id_offset")) x.n["build_id_offset"] += W(2) ? 1 : 1ULL << 32;
            }
            }
        } else {
            k.base.type = type;
            uint32_t nt = multi(type) ? 1 + W(4) : 1;
            k.base.crash = W(nt);
            for (uint32_t i = 0; i < nt; i++) {
                MThread t;
                uint32_t n = 1 + W(9);
                for (uint32_t j = 0; j < n; j++) {
                    if (!t.f.empty() && W(8) == 7) { t.f.push_back(t.f.back()); continue; } // recursion
                    t.f.push_back(plain_frame(type, (i == (uint32_t)k.base.crash ? 0 : 200) + W(90)));
                }
                if (type == SR_REPORT_JAVA) t.s["name"] = "main";
                k.base.t.push_back(t);
            }
            if (type == SR_REPORT_CORE) { k.base.n["signal"] = 11; k.base.n["only_crash_thread"] = 0; k.base.s["executable"] = "/usr/bin/app"; }
            if (type == SR_REPORT_KERNELOOPS) {
                k.base.s["version"] = "5.1"; k.base.has_modules = true; k.base.modules = {"e1000e", "ext4"};
                for (int x = 0; taint_names[x]; x++) k.base.n[Str("taint_") + taint_names[x]] = 0;
            }
            if (type == SR_REPORT_PYTHON || type == SR_REPORT_RUBY || type == SR_REPORT_JAVASCRIPT) k.base.s["exception_name"] = "ValueError";
            if (type == SR_REPORT_JAVASCRIPT) k.base.n["platform"] = 1u << 4 | 1;
            if (type == SR_REPORT_GDB && W(2))
                for (uint32_t x = 1 + W(3); x; x--) {
                    MObj l;
                    l.n["from"] = 0x100000 * (4 + x); l.n["to"] = 0x100000 * (5 + x); l.n["symbols"] = 0;
                    l.s["soname"] = "/usr/lib64/libapp" + std::to_string(x) + ".so.1";
                    k.base.libs.push_back(l);
                }
        }
        if (k.base.t[k.base.crash].f.empty()) k.base.t[k.base.crash].f.push_back(plain_frame(type, W(90)));
        crashes.push_back(k);
    }
    static const int flagv[] = {SR_DUPHASH_NORMAL, SR_DUPHASH_NORMAL, SR_DUPHASH_NONORMALIZE, SR_DUPHASH_NORMAL | SR_DUPHASH_NOHASH, SR_DUPHASH_KOOPS_COMPAT};
    flags_now = flagv[W(5)];
    static const int nfv[] = {0, 1, 2, 3, 5, 16};
    int nframes = nfv[W(6)];
    Str prefix = W(2) ? Str() : Str("component-") + std::to_string(W(3));
    // ---- what happened where
    std::vector<Occ> occ;
    uint32_t no = 2 + W(7);
    for (uint32_t i = 0; i < no; i++) occ.push_back(occurrence(crashes, W(nc), W(hosts), false));
    std::vector<Str> host_hash, wire, exact;
    for (auto& o : occ) {
        auto s = LIB(trace_to(o.m));
        auto crash = LIB(sr_stacktrace_find_crash_thread(s));
        int at = 0;
        if (multi(type)) { at = -1; int k = 0; for (auto t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), k++) if (t == crash) at = k; }
        if (at != o.ct) violation("crash-thread", "the crash of host %d is in thread %d, found %d (%s)", o.host, o.ct, at, type_name(type));
        char* b = LIB(sr_stacktrace_get_bthash(s, SR_BTHASH_NORMAL));
        exact.push_back(b);
        LIB(g_free(b));
        Str h = duphash(s, nframes, prefix, flags_now, "host", type);
        // the digest is the digest of the text it is documented to be of
        if (!(flags_now & SR_DUPHASH_NOHASH) && !h.empty()) {
            Str txt = duphash(s, nframes, prefix, flags_now | SR_DUPHASH_NOHASH, "host", type);
            char* d = g_compute_checksum_for_data(G_CHECKSUM_SHA1, (const guchar*)txt.data(), txt.size());
            if (h != d) violation("digest", "the duplicate hash is not the digest of its text");
            g_free(d);
            if (txt.compare(0, prefix.size(), prefix)) violation("prefix", "the text does not start with the prefix");
        }
        b = LIB(sr_stacktrace_get_bthash(s, SR_BTHASH_NORMAL));
        if (exact.back() != b) violation("disturbed:bthash", "computing a duplicate hash changed the exact hash of a %s crash", type_name(type));
        LIB(g_free(b));
        Str d = diff(o.m, trace_of(s));
        if (!d.empty()) violation("disturbed:data", "computing hashes changed the crash: %s", d.c_str());
        if (duphash(s, nframes, prefix, flags_now, "host again", type) != h) violation("unstable", "the second computation gives another duplicate hash");
        if (type == SR_REPORT_GDB && !(flags_now & SR_DUPHASH_NONORMALIZE)) {
            // a host that normalizes before hashing
            auto c = LIB(sr_gdb_stacktrace_dup((struct sr_gdb_stacktrace*)s));
            LIB(sr_normalize_gdb_stacktrace(c));
            if (duphash((struct sr_stacktrace*)c, nframes, prefix, flags_now, "normalized host", type) != h) violation("normalized-first", "normalizing first changes the duplicate hash of a crash with nothing special in it");
            LIB(sr_gdb_stacktrace_free(c));
        }
        if (type == SR_REPORT_KERNELOOPS && !(flags_now & SR_DUPHASH_NONORMALIZE)) {
            auto c = LIB(sr_koops_stacktrace_dup((struct sr_koops_stacktrace*)s));
            LIB(sr_normalize_koops_stacktrace(c));
            if (duphash((struct sr_stacktrace*)c, nframes, prefix, flags_now, "normalized host", type) != h) violation("normalized-first", "normalizing first changes the duplicate hash of an oops with nothing special in it");
            LIB(sr_koops_stacktrace_free(c));
        }
        host_hash.push_back(h);
        Str w;
        if (type != SR_REPORT_GDB) { char* j = LIB(sr_stacktrace_to_json(s)); w = j; LIB(g_free(j)); }
        wire.push_back(w);
        LIB(sr_stacktrace_free(s));
        ev("host %d crash %d: %s threads %zu frames %zu hash %.8s", o.host, o.crash, type_name(type), o.m.t.size(), o.m.t[o.ct].f.size(), (flags_now & SR_DUPHASH_NOHASH) ? "text" : h.c_str());
        state(hash_str(h) ^ o.m.t.size());
        // the exact hash of anything that differs in a compared detail
        for (int k = W(3); k > 0; k--) {
            MTrace m2 = o.m; Str what;
            if (!mutate(m2, &what)) continue;
            auto s2 = LIB(trace_to(m2));
            char* b2 = LIB(sr_stacktrace_get_bthash(s2, SR_BTHASH_NORMAL));
            if (exact.back() == b2) violation("bthash:" + what, "two %s crashes that differ in %s have the same exact hash", type_name(type), what.c_str());
            LIB(g_free(b2));
            LIB(sr_stacktrace_free(s2));
        }
    }
    // ---- delivery
    struct Msg { uint64_t at; int occ; Str body; int id; };
    std::vector<Msg> net;
    std::map<int, uint64_t> cut;                  // host -> until
    std::vector<bool> acked(no, false);
    std::vector<std::pair<int, Str>> stored;      // what survives a restart of the collector
    std::map<Str, std::set<int>> buckets;
    uint64_t now = 0;
    int ids = 0;
    auto collect = [&](int oi, const Str& body) {
        struct sr_stacktrace* s;
        if (type == SR_REPORT_GDB) s = LIB(trace_to(occ[oi].m));
        else {
            char* err = nullptr;
            s = LIB(sr_stacktrace_from_json_text((enum sr_report_type)type, body.c_str(), &err));
            if (!s) violation("unreadable", "the collector cannot read a %s crash: %s", type_name(type), err ? err : "no message");
        }
        Str h = duphash(s, nframes, prefix, flags_now, "collector", type);
        if (h != host_hash[oi]) violation("collector-differs", "crash %d of host %d: the collector computes another duplicate hash than the host", occ[oi].crash, occ[oi].host);
        if (W(2)) {
            char* b = LIB(sr_stacktrace_get_bthash(s, SR_BTHASH_NORMAL));
            if (exact[oi] != b) violation("collector-bthash", "crash %d of host %d: the collector computes another exact hash than the host", occ[oi].crash, occ[oi].host);
            LIB(g_free(b));
        }
        LIB(sr_stacktrace_free(s));
        buckets[h].insert(oi);
    };
    for (uint32_t step = 0;; step++) {
        if (step == 40) no_faults();
        if (step > 90) violation("progress", "reports are still missing long after the last fault");
        now += 1000000; sim_time(1000000);
        bool all = true;
        for (uint32_t i = 0; i < no; i++) {
            if (acked[i]) continue;
            all = false;
            if (fault(F_PARTITION)) { cut[occ[i].host] = now + 5000000; ev("host %d cut off", occ[i].host); }
            if (cut[occ[i].host] > now) continue;
            uint32_t copies = 1 + (fault(F_MSG_DUP) ? 1 : 0);
            for (; copies; copies--) {
                if (fault(F_MSG_LOSS)) { ev("report %u lost", i); continue; }
                Str body = wire[i];
                if (!body.empty() && fault(F_REFORMAT)) {
                    JVal v; Str e;
                    if (!json_parse(body, &v, &e)) violation("not-json", "%s", e.c_str());
                    JStyle st; st.ws = F(3); st.esc = F(3); st.shuffle = F(2); st.extra = 0;
                    body = json_write(v, st);
                    probe("reformatted");
                }
                net.push_back({now + (fault(F_MSG_DELAY) ? (1 + F(8)) * 1000000 : 0) + F(3) * 1000, (int)i, body, ids++});
            }
        }
        std::stable_sort(net.begin(), net.end(), [](const Msg& a, const Msg& b) { return a.at < b.at; });
        if (net.size() > 1 && fault(F_MSG_REORDER)) std::swap(net[F(net.size())], net[0]);
        while (!net.empty() && net[0].at <= now + 5000) {
            Msg m = net[0];
            net.erase(net.begin());
            if (fault(F_OWNER_CRASH)) { // the collector dies before or after storing, and files everything stored again
                if (F(2)) stored.push_back({m.occ, m.body});
                ev("collector restarts with %zu reports", stored.size());
                buckets.clear();
                for (auto& x : stored) collect(x.first, x.second);
                continue;
            }
            stored.push_back({m.occ, m.body});
            collect(m.occ, m.body);
            acked[m.occ] = true;
        }
        if (all && net.empty()) break;
    }
    // ---- verdict
    std::vector<std::vector<Str>> keys;
    for (auto& o : occ) keys.push_back(key(type, o.m.t[o.ct], nframes, flags_now));
    std::vector<Str> bucket_of(no);
    for (auto& b : buckets) for (int i : b.second) { if (!bucket_of[i].empty()) violation("two-buckets", "one report is filed twice"); bucket_of[i] = b.first.empty() ? "-" : b.first; }
    for (uint32_t i = 0; i < no; i++) for (uint32_t j = 0; j < i; j++) {
        if (occ[i].crash == occ[j].crash && keys[i] != keys[j]) violation("model", "the model itself tells two occurrences of one crash apart");
        bool same = bucket_of[i] == bucket_of[j];
        if (keys[i] == keys[j] && !same) violation("split", "%s crash %d: hosts %d and %d report the same functions and are filed under two hashes", type_name(type), occ[i].crash, occ[i].host, occ[j].host);
        if (keys[i] != keys[j] && same) violation("merged", "%s crashes %d and %d differ in the top %d functions and are filed under one hash", type_name(type), occ[i].crash, occ[j].crash, nframes);
    }
    if (buckets.size() > 1) probe("several_buckets");
    nontrivial();
    if (ledger_live()) violation("leak:fleet", "%zu blocks left", ledger_live());
}
