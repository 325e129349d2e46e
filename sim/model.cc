#include "model.h"
#include <algorithm>
#include <stddef.h>
namespace sim {
static void gs(MObj& m, const char* k, const char* v) { if (v) m.s[k] = v; }
struct TaintM { const char* name; size_t off; };
#define TM(x) {#x, offsetof(struct sr_koops_stacktrace, taint_##x)}
static const TaintM taints[] = {TM(module_proprietary), TM(forced_module), TM(smp_unsafe), TM(forced_removal), TM(mce), TM(page_release), TM(userspace),
    TM(died_recently), TM(acpi_overridden), TM(warning), TM(staging_driver), TM(firmware_workaround), TM(module_out_of_tree), TM(unsigned_module),
    TM(soft_lockup), TM(live_patched)};
const char* taint_names[] = {"module_proprietary", "forced_module", "smp_unsafe", "forced_removal", "mce", "page_release", "userspace", "died_recently",
    "acpi_overridden", "warning", "staging_driver", "firmware_workaround", "module_out_of_tree", "unsigned_module", "soft_lockup", "live_patched", nullptr};
const char* type_name(int t) {
    switch (t) {
    case SR_REPORT_CORE: return "core"; case SR_REPORT_PYTHON: return "python"; case SR_REPORT_KERNELOOPS: return "kerneloops";
    case SR_REPORT_JAVA: return "java"; case SR_REPORT_GDB: return "gdb"; case SR_REPORT_RUBY: return "ruby"; case SR_REPORT_JAVASCRIPT: return "javascript";
    }
    return "invalid";
}

// ------------------------------------------------------------- reading library objects
MFrame frame_of(const struct sr_frame* fr) {
    MFrame m;
    switch (fr->type) {
    case SR_REPORT_CORE: {
        auto f = (const struct sr_core_frame*)fr;
        m.n["address"] = f->address; m.n["build_id_offset"] = f->build_id_offset; m.n["fingerprint_hashed"] = f->fingerprint_hashed;
        gs(m, "build_id", f->build_id); gs(m, "function_name", f->function_name); gs(m, "file_name", f->file_name); gs(m, "fingerprint", f->fingerprint);
        break;
    }
    case SR_REPORT_PYTHON: {
        auto f = (const struct sr_python_frame*)fr;
        m.n["special_file"] = f->special_file; m.n["file_line"] = f->file_line; m.n["special_function"] = f->special_function;
        gs(m, "file_name", f->file_name); gs(m, "function_name", f->function_name); gs(m, "line_contents", f->line_contents);
        break;
    }
    case SR_REPORT_KERNELOOPS: {
        auto f = (const struct sr_koops_frame*)fr;
        m.n["address"] = f->address; m.n["reliable"] = f->reliable; m.n["function_offset"] = f->function_offset; m.n["function_length"] = f->function_length;
        m.n["from_address"] = f->from_address; m.n["from_function_offset"] = f->from_function_offset; m.n["from_function_length"] = f->from_function_length;
        gs(m, "function_name", f->function_name); gs(m, "module_name", f->module_name); gs(m, "from_function_name", f->from_function_name);
        gs(m, "from_module_name", f->from_module_name); gs(m, "special_stack", f->special_stack);
        break;
    }
    case SR_REPORT_JAVA: {
        auto f = (const struct sr_java_frame*)fr;
        m.n["file_line"] = f->file_line; m.n["is_native"] = f->is_native; m.n["is_exception"] = f->is_exception;
        gs(m, "name", f->name); gs(m, "file_name", f->file_name); gs(m, "class_path", f->class_path); gs(m, "message", f->message);
        break;
    }
    case SR_REPORT_GDB: {
        auto f = (const struct sr_gdb_frame*)fr;
        m.n["number"] = f->number; m.n["source_line"] = f->source_line; m.n["signal_handler_called"] = f->signal_handler_called; m.n["address"] = f->address;
        gs(m, "function_name", f->function_name); gs(m, "function_type", f->function_type); gs(m, "source_file", f->source_file); gs(m, "library_name", f->library_name);
        break;
    }
    case SR_REPORT_RUBY: {
        auto f = (const struct sr_ruby_frame*)fr;
        m.n["file_line"] = f->file_line; m.n["special_function"] = f->special_function; m.n["block_level"] = f->block_level; m.n["rescue_level"] = f->rescue_level;
        gs(m, "file_name", f->file_name); gs(m, "function_name", f->function_name);
        break;
    }
    case SR_REPORT_JAVASCRIPT: {
        auto f = (const struct sr_js_frame*)fr;
        m.n["file_line"] = f->file_line; m.n["line_column"] = f->line_column;
        gs(m, "file_name", f->file_name); gs(m, "function_name", f->function_name);
        break;
    }
    default: m.s["?"] = "frame of unknown type " + std::to_string(fr->type);
    }
    return m;
}
template <class T> static void frames_of(std::vector<MFrame>& v, T* f) { for (; f; f = f->next) v.push_back(frame_of((struct sr_frame*)f)); }
MThread thread_of(struct sr_thread* th) {
    MThread m;
    switch (th->type) {
    case SR_REPORT_CORE: frames_of(m.f, ((struct sr_core_thread*)th)->frames); break;   // the id is not part of the persistent data
    case SR_REPORT_JAVA: gs(m, "name", ((struct sr_java_thread*)th)->name); frames_of(m.f, ((struct sr_java_thread*)th)->frames); break;
    case SR_REPORT_GDB: {
        auto t = (struct sr_gdb_thread*)th;
        m.n["number"] = t->number; m.n["tid"] = t->tid;
        frames_of(m.f, t->frames);
        break;
    }
    case SR_REPORT_PYTHON: frames_of(m.f, ((struct sr_python_stacktrace*)th)->frames); break;
    case SR_REPORT_KERNELOOPS: frames_of(m.f, ((struct sr_koops_stacktrace*)th)->frames); break;
    case SR_REPORT_RUBY: frames_of(m.f, ((struct sr_ruby_stacktrace*)th)->frames); break;
    case SR_REPORT_JAVASCRIPT: frames_of(m.f, ((struct sr_js_stacktrace*)th)->frames); break;
    }
    return m;
}
MTrace trace_of(struct sr_stacktrace* sp) {
    MTrace m;
    m.type = sp->type;
    switch (sp->type) {
    case SR_REPORT_CORE: {
        auto st = (struct sr_core_stacktrace*)sp;
        m.n["signal"] = st->signal; m.n["only_crash_thread"] = st->only_crash_thread;
        gs(m, "executable", st->executable);
        bool found = false;
        for (auto t = st->threads; t; t = t->next) {
            if (t == st->crash_thread) { m.crash = (int)m.t.size(); found = true; }
            m.t.push_back(thread_of((struct sr_thread*)t));
        }
        if (st->crash_thread && !found) m.s["?"] = "crash_thread is not one of the threads";
        break;
    }
    case SR_REPORT_GDB: {
        auto st = (struct sr_gdb_stacktrace*)sp;
        m.n["crash_tid"] = st->crash_tid;
        for (auto t = st->threads; t; t = t->next) m.t.push_back(thread_of((struct sr_thread*)t));
        for (auto l = st->libs; l; l = l->next) {
            MObj o;
            o.n["from"] = l->from; o.n["to"] = l->to; o.n["symbols"] = (uint64_t)(int64_t)l->symbols;
            gs(o, "soname", l->soname);
            m.libs.push_back(o);
        }
        if (st->crash) m.crash_frame = std::make_shared<MFrame>(frame_of((struct sr_frame*)st->crash));
        break;
    }
    case SR_REPORT_JAVA:
        for (auto t = ((struct sr_java_stacktrace*)sp)->threads; t; t = t->next) m.t.push_back(thread_of((struct sr_thread*)t));
        break;
    case SR_REPORT_PYTHON: gs(m, "exception_name", ((struct sr_python_stacktrace*)sp)->exception_name); m.t.push_back(thread_of((struct sr_thread*)sp)); break;
    case SR_REPORT_RUBY: gs(m, "exception_name", ((struct sr_ruby_stacktrace*)sp)->exception_name); m.t.push_back(thread_of((struct sr_thread*)sp)); break;
    case SR_REPORT_JAVASCRIPT:
        gs(m, "exception_name", ((struct sr_js_stacktrace*)sp)->exception_name);
        m.n["platform"] = ((struct sr_js_stacktrace*)sp)->platform;
        m.t.push_back(thread_of((struct sr_thread*)sp));
        break;
    case SR_REPORT_KERNELOOPS: {
        auto st = (struct sr_koops_stacktrace*)sp;
        gs(m, "version", st->version); gs(m, "raw_oops", st->raw_oops); gs(m, "reason", st->reason);
        for (auto& x : taints) m.n[Str("taint_") + x.name] = *(bool*)((char*)st + x.off);
        m.has_modules = st->modules != nullptr;
        if (st->modules) for (char** p = st->modules; *p; p++) m.modules.push_back(*p);
        m.t.push_back(thread_of((struct sr_thread*)sp));
        break;
    }
    }
    return m;
}
MPkg pkg_of(struct sr_rpm_package* p) {
    MPkg m;
    gs(m, "name", p->name); gs(m, "version", p->version); gs(m, "release", p->release); gs(m, "architecture", p->architecture);
    m.n["epoch"] = p->epoch; m.n["install_time"] = p->install_time; m.n["role"] = p->role;
    return m;
}
std::vector<MPkg> pkgs_of(struct sr_rpm_package* p) { std::vector<MPkg> v; for (; p; p = p->next) v.push_back(pkg_of(p)); return v; }
MObj os_of(struct sr_operating_system* os) {
    MObj m;
    gs(m, "name", os->name); gs(m, "version", os->version); gs(m, "architecture", os->architecture); gs(m, "cpe", os->cpe); gs(m, "desktop", os->desktop); gs(m, "variant", os->variant);
    m.n["uptime"] = os->uptime;
    return m;
}
MReport report_of(struct sr_report* r) {
    MReport m;
    m.type = r->report_type;
    m.n["report_version"] = r->report_version; m.n["user_root"] = r->user_root; m.n["user_local"] = r->user_local; m.n["serial"] = r->serial;
    gs(m, "reporter_name", r->reporter_name); gs(m, "reporter_version", r->reporter_version); gs(m, "component_name", r->component_name);
    m.has_os = r->operating_system != nullptr;
    if (m.has_os) m.os = os_of(r->operating_system);
    m.pkgs = pkgs_of(r->rpm_packages);
    m.has_trace = r->stacktrace != nullptr;
    if (m.has_trace) m.trace = trace_of(r->stacktrace);
    for (auto e = r->auth_entries; e; e = e->next) m.auth.push_back({e->key ? e->key : "(null)", e->value ? e->value : "(null)"});
    return m;
}

// ------------------------------------------------------------- building library objects
static char* dup(const MObj& m, const char* k) { auto i = m.s.find(k); return i == m.s.end() ? nullptr : g_strdup(i->second.c_str()); }
static uint64_t num(const MObj& m, const char* k, uint64_t d = 0) { auto i = m.n.find(k); return i == m.n.end() ? d : i->second; }
struct sr_frame* frame_to(int type, const MFrame& m) {
    switch (type) {
    case SR_REPORT_CORE: {
        auto f = sr_core_frame_new();
        f->address = num(m, "address", NOADDR); f->build_id_offset = num(m, "build_id_offset", NOADDR); f->fingerprint_hashed = num(m, "fingerprint_hashed", 1);
        f->build_id = dup(m, "build_id"); f->function_name = dup(m, "function_name"); f->file_name = dup(m, "file_name"); f->fingerprint = dup(m, "fingerprint");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_PYTHON: {
        auto f = sr_python_frame_new();
        f->special_file = num(m, "special_file"); f->file_line = num(m, "file_line"); f->special_function = num(m, "special_function");
        f->file_name = dup(m, "file_name"); f->function_name = dup(m, "function_name"); f->line_contents = dup(m, "line_contents");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_KERNELOOPS: {
        auto f = sr_koops_frame_new();
        f->address = num(m, "address"); f->reliable = num(m, "reliable"); f->function_offset = num(m, "function_offset"); f->function_length = num(m, "function_length");
        f->from_address = num(m, "from_address"); f->from_function_offset = num(m, "from_function_offset"); f->from_function_length = num(m, "from_function_length");
        f->function_name = dup(m, "function_name"); f->module_name = dup(m, "module_name"); f->from_function_name = dup(m, "from_function_name");
        f->from_module_name = dup(m, "from_module_name"); f->special_stack = dup(m, "special_stack");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_JAVA: {
        auto f = sr_java_frame_new();
        f->file_line = num(m, "file_line"); f->is_native = num(m, "is_native"); f->is_exception = num(m, "is_exception");
        f->name = dup(m, "name"); f->file_name = dup(m, "file_name"); f->class_path = dup(m, "class_path"); f->message = dup(m, "message");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_GDB: {
        auto f = sr_gdb_frame_new();
        f->number = num(m, "number"); f->source_line = num(m, "source_line"); f->signal_handler_called = num(m, "signal_handler_called"); f->address = num(m, "address");
        f->function_name = dup(m, "function_name"); f->function_type = dup(m, "function_type"); f->source_file = dup(m, "source_file"); f->library_name = dup(m, "library_name");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_RUBY: {
        auto f = sr_ruby_frame_new();
        f->file_line = num(m, "file_line"); f->special_function = num(m, "special_function"); f->block_level = num(m, "block_level"); f->rescue_level = num(m, "rescue_level");
        f->file_name = dup(m, "file_name"); f->function_name = dup(m, "function_name");
        return (struct sr_frame*)f;
    }
    case SR_REPORT_JAVASCRIPT: {
        auto f = sr_js_frame_new();
        f->file_line = num(m, "file_line"); f->line_column = num(m, "line_column");
        f->file_name = dup(m, "file_name"); f->function_name = dup(m, "function_name");
        return (struct sr_frame*)f;
    }
    }
    return nullptr;
}
template <class F> static F* frames_to(int type, const std::vector<MFrame>& v) {
    F *head = nullptr, *tail = nullptr;
    for (auto& x : v) {
        F* f = (F*)frame_to(type, x);
        if (tail) tail->next = f; else head = f;
        tail = f;
    }
    return head;
}
struct sr_thread* thread_to(int type, const MThread& m) {
    switch (type) {
    case SR_REPORT_CORE: { auto t = sr_core_thread_new(); t->id = num(m, "id"); t->frames = frames_to<struct sr_core_frame>(type, m.f); return (struct sr_thread*)t; }
    case SR_REPORT_JAVA: { auto t = sr_java_thread_new(); t->name = dup(m, "name"); t->frames = frames_to<struct sr_java_frame>(type, m.f); return (struct sr_thread*)t; }
    case SR_REPORT_GDB: { auto t = sr_gdb_thread_new(); t->number = num(m, "number"); t->tid = num(m, "tid", (uint32_t)-1); t->frames = frames_to<struct sr_gdb_frame>(type, m.f); return (struct sr_thread*)t; }
    }
    return nullptr;
}
template <class T> static T* threads_to(int type, const std::vector<MThread>& v) {
    T *head = nullptr, *tail = nullptr;
    for (auto& x : v) {
        T* t = (T*)thread_to(type, x);
        if (tail) tail->next = t; else head = t;
        tail = t;
    }
    return head;
}
struct sr_stacktrace* trace_to(const MTrace& m) {
    switch (m.type) {
    case SR_REPORT_CORE: {
        auto st = sr_core_stacktrace_new();
        st->signal = num(m, "signal"); st->only_crash_thread = num(m, "only_crash_thread"); st->executable = dup(m, "executable");
        st->threads = threads_to<struct sr_core_thread>(m.type, m.t);
        int i = 0;
        for (auto t = st->threads; t; t = t->next, i++) if (i == m.crash) st->crash_thread = t;
        return (struct sr_stacktrace*)st;
    }
    case SR_REPORT_GDB: {
        auto st = sr_gdb_stacktrace_new();
        st->crash_tid = num(m, "crash_tid", (uint32_t)-1);
        st->threads = threads_to<struct sr_gdb_thread>(m.type, m.t);
        for (auto& l : m.libs) {
            auto s = sr_gdb_sharedlib_new();
            s->from = num(l, "from"); s->to = num(l, "to"); s->symbols = (int)num(l, "symbols"); s->soname = dup(l, "soname");
            st->libs = sr_gdb_sharedlib_append(st->libs, s);
        }
        if (m.crash_frame) st->crash = (struct sr_gdb_frame*)frame_to(m.type, *m.crash_frame);
        return (struct sr_stacktrace*)st;
    }
    case SR_REPORT_JAVA: { auto st = sr_java_stacktrace_new(); st->threads = threads_to<struct sr_java_thread>(m.type, m.t); return (struct sr_stacktrace*)st; }
    case SR_REPORT_PYTHON: { auto st = sr_python_stacktrace_new(); st->exception_name = dup(m, "exception_name"); st->frames = frames_to<struct sr_python_frame>(m.type, m.t[0].f); return (struct sr_stacktrace*)st; }
    case SR_REPORT_RUBY: { auto st = sr_ruby_stacktrace_new(); st->exception_name = dup(m, "exception_name"); st->frames = frames_to<struct sr_ruby_frame>(m.type, m.t[0].f); return (struct sr_stacktrace*)st; }
    case SR_REPORT_JAVASCRIPT: {
        auto st = sr_js_stacktrace_new(); st->exception_name = dup(m, "exception_name"); st->platform = num(m, "platform");
        st->frames = frames_to<struct sr_js_frame>(m.type, m.t[0].f); return (struct sr_stacktrace*)st;
    }
    case SR_REPORT_KERNELOOPS: {
        auto st = sr_koops_stacktrace_new();
        st->version = dup(m, "version"); st->raw_oops = dup(m, "raw_oops"); st->reason = dup(m, "reason");
        for (auto& x : taints) *(bool*)((char*)st + x.off) = num(m, (Str("taint_") + x.name).c_str());
        if (m.has_modules) {
            st->modules = (char**)g_malloc((m.modules.size() + 1) * sizeof(char*));
            size_t i = 0;
            for (auto& s : m.modules) st->modules[i++] = g_strdup(s.c_str());
            st->modules[i] = nullptr;
        }
        st->frames = frames_to<struct sr_koops_frame>(m.type, m.t[0].f);
        return (struct sr_stacktrace*)st;
    }
    }
    return nullptr;
}
struct sr_rpm_package* pkg_to(const MPkg& m) {
    auto p = sr_rpm_package_new();
    p->name = dup(m, "name"); p->version = dup(m, "version"); p->release = dup(m, "release"); p->architecture = dup(m, "architecture");
    p->epoch = num(m, "epoch"); p->install_time = num(m, "install_time"); p->role = (enum sr_package_role)num(m, "role");
    return p;
}
struct sr_operating_system* os_to(const MObj& m) {
    auto o = sr_operating_system_new();
    o->name = dup(m, "name"); o->version = dup(m, "version"); o->architecture = dup(m, "architecture"); o->cpe = dup(m, "cpe"); o->desktop = dup(m, "desktop"); o->variant = dup(m, "variant");
    o->uptime = num(m, "uptime");
    return o;
}
static char *def_name, *def_version;
static void defaults() { if (def_name) return; Out o; auto r = sr_report_new(); def_name = r->reporter_name; def_version = r->reporter_version; sr_report_free(r); }
struct sr_report* report_to(const MReport& m) {
    defaults();
    auto r = sr_report_new();
    r->report_type = (enum sr_report_type)m.type;
    r->report_version = num(m, "report_version"); r->user_root = num(m, "user_root"); r->user_local = num(m, "user_local"); r->serial = num(m, "serial");
    if (m.s.count("reporter_name")) r->reporter_name = dup(m, "reporter_name");
    if (m.s.count("reporter_version")) r->reporter_version = dup(m, "reporter_version");
    r->component_name = dup(m, "component_name");
    if (m.has_os) r->operating_system = os_to(m.os);
    struct sr_rpm_package* tail = nullptr;
    for (auto& p : m.pkgs) { auto x = pkg_to(p); if (tail) tail->next = x; else r->rpm_packages = x; tail = x; }
    if (m.has_trace) r->stacktrace = trace_to(m.trace);
    for (size_t i = m.auth.size(); i-- > 0;) sr_report_add_auth(r, m.auth[i].first.c_str(), m.auth[i].second.c_str());
    return r;
}
void report_free_all(struct sr_report* r) {
    defaults();
    // the reporter strings are not released by sr_report_free(); whoever set them releases them
    char *a = r->reporter_name, *b = r->reporter_version;
    sr_report_free(r);
    if (a != def_name) g_free(a);
    if (b != def_version) g_free(b);
}

// ------------------------------------------------------------- comparison
Str diff(const MObj& a, const MObj& b, const Str& path) {
    for (auto& x : a.s) {
        auto i = b.s.find(x.first);
        if (i == b.s.end()) return path + "." + x.first + ": '" + show(x.second) + "' is missing";
        if (i->second != x.second) return path + "." + x.first + ": expected '" + show(x.second) + "', found '" + show(i->second) + "'";
    }
    for (auto& x : b.s) if (!a.s.count(x.first)) return path + "." + x.first + ": unexpected '" + show(x.second) + "'";
    for (auto& x : a.n) {
        auto i = b.n.find(x.first);
        if (i == b.n.end()) continue;
        if (i->second != x.second) return path + "." + x.first + ": expected " + std::to_string(x.second) + ", found " + std::to_string(i->second);
    }
    return "";
}
Str diff(const MThread& a, const MThread& b, const Str& path) {
    Str d = diff((const MObj&)a, (const MObj&)b, path);
    if (!d.empty()) return d;
    for (size_t i = 0; i < a.f.size() && i < b.f.size(); i++) { d = diff((const MObj&)a.f[i], (const MObj&)b.f[i], path + ".frame" + std::to_string(i)); if (!d.empty()) return d; }
    if (a.f.size() != b.f.size()) return path + ": expected " + std::to_string(a.f.size()) + " frames, found " + std::to_string(b.f.size());
    return "";
}
Str diff(const MTrace& a, const MTrace& b, const Str& path) {
    if (a.type != b.type) return path + ": type " + std::to_string(b.type) + " instead of " + std::to_string(a.type);
    Str d = diff((const MObj&)a, (const MObj&)b, path);
    if (!d.empty()) return d;
    for (size_t i = 0; i < a.t.size() && i < b.t.size(); i++) { d = diff(a.t[i], b.t[i], path + ".thread" + std::to_string(i)); if (!d.empty()) return d; }
    if (a.t.size() != b.t.size()) return path + ": expected " + std::to_string(a.t.size()) + " threads, found " + std::to_string(b.t.size());
    if (a.crash != b.crash) return path + ": crash thread " + std::to_string(b.crash) + " instead of " + std::to_string(a.crash);
    if (a.modules != b.modules) return path + ": module list differs (" + std::to_string(a.modules.size()) + " expected, " + std::to_string(b.modules.size()) + " found)";
    for (size_t i = 0; i < a.libs.size() && i < b.libs.size(); i++) { d = diff(a.libs[i], b.libs[i], path + ".lib" + std::to_string(i)); if (!d.empty()) return d; }
    if (a.libs.size() != b.libs.size()) return path + ": expected " + std::to_string(a.libs.size()) + " libraries, found " + std::to_string(b.libs.size());
    if (!a.crash_frame != !b.crash_frame) return path + ": crash frame " + (a.crash_frame ? "missing" : "unexpected");
    if (a.crash_frame) return diff((const MObj&)*a.crash_frame, (const MObj&)*b.crash_frame, path + ".crash");
    return "";
}
Str diff_pkgs(const std::vector<MPkg>& a, const std::vector<MPkg>& b, const Str& path) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { Str d = diff(a[i], b[i], path + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
    if (a.size() != b.size()) return path + ": expected " + std::to_string(a.size()) + " packages, found " + std::to_string(b.size());
    return "";
}
Str diff(const MReport& a, const MReport& b, bool auth_order) {
    if (a.type != b.type) return Str("report type ") + type_name(b.type) + " instead of " + type_name(a.type);
    Str d = diff((const MObj&)a, (const MObj&)b, "report");
    if (!d.empty()) return d;
    if (a.has_os != b.has_os) return a.has_os ? "operating system missing" : "unexpected operating system";
    if (a.has_os) { d = diff(a.os, b.os, "os"); if (!d.empty()) return d; }
    d = diff_pkgs(a.pkgs, b.pkgs);
    if (!d.empty()) return d;
    if (a.has_trace != b.has_trace) return a.has_trace ? "stack trace missing" : "unexpected stack trace";
    if (a.has_trace) { d = diff(a.trace, b.trace); if (!d.empty()) return d; }
    auto x = a.auth, y = b.auth;
    if (!auth_order) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
    if (x != y) return "authentication entries differ (" + std::to_string(x.size()) + " expected, " + std::to_string(y.size()) + " found)";
    return "";
}

// ------------------------------------------------------------- expected JSON
static void js(JVal& v, const MObj& m, const char* k, const char* as = nullptr) { auto i = m.s.find(k); if (i != m.s.end()) v.add(as ? as : k, JVal::str(i->second)); }
static JVal jframe(int type, const MFrame& m) {
    JVal v = JVal::obj();
    auto N = [&](const char* k) { v.add(k, JVal::num(num(m, k))); };
    auto Nz = [&](const char* k) { if (num(m, k)) N(k); };
    auto B = [&](const char* k) { v.add(k, JVal::boolean(num(m, k))); };
    switch (type) {
    case SR_REPORT_CORE:
        if (num(m, "address") != NOADDR) N("address");
        js(v, m, "build_id");
        if (num(m, "build_id_offset") != NOADDR) N("build_id_offset");
        js(v, m, "function_name"); js(v, m, "file_name"); js(v, m, "fingerprint");
        if (m.s.count("fingerprint") && !num(m, "fingerprint_hashed")) B("fingerprint_hashed");
        break;
    case SR_REPORT_PYTHON:
        js(v, m, "file_name", num(m, "special_file") ? "special_file" : "file_name"); Nz("file_line");
        js(v, m, "function_name", num(m, "special_function") ? "special_function" : "function_name"); js(v, m, "line_contents");
        break;
    case SR_REPORT_KERNELOOPS:
        Nz("address"); B("reliable"); js(v, m, "function_name"); N("function_offset"); N("function_length"); js(v, m, "module_name");
        Nz("from_address"); js(v, m, "from_function_name"); N("from_function_offset"); N("from_function_length"); js(v, m, "from_module_name"); js(v, m, "special_stack");
        break;
    case SR_REPORT_JAVA:
        js(v, m, "name"); js(v, m, "file_name"); if (m.s.count("file_name")) N("file_line"); js(v, m, "class_path"); B("is_native"); B("is_exception"); js(v, m, "message");
        break;
    case SR_REPORT_RUBY:
        js(v, m, "file_name"); Nz("file_line"); js(v, m, "function_name", num(m, "special_function") ? "special_function" : "function_name"); Nz("block_level"); Nz("rescue_level");
        break;
    case SR_REPORT_JAVASCRIPT:
        js(v, m, "file_name"); Nz("file_line"); Nz("line_column"); js(v, m, "function_name");
        break;
    }
    return v;
}
static JVal jframes(int type, const std::vector<MFrame>& f) { JVal a = JVal::arr(); for (auto& x : f) a.a.push_back(jframe(type, x)); return a; }
JVal jval_of(const MTrace& m) {
    JVal v = JVal::obj();
    switch (m.type) {
    case SR_REPORT_CORE: {
        v.add("signal", JVal::num(num(m, "signal")));
        js(v, m, "executable");
        if (num(m, "only_crash_thread")) v.add("only_crash_thread", JVal::boolean(true));
        JVal a = JVal::arr();
        for (size_t i = 0; i < m.t.size(); i++) {
            JVal t = JVal::obj();
            if ((int)i == (m.crash < 0 ? 0 : m.crash)) t.add("crash_thread", JVal::boolean(true));
            if (!m.t[i].f.empty()) t.add("frames", jframes(m.type, m.t[i].f));
            a.a.push_back(t);
        }
        v.add("stacktrace", a);
        break;
    }
    case SR_REPORT_PYTHON: case SR_REPORT_RUBY: case SR_REPORT_JAVASCRIPT:
        js(v, m, "exception_name");
        if (!m.t[0].f.empty()) v.add("stacktrace", jframes(m.type, m.t[0].f));
        if (m.type == SR_REPORT_JAVASCRIPT && num(m, "platform")) {
            JVal p = JVal::obj();
            uint64_t x = num(m, "platform");
            p.add("engine", JVal::str((x & 15) == 1 ? "V8" : "<unknown>"));
            p.add("runtime", JVal::str((x >> 4) == 1 ? "Node.js" : "<unknown>"));
            v.add("platform", p);
        }
        break;
    case SR_REPORT_JAVA: {
        JVal a = JVal::arr();
        for (auto& th : m.t) { JVal t = JVal::obj(); js(t, th, "name"); if (!th.f.empty()) t.add("frames", jframes(m.type, th.f)); a.a.push_back(t); }
        v.add("threads", a);
        break;
    }
    case SR_REPORT_KERNELOOPS: {
        js(v, m, "raw_oops"); js(v, m, "version");
        JVal a = JVal::arr();
        for (auto& x : taints) if (num(m, (Str("taint_") + x.name).c_str())) a.a.push_back(JVal::str(x.name));
        v.add("taint_flags", a);
        if (m.has_modules) { JVal l = JVal::arr(); for (auto& s : m.modules) l.a.push_back(JVal::str(s)); v.add("modules", l); }
        if (!m.t[0].f.empty()) v.add("frames", jframes(m.type, m.t[0].f));
        break;
    }
    }
    return v;
}
JVal jval_of(const MReport& m) {
    JVal v = JVal::obj();
    v.add("ureport_version", JVal::num(num(m, "report_version")));
    JVal rep = JVal::obj();
    rep.add("name", JVal::str(m.s.at("reporter_name")));
    rep.add("version", JVal::str(m.s.at("reporter_version")));
    v.add("reporter", rep);
    if (m.has_os) {
        JVal o = JVal::obj();
        for (auto k : {"name", "version", "architecture", "cpe", "desktop", "variant"}) js(o, m.os, k);
        if (num(m.os, "uptime")) o.add("uptime", JVal::num(num(m.os, "uptime")));
        v.add("os", o);
    }
    JVal p = JVal::obj();
    p.add("type", JVal::str(type_name(m.type)));
    js(p, m, "component_name", "component");
    if (m.type != SR_REPORT_KERNELOOPS) {
        JVal u = JVal::obj();
        u.add("root", JVal::boolean(num(m, "user_root")));
        u.add("local", JVal::boolean(num(m, "user_local")));
        p.add("user", u);
    }
    p.add("serial", JVal::num(num(m, "serial")));
    if (m.has_trace) { JVal t = jval_of(m.trace); for (auto& x : t.o) p.add(x.first, x.second); }
    v.add("problem", p);
    JVal a = JVal::arr();
    for (auto& k : m.pkgs) {
        JVal o = JVal::obj();
        js(o, k, "name");
        o.add("epoch", JVal::num(num(k, "epoch")));
        js(o, k, "version"); js(o, k, "release"); js(o, k, "architecture");
        if (num(k, "install_time")) o.add("install_time", JVal::num(num(k, "install_time")));
        if (num(k, "role")) o.add("package_role", JVal::str("affected"));
        a.a.push_back(o);
    }
    v.add("packages", a);
    if (!m.auth.empty()) { JVal o = JVal::obj(); for (auto& e : m.auth) o.add(e.first, JVal::str(e.second)); v.add("auth", o); }
    return v;
}
Str reason_of(const MTrace& m) {
    auto S = [](const MObj& o, const char* k, const char* d) { auto i = o.s.find(k); return i == o.s.end() ? Str(d) : i->second; };
    switch (m.type) {
    case SR_REPORT_CORE: return "Program " + S(m, "executable", "<unknown>") + " was terminated by signal " + std::to_string(num(m, "signal"));
    case SR_REPORT_PYTHON: case SR_REPORT_RUBY: {
        Str file = "<unknown>"; uint64_t line = 0;
        auto& f = m.t[0].f;
        if (!f.empty()) { auto& x = m.type == SR_REPORT_PYTHON ? f.back() : f[0]; if (!x.s.count("file_name")) return ""; file = x.s.at("file_name"); line = num(x, "file_line"); }
        return S(m, "exception_name", "Unknown error") + " in " + file + ":" + std::to_string(line);
    }
    case SR_REPORT_JAVASCRIPT: {
        Str file = "<unknown>"; uint64_t line = 0, col = 0;
        auto& f = m.t[0].f;
        if (!f.empty()) { if (!f[0].s.count("file_name")) return ""; file = f[0].s.at("file_name"); line = num(f[0], "file_line"); col = num(f[0], "line_column"); }
        return S(m, "exception_name", "Error") + " at " + file + ":" + std::to_string(line) + ":" + std::to_string(col);
    }
    case SR_REPORT_JAVA: {
        Str exc = "<unknown>", file = "<unknown>"; uint64_t line = 0; bool found = false;
        if (!m.t.empty()) for (size_t i = 0; i < m.t[0].f.size(); i++) {
            auto& x = m.t[0].f[i];
            if (num(x, "is_exception") && x.s.count("name") && !found) { exc = x.s.at("name"); found = true; }
            if (i + 1 == m.t[0].f.size() && x.s.count("file_name")) { file = x.s.at("file_name"); line = num(x, "file_line"); }
        }
        return "Exception " + exc + " occurred in " + file + ":" + std::to_string(line);
    }
    }
    return "";
}

// ------------------------------------------------------------- generators
Str gen_ident() {
    static const char* w[] = {"main", "foo", "bar", "g_main_loop_run", "__libc_start_main", "x", "raise", "abort", "std::vector<int, std::allocator<int> >::push_back",
        "operator new", "_start", "gtk_widget_show", "frob", "do_work", "thread_func", "a::b::c", "__kernel_vsyscall", "poll", "handler"};
    Str s = w[W(19)];
    if (W(3) == 2) s += std::to_string(W(50));
    return s;
}
Str gen_path() {
    static const char* w[] = {"/usr/bin/will_abort", "/usr/lib64/libc.so.6", "/bin/a", "src/main.c", "file.py", "/opt/x y/z", "/usr/lib64/libglib-2.0.so.0", "lib.so", "../../a.c"};
    Str s = w[W(9)];
    if (W(4) == 3) s += std::to_string(W(9));
    return s;
}
Str gen_text(int kind) {
    if (kind < 0) kind = W(9);
    static const char* odd[] = {"\"", "\\", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "é", "☃", "😀", "/", "'", "{", "}", "[", "]", ",", ":", " ", "\\u0041", "\\n", "%s", "%n", "&", "\xc2\x80", "a", "Z", "0"};
    Str s;
    switch (kind) {
    case 0: return gen_ident();
    case 1: return gen_path();
    case 2: return "";
    case 3: { uint32_t n = 1 + W(12); for (uint32_t i = 0; i < n; i++) s += odd[W(31)]; return s; }
    case 4: { uint32_t n = 1 + W(20); for (uint32_t i = 0; i < n; i++) s += (char)(32 + W(95)); return s; }
    case 5: return odd[W(31)];
    case 6: { uint32_t n = 1 + W(6); for (uint32_t i = 0; i < n; i++) { s += gen_ident(); s += W(2) ? "\n" : " "; } return s; }
    case 7: if (W(8) == 7) { s.assign(1000 + W(40000), 'q'); s += odd[W(31)]; return s; } return gen_ident() + odd[W(31)];
    default: { uint32_t n = W(5); for (uint32_t i = 0; i < n; i++) s += (char)(1 + W(126)); return s; }
    }
}
uint64_t gen_u64() { return W64(); }
uint32_t gen_u32() {
    switch (W(5)) {
    case 0: return W(10);
    case 1: return W(100000);
    case 2: return 1u << W(32);
    case 3: return (1u << W(32)) - 1;
    default: return W(3) == 2 ? 0xffffffffu : W(0xffffffffu);
    }
}
static void os_(MObj& m, const char* k, int present = 700, int path = 0) {
    if (!Wp(1000 - present)) m.s[k] = W(3) == 2 ? gen_text() : path ? gen_path() : gen_ident();
}
void noise_frame(Str* function, Str* file) {
    static const char* p[][2] = {{"raise", "../sysdeps/unix/sysv/linux/raise.c"}, {"raise", "/lib64/libc.so.6"}, {"__GI_raise", "raise.c"}, {"abort", "abort.c"}, {"abort", "/lib64/libc-2.13.so"},
        {"__GI_abort", "abort.c"}, {"exit", "exit.c"}, {"__run_exit_handlers", "exit.c"}, {"kill", "../sysdeps/unix/syscall-template.S"}, {"__assert_fail", "assert.c"}, {"malloc_printerr", "malloc.c"},
        {"_int_free", "/lib64/libc.so.6"}, {"__libc_fatal", "../sysdeps/unix/sysv/linux/libc_fatal.c"}, {"__stack_chk_fail", "stack_chk_fail.c"}, {"__chk_fail", "/lib64/libc.so.6"},
        {"g_assertion_message", "gtestutils.c"}, {"g_log", "gmessages.c"}, {"g_logv", "gmessages.c"}, {"poll", "../sysdeps/unix/syscall-template.S"}, {"__strlen_sse2", "../sysdeps/x86_64/strlen.S"},
        {"__memcpy_ssse3_back", "/lib64/libc.so.6"}, {"IA__g_log", "gmessages.c"}, {"IA__gtk_main", "gtkmain.c"}, {"clone", "../sysdeps/unix/sysv/linux/x86_64/clone.S"}, {"__libc_start_main", "libc-start.c"},
        {"??", ""}, {"os::abort", "os_linux.cpp"}, {"mch_exit", "os_unix.c"}, {"memcpy", "memcpy.S"}, {"start_thread", "pthread_create.c"}};
    auto& x = p[W(sizeof p / sizeof *p)];
    *function = x[0]; *file = x[1];
}
static void noise_(MFrame& m, const char* fn, const char* file) {
    Str a, b;
    noise_frame(&a, &b);
    m.s[fn] = a;
    if (!b.empty()) m.s[file] = b;
    if (W(4) == 3) m.n["address"] = 0;
}
MFrame gen_frame(int type) {
    MFrame m;
    switch (type) {
    case SR_REPORT_CORE:
        m.n["address"] = W(8) == 7 ? NOADDR : gen_u64(); m.n["build_id_offset"] = W(8) == 7 ? NOADDR : gen_u64();
        os_(m, "build_id"); os_(m, "function_name"); os_(m, "file_name", 700, 1); os_(m, "fingerprint", 300);
        m.n["fingerprint_hashed"] = m.s.count("fingerprint") ? !W(2) : 1;
        if (W(6) == 5) noise_(m, "function_name", "file_name");
        break;
    case SR_REPORT_PYTHON:
        os_(m, "file_name", 850, 1); os_(m, "function_name", 850); os_(m, "line_contents", 600);
        m.n["file_line"] = W(6) == 5 ? 0 : gen_u32();
        m.n["special_file"] = m.s.count("file_name") ? W(2) : 0; m.n["special_function"] = m.s.count("function_name") ? W(2) : 0;
        break;
    case SR_REPORT_KERNELOOPS:
        for (auto k : {"address", "from_address", "function_offset", "function_length", "from_function_offset", "from_function_length"}) m.n[k] = W(5) == 4 ? 0 : W(3) == 2 ? 0xffffffff80000000ULL + W(0x7fffffff) : gen_u64();
        m.n["reliable"] = W(2);
        os_(m, "function_name"); os_(m, "module_name", 400); os_(m, "from_function_name", 400); os_(m, "from_module_name", 300); os_(m, "special_stack", 200);
        break;
    case SR_REPORT_JAVA:
        os_(m, "name", 850); os_(m, "file_name", 700, 1); os_(m, "class_path", 300, 1); os_(m, "message", 300);
        m.n["file_line"] = m.s.count("file_name") ? gen_u32() : 0; m.n["is_native"] = W(2); m.n["is_exception"] = W(2);
        break;
    case SR_REPORT_GDB:
        m.n["number"] = gen_u32(); m.n["source_line"] = gen_u32(); m.n["signal_handler_called"] = W(6) == 5; m.n["address"] = W(6) == 5 ? NOADDR : gen_u64();
        os_(m, "function_name", 850); os_(m, "function_type", 200); os_(m, "source_file", 500, 1); os_(m, "library_name", 400, 1);
        if (W(6) == 5) noise_(m, "function_name", "source_file");
        break;
    case SR_REPORT_RUBY:
        os_(m, "file_name", 850, 1); os_(m, "function_name", 850);
        m.n["file_line"] = gen_u32(); m.n["special_function"] = m.s.count("function_name") ? W(2) : 0; m.n["block_level"] = W(2) ? gen_u32() : 0; m.n["rescue_level"] = W(2) ? gen_u32() : 0;
        break;
    case SR_REPORT_JAVASCRIPT:
        os_(m, "file_name", 850, 1); os_(m, "function_name", 700);
        m.n["file_line"] = W(5) == 4 ? 0 : gen_u32(); m.n["line_column"] = W(5) == 4 ? 0 : gen_u32();
        break;
    }
    return m;
}
MTrace gen_trace(int type, uint32_t maxt, uint32_t maxf) {
    MTrace m;
    m.type = type;
    auto thread = [&]() {
        MThread t;
        uint32_t n = W(8) == 7 ? 0 : 1 + W(maxf);
        for (uint32_t i = 0; i < n; i++) t.f.push_back(gen_frame(type));
        return t;
    };
    switch (type) {
    case SR_REPORT_CORE: {
        m.n["signal"] = W(3) == 2 ? W(65536) : W(65); m.n["only_crash_thread"] = W(4) == 3;
        os_(m, "executable", 850, 1);
        uint32_t n = W(8) == 7 ? 0 : 1 + W(maxt);
        for (uint32_t i = 0; i < n; i++) { m.t.push_back(thread()); m.t.back().n["id"] = W(70000); }
        if (n) m.crash = W(n);
        break;
    }
    case SR_REPORT_GDB: {
        m.n["crash_tid"] = W(2) ? W(70000) : (uint32_t)-1;
        uint32_t n = W(8) == 7 ? 0 : 1 + W(maxt);
        for (uint32_t i = 0; i < n; i++) { m.t.push_back(thread()); m.t.back().n["number"] = i + 1; m.t.back().n["tid"] = W(70000); }
        uint32_t l = W(3);
        for (uint32_t i = 0; i < l; i++) { MObj o; o.n["from"] = gen_u64(); o.n["to"] = gen_u64(); o.n["symbols"] = W(3); if (W(5)) o.s["soname"] = gen_path(); m.libs.push_back(o); }
        if (W(3) == 2) m.crash_frame = std::make_shared<MFrame>(gen_frame(type));
        break;
    }
    case SR_REPORT_JAVA: {
        uint32_t n = W(8) == 7 ? 0 : 1 + W(maxt);
        for (uint32_t i = 0; i < n; i++) { m.t.push_back(thread()); os_(m.t.back(), "name", 800); }
        break;
    }
    case SR_REPORT_JAVASCRIPT:
        m.n["platform"] = W(5) == 4 ? 0 : (W(2) ? (1u << 4 | 1) : W(2) ? 1 : 1u << 4);
        // fall through
    case SR_REPORT_PYTHON: case SR_REPORT_RUBY:
        os_(m, "exception_name", 850);
        m.t.push_back(thread());
        break;
    case SR_REPORT_KERNELOOPS: {
        os_(m, "version");
        if (W(3)) { m.s["raw_oops"] = gen_text(); m.s["reason"] = m.s["raw_oops"].substr(0, m.s["raw_oops"].find('\n')); }
        for (auto& x : taints) m.n[Str("taint_") + x.name] = W(4) == 3;
        m.has_modules = W(4) != 0;
        if (m.has_modules) {
            uint32_t n = W(12) == 11 ? 120 + W(200) : W(6);
            for (uint32_t i = 0; i < n; i++) m.modules.push_back(n > 20 ? "mod" + std::to_string(i) : gen_text());
        }
        m.t.push_back(thread());
        break;
    }
    }
    return m;
}
MPkg gen_pkg() {
    MPkg m;
    os_(m, "name", 950); os_(m, "version", 900); os_(m, "release", 900); os_(m, "architecture", 800);
    m.n["epoch"] = W(2) ? gen_u32() : 0; m.n["install_time"] = W(2) ? gen_u64() : 0; m.n["role"] = W(3) == 2;
    return m;
}
int gen_type(bool with_gdb) {
    static const int t[] = {SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT, SR_REPORT_GDB};
    return t[W(with_gdb ? 7 : 6)];
}
MReport gen_report(int type) {
    MReport m;
    m.type = type;
    m.n["report_version"] = W(4) == 3 ? gen_u32() : 2;
    m.n["serial"] = gen_u32();
    m.n["user_root"] = type == SR_REPORT_KERNELOOPS ? 0 : W(2);
    m.n["user_local"] = type == SR_REPORT_KERNELOOPS ? 1 : W(2);
    m.s["reporter_name"] = W(2) ? "satyr" : gen_text();
    m.s["reporter_version"] = W(2) ? "0.40" : gen_text();
    os_(m, "component_name", 850);
    m.has_os = W(5) != 4;
    if (m.has_os) {
        for (auto k : {"name", "version", "architecture", "cpe", "desktop", "variant"}) os_(m.os, k, 700);
        m.os.n["uptime"] = W(2) ? gen_u64() : 0;
    }
    uint32_t n = W(5);
    for (uint32_t i = 0; i < n; i++) m.pkgs.push_back(gen_pkg());
    m.has_trace = type != SR_REPORT_INVALID;
    if (m.has_trace) m.trace = gen_trace(type);
    n = W(3) == 2 ? 1 + W(4) : 0;
    for (uint32_t i = 0; i < n; i++) m.auth.push_back({"k" + std::to_string(i) + gen_text(), gen_text()});
    return m;
}
uint64_t model_hash(const MTrace& m) {
    uint64_t h = 1469598103934665603ULL ^ m.type;
    auto o = [&](const MObj& x) { for (auto& p : x.s) { h = hash_bytes(p.first.data(), p.first.size(), h); h = hash_bytes(p.second.data(), p.second.size(), h); } for (auto& p : x.n) h = hash_bytes(&p.second, 8, h); };
    o(m);
    for (auto& t : m.t) { o(t); for (auto& f : t.f) o(f); }
    return h;
}
}
