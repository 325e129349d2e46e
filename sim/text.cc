#include "text.h"
namespace sim {
static Str S(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static Str S(const char* fmt, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
Str pick_str(std::initializer_list<const char*> l) { return *(l.begin() + W((uint32_t)l.size())); }
Str hex(uint64_t v) { return S("%lx", (unsigned long)v); }
static Str ident() { return pick_str({"main", "f", "do_work", "g_main_loop_run", "x1", "_start", "frob", "handle_event", "poll", "readv", "run", "__init__", "a_b"}) + (W(4) == 3 ? std::to_string(W(100)) : ""); }
static uint32_t lineno() { return W(6) == 5 ? 4294967295u : W(4) == 3 ? 65536 + W(100000) : 1 + W(3000); }
static uint64_t addr() { return W(8) == 7 ? W64() >> 1 : W(2) ? 0x7f0000000000ULL + W(0x7fffffff) : 0x400000 + W(0x200000); }
static uint32_t count(uint32_t max) { return W(30) == 29 ? 20 + W(100) : 1 + W(max); }

// ------------------------------------------------------------------ gdb
static Str gdb_args() {
    return pick_str({"()", "(argc=1, argv=0x7fff5b4b0d88)", "(this=0x0)", "(s=0x4008c0 \"a\\\"b)(\")", "(f=0x400634 <f(int, char)>)", "(n=<optimized out>, p=0x0)",
        "(x=..., y=...)", "(fmt=0x40 \"%s \\\\\")", "(a=0x1 (nil))", "(optimized out)", "(s=\"\\303\\251\")"});
}
static Str gdb_name(Str* type) {
    type->clear();
    switch (W(8)) {
    case 7: { Str t = pick_str({"int", "void", "std::string", "boost::shared_ptr<a::b>"}); *type = t; return pick_str({"foo<int>", "ns::make<char*, int>", "bar<a<b> >"}); }
    case 6: return pick_str({"foo::operator()", "operator new", "a::operator==", "std::operator<< <std::char_traits<char> >", "ns::C::operator->", "operator delete[]", "x::operator[]"});
    case 5: return pick_str({"(anonymous namespace)::f", "std::vector<int, std::allocator<int> >::push_back", "Foo::~Foo", "a::b<c<d>, e>::g", "foo<int>(char)::bar", "QMetaObject::activate", "__kernel_vsyscall",
        "boost::function1<void, int>::operator()", "IA__g_log@plt", "*__GI_raise", ".main"});
    case 4: return "??";
    case 3: return pick_str({"C::size const", "std::map<int, int>::find(int) const"});
    default: return ident();
    }
}
static Str gdb_frame_text(MFrame& m, uint32_t number) {
    m.n["number"] = number;
    m.n["source_line"] = (uint32_t)-1;
    m.n["address"] = NOADDR;
    m.n["signal_handler_called"] = 0;
    Str t = S("#%-2u ", number);
    if (W(12) == 11) { m.n["signal_handler_called"] = 1; return t + "<signal handler called>"; }
    bool inl = W(5) == 4;
    if (!inl) {
        uint64_t a = addr();
        m.n["address"] = a;
        t += W(2) ? S("0x%016lx in ", (unsigned long)a) : S("0x%lx in ", (unsigned long)a);
        if (W(20) == 19) t += "vtable for ";
    }
    Str type, name = gdb_name(&type), nfile;
    if (W(7) == 6) { type.clear(); noise_frame(&name, &nfile); if (nfile.find(".so") != Str::npos) nfile.clear(); }
    m.s["function_name"] = name;
    if (!type.empty()) m.s["function_type"] = type;
    if (!type.empty()) t += type + " ";
    t += name + " " + gdb_args();
    int loc = inl ? 1 + W(2) : W(4);
    if (loc == 0) return t;
    Str sep = W(8) == 7 ? "\n    " : " ";
    if (loc == 3) {
        Str lib = pick_str({"/usr/lib64/libc.so.6", "/lib/libm.so", "/usr/lib/libglib-2.0.so.0.3.1", "/opt/app/bin/tool", "/usr/lib64/firefox/plugin"});
        t += sep + "from " + lib;
        bool shared = lib.find("/lib") != Str::npos && (lib.find(".so.") != Str::npos || lib.substr(lib.size() - 3) == ".so");
        if (!shared) m.s["source_file"] = lib;
        return t;
    }
    Str file = pick_str({"main.c", "../sysdeps/unix/sysv/linux/raise.c", "/usr/src/debug/foo-1.0/src/a+b.cc", "abort.c", "x-y_z.h", "/home/u/lib/a.c"});
    if (!nfile.empty()) file = nfile;
    m.s["source_file"] = file;
    t += sep + "at " + file;
    if (loc == 1) { uint32_t l = lineno(); m.n["source_line"] = l; t += S(":%u", l); }
    return t;
}
static Str gdb_locals() {
    Str t;
    uint32_t n = W(3);
    for (uint32_t i = 0; i < n; i++) t += pick_str({"No locals.\n", "        x = 5\n", "        s = \"# not a frame\"\n", "        __PRETTY_FUNCTION__ = \"main\"\n", "        p = (struct a *) 0x0\n", "No symbol table info available.\n", "        Thread = 1\n"});
    return t;
}
static void render_gdb(Rendered& r) {
    MTrace& m = r.want;
    m.n["crash_tid"] = (uint32_t)-1;
    if (W(2)) r.text += pick_str({"warning: core file may not match specified executable file.\n", "[New LWP 123]\n[Thread debugging using libthread_db enabled]\n", "Core was generated by `/usr/bin/x'.\nProgram terminated with signal 11, Segmentation fault.\n", "\n", "Reading symbols...done.\n"});
    else r.text += "Core was generated by `x'.\n";
    uint32_t nt = W(4) ? 1 + W(3) : 0;
    if (nt == 0) nt = 1;
    std::vector<Str> lines;
    if (W(3)) { // crash frame in the header
        m.crash_frame = std::make_shared<MFrame>();
        Str t = gdb_frame_text(*m.crash_frame, 0) + "\n" + (W(2) ? "12\tin main.c\n" : "");
        r.text += t;
        r.pos.push_back({-1, 0, r.text.size()});
    }
    auto libs = [&] {
        r.text += "From                To                  Syms Read   Shared Object Library\n";
        uint32_t n = 1 + W(4);
        for (uint32_t i = 0; i < n; i++) {
            MObj l;
            int sy = W(3);
            l.n["symbols"] = (uint64_t)(int64_t)(sy == 0 ? SYMS_OK : sy == 1 ? SYMS_NOT_FOUND : SYMS_WRONG);
            Str so = pick_str({"/lib64/ld-linux-x86-64.so.2", "/usr/lib/libfoo.so.1", "/lib/libc.so.6", "/opt/with space/lib.so"});
            l.s["soname"] = so;
            if (W(6) == 5) { l.n["from"] = (uint64_t)-1; l.n["to"] = (uint64_t)-1; r.text += "                                        "; }
            else {
                uint64_t a = addr(), b = a + W(100000);
                l.n["from"] = a; l.n["to"] = b;
                r.text += S("0x%016lx  0x%016lx  ", (unsigned long)a, (unsigned long)b);
            }
            r.text += Str(sy == 0 ? "Yes" : sy == 1 ? "Yes (*)" : "No") + "         " + so + "\n";
            m.libs.push_back(l);
        }
        r.text += pick_str({"(*): Shared library is missing debugging information.\n", "$1 = 0x0\n"});
    };
    bool with_libs = W(4) == 3, late_libs = W(2);
    if (with_libs && !late_libs) libs();
    r.text += "\n";
    for (uint32_t t = 0; t < nt; t++) {
        MThread th;
        uint32_t num = nt - t;
        uint32_t tid = 1 + W(70000);
        th.n["number"] = num;
        th.n["tid"] = tid;
        switch (W(4)) {
        case 0: r.text += S("Thread %u (Thread 0x7f%08x (LWP %u)):\n", num, W(0xffffffff), tid); break;
        case 1: r.text += S("Thread %u (LWP %u):\n", num, tid); break;
        case 2: r.text += S("Thread %u (Thread %u):\n", num, tid); th.n["tid"] = (uint32_t)-1; break;
        case 3: r.text += S("Thread %u (Thread %u (LWP %u)):\n", num, W(7000), tid); break;
        }
        uint32_t nf = count(6);
        for (uint32_t f = 0; f < nf; f++) {
            MFrame fr;
            r.text += gdb_frame_text(fr, f) + "\n" + gdb_locals();
            th.f.push_back(fr);
            r.pos.push_back({(int)t, (int)f, r.text.size()});
        }
        m.t.push_back(th);
        if (t + 1 < nt && W(4)) r.text += "\n";
    }
    if (with_libs && late_libs) libs();
    else if (W(3) == 2) r.text += pick_str({"No symbol \"__abort_msg\" in current context.\n", "Dump of assembler code for function main:\nEnd of assembler dump.\n"});
}

// ------------------------------------------------------------------ python
static Str anon(const Str& p) {
    Str h = "/home/";
    if (p.compare(0, h.size(), h)) return p;
    size_t e = p.find('/', h.size());
    return e == Str::npos ? p : "/home/anonymized" + p.substr(e);
}
static void render_python(Rendered& r) {
    MTrace& m = r.want;
    if (W(3) == 2) r.text += pick_str({"\n", "main.py:12:in f:ValueError: x\n\n", "WARNING: something\nmore\n", "\n\n"});
    r.text += "Traceback (most recent call last):\n";
    MThread th;
    uint32_t n = count(8);
    std::vector<MFrame> fs_;
    std::vector<size_t> ends;
    bool syntax = W(12) == 11;
    for (uint32_t i = 0; i < n; i++) {
        MFrame f;
        Str file;
        f.n["special_file"] = 0; f.n["special_function"] = 0;
        if (W(8) == 7) { Str s = pick_str({"string", "stdin", "frozen importlib._bootstrap"}); f.s["file_name"] = s; f.n["special_file"] = 1; file = "<" + s + ">"; }
        else { file = pick_str({"/usr/bin/yum", "a.py", "/home/joe/x y.py", "/usr/lib/python3.11/site-packages/dnf/cli.py", "/home/joe", "C:\\x.py"}); f.s["file_name"] = anon(file); }
        uint32_t l = lineno();
        f.n["file_line"] = l;
        r.text += S("  File \"%s\", line %u", file.c_str(), l);
        bool last = i + 1 == n;
        if (last && syntax) { f.s["function_name"] = "syntax"; f.n["special_function"] = 1; }
        else {
            if (W(5) == 4) { Str s = pick_str({"module", "lambda", "listcomp", "genexpr"}); f.s["function_name"] = s; f.n["special_function"] = 1; r.text += ", in <" + s + ">"; }
            else { Str s = ident(); f.s["function_name"] = s; r.text += ", in " + s; }
        }
        r.text += "\n";
        if (f.n["special_file"] == 0 && (W(6) || (last && syntax))) {
            Str code = pick_str({"raise ValueError(\"x\")", "foo(bar, baz)", "x['a']['b'] = 1", "return 0", "0/0", "yum.main() # File \"a\", line 2, in x", "pass"});
            f.s["line_contents"] = code;
            r.text += "    " + code + "\n";
            if ((last && syntax) || W(6) == 5) r.text += pick_str({"    ~~~~^^^^\n", "        ^\n", "    ^^^^^^^^^^\n"});
        }
        size_t end = r.text.size();
        if (!last && W(14) == 13) r.text += S("  [Previous line repeated %u more times]\n", 1 + W(990));
        fs_.push_back(f);
        ends.push_back(end);
    }
    for (uint32_t i = 0; i < n; i++) th.f.push_back(fs_[n - 1 - i]);
    for (uint32_t i = 0; i < n; i++) r.pos.push_back({0, (int)(n - 1 - i), ends[i]});
    Str ex = syntax ? "SyntaxError" : pick_str({"ValueError", "dnf.exceptions.RepoError", "KeyboardInterrupt", "ZeroDivisionError", "OSError"});
    m.s["exception_name"] = ex;
    m.t.push_back(th);
    r.text += ex;
    switch (W(4)) { case 0: r.text += ": integer division or modulo by zero\n"; break; case 1: r.text += "\n"; break; case 2: r.text += ": a: b\n\nLocal variables in innermost frame:\nx: 1\n"; break; default: r.text += ": x"; }
}

// ------------------------------------------------------------------ ruby
static Str ruby_frame(MFrame& f) {
    Str file = pick_str({"/usr/share/rubygems/rubygems/core_ext/kernel_require.rb", "./a.rb", "/usr/bin/will_ruby_raise", "-e", "(eval)", "/home/joe/x.rb", "C:/x.rb", "/opt/a:b.rb"});
    f.s["file_name"] = anon(file);
    uint32_t l = lineno();
    f.n["file_line"] = l;
    Str t = S("%s:%u:in `", file.c_str(), l);
    f.n["rescue_level"] = W(5) == 4 ? 1 + W(3) : 0;
    for (uint32_t i = 0; i < f.n["rescue_level"]; i++) t += "rescue in ";
    f.n["block_level"] = 0;
    if (W(4) == 3) { f.n["block_level"] = 1; t += "block in "; }
    else if (W(8) == 7) { uint32_t b = 2 + W(9); f.n["block_level"] = b; t += S("block (%u levels) in ", b); }
    f.n["special_function"] = 0;
    Str name;
    if (W(4) == 3) { f.n["special_function"] = 1; name = pick_str({"main", "top (required)", "module:Foo", "class:Bar", "compiled"}); t += "<" + name + ">"; }
    else { name = W(6) == 5 ? pick_str({"<=>", "<<", ">", ">=", "<", "<=", "==", "[]=", "+", "!", "=~", ">>"}) : pick_str({"require", "foo?", "bar!", "x=", "method_missing", "each", "initialize"}); t += name; }
    f.s["function_name"] = name;
    return t + "'";
}
static void render_ruby(Rendered& r) {
    MTrace& m = r.want;
    MThread th;
    MFrame f;
    r.text += ruby_frame(f) + ": ";
    th.f.push_back(f);
    r.text += pick_str({"cannot load such file -- xyz", "wrong value: 5 (a)", "multi\nline message", "it's", "undefined method `foo' for nil:NilClass", "x"});
    Str ex = pick_str({"LoadError", "Exception::Class", "NoMethodError", "Foo::Bar::Baz"});
    m.s["exception_name"] = ex;
    r.text += " (" + ex + ")\n";
    r.pos.push_back({0, 0, r.text.size()});
    uint32_t n = count(8) - (W(8) == 7 ? 0 : 0);
    for (uint32_t i = 0; i < n; i++) {
        MFrame g;
        r.text += "\tfrom " + ruby_frame(g);
        if (i + 1 < n || W(4)) r.text += "\n";
        th.f.push_back(g);
        r.pos.push_back({0, (int)i + 1, r.text.size()});
    }
    m.t.push_back(th);
}

// ------------------------------------------------------------------ JavaScript
static void render_js(Rendered& r) {
    MTrace& m = r.want;
    MThread th;
    Str ex = pick_str({"ReferenceError", "TypeError", "Error", "MyError"});
    m.s["exception_name"] = ex;
    m.n["platform"] = 1;
    r.text += ex + ": " + pick_str({"nonexistentFunc is not defined", "x", "a: b (c:1:2)", "Cannot find module './x'"}) + "\n";
    uint32_t n = count(8);
    for (uint32_t i = 0; i < n; i++) {
        MFrame f;
        Str file = pick_str({"/usr/lib/node_modules/a.js", "[stdin]-wrapper", "bootstrap_node.js", "/home/joe/x (1).js", "module.js", "evalmachine.<anonymous>", "node:internal/modules/cjs/loader", "file:///srv/a b.mjs"});
        uint32_t l = lineno(), c = 1 + W(500);
        f.s["file_name"] = anon(file);
        f.n["file_line"] = l; f.n["line_column"] = c;
        if (W(4)) {
            Str fn = pick_str({"Object.<anonymous>", "Module._compile", "emitOne", "Foo.bar", "f", "Array.forEach", "process._tickCallback"});
            f.s["function_name"] = fn;
            r.text += "    at " + fn + (W(6) == 5 ? " [as x]" : "") + S(" (%s:%u:%u)", file.c_str(), l, c);
        } else r.text += S("    at %s:%u:%u", file.c_str(), l, c);
        if (i + 1 < n || W(4)) r.text += "\n";
        th.f.push_back(f);
        r.pos.push_back({0, (int)i, r.text.size()});
    }
    m.t.push_back(th);
}

// ------------------------------------------------------------------ Java
static Str java_frame(MFrame& f) {
    f.n["is_exception"] = 0; f.n["is_native"] = 0; f.n["file_line"] = 0;
    Str name = pick_str({"SimpleTest.throwNullPointerException", "SimpleTest.main", "java.lang.Thread.run", "com.sun.proxy.$Proxy4.<init>", "org.foo.Bar$1.call", "a.b.c"});
    f.s["name"] = name;
    Str t = "at " + name + "(";
    switch (W(4)) {
    case 0: case 1: { Str file = pick_str({"SimpleTest.java", "Thread.java", "B.scala", "/home/joe/A.java"}); uint32_t l = lineno(); f.s["file_name"] = anon(file); f.n["file_line"] = l; t += S("%s:%u", file.c_str(), l); break; }
    case 2: f.n["is_native"] = 1; t += "Native Method"; break;
    case 3: t += "Unknown Source"; break;
    }
    t += ")";
    switch (W(6)) {
    case 5: { Str p = pick_str({"/usr/lib/java/foo.class", "/home/joe/Foo.class"}); f.s["class_path"] = anon(p); t += " [file:" + p + "]"; break; }
    case 4: f.s["class_path"] = "/usr/lib/java/foo.jar"; t += " [jar:file:/usr/lib/java/foo.jar!/Foo.class]"; break;
    case 3: f.s["class_path"] = "http://localhost/Foo.class"; t += " [http://localhost/Foo.class]"; break;
    default: break;
    }
    return t;
}
static MFrame java_exc(Str& t) {
    MFrame f;
    f.n["is_exception"] = 1;
    Str name = pick_str({"java.lang.NullPointerException", "java.lang.RuntimeException", "java.io.IOException", "Oops"});
    f.s["name"] = name;
    t += name;
    if (W(3)) { Str msg = pick_str({"null", "foo: bar", "Something at (A.java:12)", "x y z"}); f.s["message"] = msg; t += ": " + msg; }
    t += "\n";
    return f;
}
static void render_java(Rendered& r) {
    MTrace& m = r.want;
    MThread th;
    if (W(4)) { Str n = pick_str({"main", "pool-1-thread-2", "AWT-EventQueue-0", "a b"}); th.s["name"] = n; r.text += "Exception in thread \"" + n + "\" "; }
    uint32_t chain = W(3) ? 1 : 2 + W(3);
    struct Seg { std::vector<MFrame> f; std::vector<size_t> end; };
    std::vector<Seg> segs;
    for (uint32_t c = 0; c < chain; c++) {
        Seg s;
        if (c) r.text += "Caused by: ";
        s.f.push_back(java_exc(r.text));
        s.end.push_back(r.text.size());
        uint32_t n = W(12) == 11 ? 0 : count(5);
        for (uint32_t i = 0; i < n; i++) {
            MFrame f;
            r.text += "\t" + java_frame(f);
            bool last = c + 1 == chain && i + 1 == n && c == 0;
            if (!last || W(4)) r.text += "\n";
            s.f.push_back(f);
            s.end.push_back(r.text.size());
        }
        if (c && W(5)) r.text += S("\t... %u more\n", 1 + W(20));
        if (W(5) == 4 && r.text.back() == '\n') {
            r.text += "\tSuppressed: java.lang.Exception: closing\n\t\tat Sup.close(Sup.java:3)\n";
            if (W(2)) r.text += "\t\tat Sup.run(Sup.java:9)\n\t\t... 1 more\n";
        }
        segs.push_back(s);
    }
    // innermost exception first
    std::vector<std::pair<int, int>> order;
    std::vector<FPos> byseg;
    for (uint32_t c = chain; c-- > 0;)
        for (size_t i = 0; i < segs[c].f.size(); i++) th.f.push_back(segs[c].f[i]);
    for (uint32_t c = 0; c < chain; c++) {
        size_t base = 0;
        for (uint32_t d = c + 1; d < chain; d++) base += segs[d].f.size();
        for (size_t i = 0; i < segs[c].f.size(); i++) r.pos.push_back({0, (int)(base + i), segs[c].end[i]});
    }
    m.t.push_back(th);
}

// ------------------------------------------------------------------ kernel oops
static Str kfn() { return pick_str({"do_page_fault", "warn_slowpath_common", "sys_read", "__block_write_full_page", "ieee80211_rx.part.3", "x", "r600_gpu_init", "page_fault"}); }
static Str kmod() { return pick_str({"ext4", "nouveau", "wl", "drm_kms_helper", "kvm_intel"}); }
static void render_koops(Rendered& r) {
    MTrace& m = r.want;
    int arch = W(6);          // 0 x86_64, 1 i386, 2 ppc, 3 arm, 4 arm reduced, 5 s390
    bool ts = W(2);
    uint64_t clock_ = W(100000);
    auto line = [&](const Str& t) { if (ts) { clock_ += W(3000); r.text += S("[%5u.%06u] ", (unsigned)(clock_ / 1000), (unsigned)(clock_ % 1000) * 1000); } r.text += t + "\n"; };
    MThread th;
    for (int i = 0; taint_names[i]; i++) m.n[Str("taint_") + taint_names[i]] = 0;
    line(pick_str({"BUG: unable to handle kernel NULL pointer dereference at 0000000000000034", "WARNING: at fs/buffer.c:1234 foo+0x10/0x20()", "general protection fault: 0000 [#1] SMP", "Kernel BUG at fs/x.c:1"}));
    if (W(3)) line("IP: something");
    static const char* letters = "PFSRMBUDAWCIOELK";
    Str tl;
    bool tainted = W(2);
    auto modules = [&] {
        if (!W(4)) return;
        m.has_modules = true;
        Str l = "Modules linked in:";
        uint32_t n = W(20) == 19 ? 30 + W(60) : W(6);
        for (uint32_t i = 0; i < n; i++) { Str x = kmod() + std::to_string(i) + (W(6) == 5 ? "(OF+)" : ""); m.modules.push_back(x); l += " " + x; }
        if (W(3) == 2) l += " [last unloaded: scsi_wait_scan]";
        line(l);
        if (!ts) { r.text += W(2) ? "Pid: 123, comm: x\n" : "CPU: 1\n"; }
    };
    if (W(2)) modules();
    if (tainted) {
        uint32_t n = 1 + W(4);
        for (uint32_t i = 0; i < n; i++) {
            char c = letters[W(16)];
            tl += c;
            tl += W(2) ? "" : "  ";
        }
        static const struct { char l; const char* n; } map[] = {{'P', "module_proprietary"}, {'F', "forced_module"}, {'S', "smp_unsafe"}, {'R', "forced_removal"}, {'M', "mce"}, {'B', "page_release"}, {'U', "userspace"},
            {'D', "died_recently"}, {'A', "acpi_overridden"}, {'W', "warning"}, {'C', "staging_driver"}, {'I', "firmware_workaround"}, {'O', "module_out_of_tree"}, {'E', "unsigned_module"}, {'L', "soft_lockup"}, {'K', "live_patched"}};
        for (char c : tl) for (auto& x : map) if (x.l == c) m.n[Str("taint_") + x.n] = 1;
        line("Pid: 2301, comm: systemd Tainted: " + tl + " 3.9.0-0.rc6 #1");
    } else line("Pid: 2301, comm: systemd Not tainted 3.9.0 #1");
    MFrame ip;
    Str ip_line;
    bool has_rip = arch == 0 && W(2), has_eip = arch == 1 && W(2);
    auto fnpart = [&](MFrame& f, const char* p, bool mod_ok) {
        Str name = kfn();
        uint64_t off = W(0x1000), len = off + W(0x1000);
        f.s[Str(p) + "function_name"] = name;
        f.n[Str(p) + "function_offset"] = off; f.n[Str(p) + "function_length"] = len;
        Str t = S("%s+0x%lx/0x%lx", name.c_str(), (unsigned long)off, (unsigned long)len);
        if (mod_ok && W(4) == 3) { Str k = kmod(); f.s[Str(p) + "module_name"] = k; t += " [" + k + "]"; }
        return t;
    };
    auto zero = [&](MFrame& f) { for (auto k : {"address", "function_offset", "function_length", "from_address", "from_function_offset", "from_function_length"}) f.n[k] = 0; f.n["reliable"] = 1; };
    auto kaddr = [&](MFrame& f, const char* k) { uint64_t a = arch == 0 || arch == 2 ? 0xffffffff81000000ULL + W(0x7ffffff) : 0xc0000000u + W(0x3ffffff); f.n[k] = a; return S(arch == 0 || arch == 2 ? "%016lx" : "%08lx", (unsigned long)a); };
    if (has_rip) {
        zero(ip);
        Str a = kaddr(ip, "address");
        Str fp = fnpart(ip, "", true);
        ip_line = "RIP: 0010:[<" + a + ">]  [<" + a + ">] " + fp;
        line(ip_line);
        r.pos.push_back({0, 0, r.text.size()});
        line("RSP: 0018:ffff88003d8c1d18  EFLAGS: 00010246");
    }
    if (W(3) == 2) { line("RAX: 0000000000000000 RBX: ffff88003d8c1d18 RCX: 0000000000000000"); line("Process systemd (pid: 2301, threadinfo ffff88003d8c0000)"); }
    line(pick_str({"Call Trace:", "Backtrace:", "Call Trace:"}));
    uint32_t n = count(8);
    Str alt;
    std::vector<size_t> ends;
    for (uint32_t i = 0; i < n; i++) {
        MFrame f;
        zero(f);
        Str t = " ";
        if (arch <= 1 && W(10) == 9) {
            if (alt.empty()) { alt = pick_str({"IRQ", "NMI", "#DF"}); t += "<" + alt + "> "; }
            else { t += W(2) ? "<EOI> " : " <<EOE>> "; alt.clear(); }
        }
        if (!alt.empty()) f.s["special_stack"] = alt;
        switch (arch) {
        case 0: case 1:
            if (W(6) == 5) { t += W(3) == 2 ? (f.n["reliable"] = 0, "? ") : ""; t += fnpart(f, "", true); }           // no address
            else if (W(12) == 11) { t += "[<" + kaddr(f, "address") + ">] 0x" + hex(0xffffffffa0000000ULL + W(100000)); }
            else { t += "[<" + kaddr(f, "address") + ">] "; if (W(4) == 3) { f.n["reliable"] = 0; t += "? "; } t += fnpart(f, "", true); }
            break;
        case 2: {
            t = Str("[") + hex(0xc000000001000000ULL + W(1000000)) + "] [" + kaddr(f, "address") + "] ";
            if (W(2)) t += ".";
            t += fnpart(f, "", true);
            if (W(4) == 3) { f.n["reliable"] = 0; t += " (unreliable)"; }
            break;
        }
        case 3: {
            t = "[<" + kaddr(f, "address") + ">] (" + fnpart(f, "", true) + ") from [<";
            t += kaddr(f, "from_address") + ">] (" + fnpart(f, "from_", true) + ")";
            break;
        }
        case 4: {
            t = "[<" + kaddr(f, "address") + ">] (";
            Str nm = kfn();
            f.s["function_name"] = nm;
            t += nm + ") from [<" + kaddr(f, "from_address") + ">] (" + fnpart(f, "from_", true) + ")";
            break;
        }
        case 5: t = "([<" + kaddr(f, "address") + ">] " + fnpart(f, "", true) + ")"; break;
        }
        line(t);
        th.f.push_back(f);
        ends.push_back(r.text.size());
    }
    int shift = has_rip || has_eip ? 1 : 0;
    for (uint32_t i = 0; i < n; i++) r.pos.push_back({0, (int)i + shift, ends[i]});
    line("Code: 48 89 45 b8 e8 c4 ff ff ff <0f> 0b 48");
    if (has_eip) {
        zero(ip);
        Str a = kaddr(ip, "address");
        Str u = W(5) == 4 ? (ip.n["reliable"] = 0, "? ") : "";
        ip_line = "EIP: [<" + a + ">] " + u + fnpart(ip, "", true) + " SS:ESP 0068:f180dbf8";
        line(ip_line);
        r.pos.push_back({0, 0, r.text.size()});
    }
    if (shift) th.f.insert(th.f.begin(), ip);
    if (!ip_line.empty() && W(4) == 3) { line("---[ end trace 66c9cf2e8e2f1d4e ]---"); line(ip_line); } // the registers once more
    if (!m.has_modules && W(2)) modules();
    if (arch == 5 && W(2)) { line("Last Breaking-Event-Address:"); line(" [<00000000001e7aee>] foo+0x5a/0x98"); }
    else if (W(3) == 2) line("---[ end trace 66c9cf2e8e2f1d4e ]---");
    m.s["raw_oops"] = r.text;
    m.s["reason"] = r.text.substr(0, r.text.find('\n'));
    m.t.push_back(th);
}

Rendered render(int type) {
    Rendered r;
    r.type = r.want.type = type;
    switch (type) {
    case SR_REPORT_GDB: render_gdb(r); break;
    case SR_REPORT_PYTHON: render_python(r); break;
    case SR_REPORT_RUBY: render_ruby(r); break;
    case SR_REPORT_JAVASCRIPT: render_js(r); break;
    case SR_REPORT_JAVA: render_java(r); break;
    case SR_REPORT_KERNELOOPS: render_koops(r); break;
    }
    return r;
}
struct sr_stacktrace* parse_trace(int type, const char** in, struct sr_location* loc) {
    switch (type) {
    case SR_REPORT_GDB: return (struct sr_stacktrace*)sr_gdb_stacktrace_parse(in, loc);
    case SR_REPORT_PYTHON: return (struct sr_stacktrace*)sr_python_stacktrace_parse(in, loc);
    case SR_REPORT_RUBY: return (struct sr_stacktrace*)sr_ruby_stacktrace_parse(in, loc);
    case SR_REPORT_JAVASCRIPT: return (struct sr_stacktrace*)sr_js_stacktrace_parse(in, loc);
    case SR_REPORT_JAVA: return (struct sr_stacktrace*)sr_java_stacktrace_parse(in, loc);
    case SR_REPORT_KERNELOOPS: return (struct sr_stacktrace*)sr_koops_stacktrace_parse(in, loc);
    }
    return nullptr;
}
}
