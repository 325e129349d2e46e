// The unwinder library, ptrace and waitpid as the library under test sees them,
// over a simulated process image.  Real libelf reads the core dump and the
// executable; everything that would look at a process or at DWARF data is simulated.
#include "unwind.h"
#include "satyr_globals.h"
#include <elf.h>
#include <gelf.h>
#include <libelf.h>
#include <signal.h>
#include <sys/procfs.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <stdarg.h>
#include <unistd.h>
extern "C" {
#include <elfutils/libdwfl.h>
}
using namespace sim;

static std::vector<std::unique_ptr<UImage>>& images() { static auto* v = new std::vector<std::unique_ptr<UImage>>; return *v; }
static std::set<Dwfl*>& sessions() { static auto* s = new std::set<Dwfl*>; return *s; }
static std::map<int, Delivered>& deliv() { static auto* m = new std::map<int, Delivered>; return *m; }
static bool hurt_details;
static bool in_sim_unwind() { return !images().empty(); }

struct Proc { UImage* img = nullptr; int tid = 0; bool seized = false, traceexit = false, piped = true, stopped = false, at_exit = false, gone = false, reaped = false; };
static std::map<int, Proc>& procs() { static auto* m = new std::map<int, Proc>; return *m; }

struct Dwfl_Module {
    Dwfl* dwfl; UMod* m; void* userdata = nullptr;
    bool tried = false, have = false;
    int fd = -1; Elf* elf = nullptr; char* file = nullptr; bool own = false;
    Str bid;
};
struct Dwfl {
    const Dwfl_Callbacks* cb; UImage* img = nullptr; bool reported = false, ended = false, attached = false, from_proc = false;
    size_t cut_len = 0; int proc_tid = 0;
    std::vector<std::unique_ptr<Dwfl_Module>> mods;
};
struct Dwfl_Frame { struct Dwfl_Thread* t; uint64_t pc; bool act; };
struct Dwfl_Thread { Dwfl* dwfl; UThread* t; };

namespace sim {
size_t live_sessions() { return sessions().size(); }
void set_details_hurt(bool b) { hurt_details = b; }
void unwind_process_died() { Out o; for (auto d : sessions()) { for (auto& m : d->mods) { free(m->file); } delete d; } sessions().clear(); }
bool details_hurt() { return hurt_details; }
std::map<int, Delivered>& delivered() { return deliv(); }
void reset_delivered() { Out o; deliv().clear(); hurt_details = false; }
void unwind_reset() { Out o; images().clear(); procs().clear(); deliv().clear(); sessions().clear(); hurt_details = false; }
void crash_process(UImage& img, int tid) { Out o; Proc p; p.img = &img; p.tid = tid; procs()[tid] = p; }

static void put32(Str& s, uint32_t v) { s.append((const char*)&v, 4); }
static void note(Str& s, const char* name, size_t namesz, uint32_t type, const Str& desc) {
    put32(s, (uint32_t)namesz); put32(s, (uint32_t)desc.size()); put32(s, type);
    Str n(name, namesz); while (n.size() % 4) n += '\0';
    s += n;
    s += desc;
    while (s.size() % 4) s += '\0';
}
static void gen_syms(UMod& m) {
    static const struct { const char *raw, *shown; } names[] = {
        {"main", "main"}, {"raise", "raise"}, {"abort", "abort"}, {"crash_here", "crash_here"}, {"poll", "poll"}, {"g_main_loop_run", "g_main_loop_run"},
        {"_ZN3foo3barEv", "foo::bar()"}, {"_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int> >::push_back(int const&)"}, {"_Znot_mangled", "_Znot_mangled"},
        {"f", "f"}, {"start_thread", "start_thread"}, {"__libc_start_main_impl", "__libc_start_main_impl"}, {"_start", "_start"}, {"free@@GLIBC_2.2.5", "free@@GLIBC_2.2.5"},
    };
    uint64_t a = m.start + (W(3) ? 0x1000 : 0);
    uint32_t n = W(7);
    for (uint32_t i = 0; i < n && a + 64 < m.end; i++) {
        USym s;
        s.start = a; s.size = 16 + W(3) * 16;
        auto& nm = names[W(sizeof names / sizeof *names)];
        s.name = nm.raw; s.shown = nm.shown;
        if (W(2)) { Str sfx = "_" + std::to_string(i); if (s.name[0] != '_' && s.name.find('@') == Str::npos) { s.name += sfx; s.shown += sfx; } }
        m.syms.push_back(s);
        a += s.size + (W(3) ? 0 : 16);          // mostly adjacent: pc - 1 and pc lie in different functions
    }
    if (W(4) == 0 && a + 64 < m.end) m.syms.push_back(USym{a, 32, "__libc_start_main", "__libc_start_main"});
}
static uint64_t gen_pc(const UImage& img) {
    if (img.mods.empty() || W(12) == 0) { static const uint64_t odd[] = {0, 1, 8, 0x10, 0xdeadbeef, 0x7fffffffffff, 0xffffffffff600000ULL, ~0ULL - 1}; return odd[W(8)]; }
    const UMod& m = img.mods[W((uint32_t)img.mods.size())];
    if (m.syms.empty() || W(5) == 0) {
        switch (W(4)) { case 0: return m.start; case 1: return m.end; case 2: return m.end - 1; default: return m.start + W((uint32_t)std::min<uint64_t>(m.end - m.start, 1u << 30)); }
    }
    const USym& s = m.syms[W((uint32_t)m.syms.size())];
    switch (W(4)) { case 0: return s.start; case 1: return s.start + s.size; case 2: return s.start + s.size - 1; default: return s.start + W((uint32_t)s.size); }
}
UImage& gen_image(const Str& exe) {
    Out out;
    images().emplace_back(new UImage);
    UImage& im = *images().back();
    im.id = (int)images().size();
    im.exe = exe;
    im.sig = (int)pick<int>({SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTRAP, 64});
    uint64_t a = W(2) ? 0x400000 : 0x555555554000ULL;
    uint32_t nm = 1 + W(4);
    for (uint32_t i = 0; i < nm; i++) {
        UMod m;
        m.start = a; m.end = a + 0x1000 * (2 + W(64));
        a = m.end + (W(3) ? 0x200000 : 0);       // mostly with a gap, sometimes adjacent
        if (W(8) == 0) m.start = m.start, m.end = m.start + 0x1000;
        if (i == 0 && W(6)) { m.exe = true; m.name = W(2) ? "[exe]" : "[pie]"; m.path = exe; }
        else {
            static const char* libs[] = {"/usr/lib64/libc.so.6", "/usr/lib64/libglib-2.0.so.0", "/usr/lib64/ld-linux-x86-64.so.2", "/opt/app with space/lib.so", "/usr/lib/jvm/x.so"};
            m.path = Str(libs[W(5)]); m.name = m.path.substr(m.path.rfind('/') + 1);
            if (W(8) == 0) { m.path = ""; if (W(3) == 0) m.name = "[vdso: 1234]"; }
        }
        uint32_t bl = (uint32_t)pick<int>({20, 20, 20, 0, 16, 8, 1});
        for (uint32_t k = 0; k < bl; k++) m.build_id += (char)W(256);
        if (m.path.size()) gen_syms(m);
        im.mods.push_back(m);
    }
    uint32_t nt = 1 + (W(3) ? W(3) : W(6));
    int tid = 100 + im.id * 1000 + (int)W(500);
    for (uint32_t i = 0; i < nt; i++) {
        UThread t;
        t.tid = tid; tid += 1 + (int)W(5);
        uint32_t nf = W(30) == 0 ? 250 + W(40) : W(8);
        for (uint32_t k = 0; k < nf; k++) {
            UFrame f{gen_pc(im), k == 0 || W(8) == 0};
            t.f.push_back(f);
            if (nf > 20) for (uint32_t r = W(60); r && t.f.size() < nf; r--) t.f.push_back(UFrame{f.pc + 1 + (r % 7), false}), k++;
        }
        im.t.push_back(t);
    }
    // the executable: any ELF file whose build id can be found in it
    Elf64_Ehdr xh; memset(&xh, 0, sizeof xh);
    memcpy(xh.e_ident, ELFMAG, SELFMAG); xh.e_ident[EI_CLASS] = ELFCLASS64; xh.e_ident[EI_DATA] = ELFDATA2LSB; xh.e_ident[EI_VERSION] = EV_CURRENT;
    xh.e_type = ET_EXEC; xh.e_machine = EM_X86_64; xh.e_version = EV_CURRENT; xh.e_ehsize = sizeof xh; xh.e_phentsize = sizeof(Elf64_Phdr); xh.e_shentsize = sizeof(Elf64_Shdr);
    Str x((const char*)&xh, sizeof xh);
    x += im.mods[0].build_id;
    fs.put(exe, x);
    // the core dump
    std::vector<Str> segs; std::vector<std::vector<std::pair<int, size_t>>> ends;   // (thread, end offset in the segment)
    segs.push_back(""); ends.push_back({});
    auto decoy = [&](Str& s) {
        switch (W(10)) {
        case 0: note(s, "LINUX", 6, 0x202, Str(100, 'x')); break;
        case 1: note(s, "GNU", 4, NT_PRSTATUS, Str(sizeof(struct elf_prstatus), '\x11')); break;   // same type, another vendor
        case 2: note(s, "CORE", 5, NT_PRSTATUS, Str(40, '\x12')); break;                            // truncated descriptor
        case 3: note(s, "CORE", 5, NT_PRPSINFO, Str(136, '\x13')); break;
        case 4: note(s, "", 0, 7, ""); break;
        case 5: note(s, "CORE!", 6, NT_PRSTATUS, Str(sizeof(struct elf_prstatus), '\x14')); break;
        case 6: note(s, "CORE", 5, NT_FILE, Str(1 + W(50), '\x15')); break;
        default: break;
        }
    };
    bool others = W(2);
    if (W(4) == 0) { decoy(segs.back()); segs.push_back(""); ends.push_back({}); }
    for (size_t i = 0; i < im.t.size(); i++) {
        if (W(6) == 0) { segs.push_back(""); ends.push_back({}); }
        Str& s = segs.back();
        if (i == 0 || W(3) == 0) decoy(s);
        struct elf_prstatus ps; memset(&ps, 0, sizeof ps);
        ps.pr_pid = im.t[i].tid;
        ps.pr_cursig = i == 0 || others ? im.sig : 0;
        ps.pr_info.si_signo = ps.pr_cursig;
        note(s, "CORE", 5, NT_PRSTATUS, Str((const char*)&ps, sizeof ps));
        ends.back().push_back({(int)i, s.size()});
        if (W(3) == 0) decoy(s);
    }
    size_t nph = segs.size() + 1;
    bool load_first = W(2);
    Elf64_Ehdr ch = xh;
    ch.e_type = ET_CORE; ch.e_phoff = sizeof ch; ch.e_phnum = (Elf64_Half)nph; ch.e_entry = (uint64_t)im.id;
    size_t off = sizeof ch + nph * sizeof(Elf64_Phdr);
    Str ph, body;
    Elf64_Phdr load; memset(&load, 0, sizeof load);
    load.p_type = PT_LOAD; load.p_flags = PF_R; load.p_vaddr = im.mods[0].start; load.p_memsz = 0x1000; load.p_align = 1;
    load.p_offset = off; load.p_filesz = 0;
    if (load_first) ph.append((const char*)&load, sizeof load);
    im.note_end.assign(im.t.size(), 0);
    for (size_t k = 0; k < segs.size(); k++) {
        Elf64_Phdr p; memset(&p, 0, sizeof p);
        p.p_type = PT_NOTE; p.p_offset = off + body.size(); p.p_filesz = segs[k].size(); p.p_align = 4;
        for (auto& e : ends[k]) im.note_end[(size_t)e.first] = p.p_offset + e.second;
        ph.append((const char*)&p, sizeof p);
        body += segs[k];
    }
    if (!load_first) { ph.append((const char*)&load, sizeof load); }
    im.core = Str((const char*)&ch, sizeof ch) + ph + body + Str(W(64), '\x7e');
    return im;
}
MFrame resolved(const UImage& im, uint64_t pc, bool act) {
    MFrame f;
    f.n["address"] = pc; f.n["build_id_offset"] = pc;
    uint64_t at = pc - (act ? 0 : 1);
    const UMod* hit = nullptr;
    for (auto& m : im.mods) if (at >= m.start && at < m.end) { hit = &m; break; }
    if (!hit) return f;
    f.n["build_id_offset"] = pc - hit->start;
    if (hit->exe && im.exe_gone) { f.s["file_name"] = hit->name; return f; }
    if (hit->build_id.size()) { Str h; char b[3]; for (unsigned char c : hit->build_id) { snprintf(b, sizeof b, "%02x", c); h += b; } f.s["build_id"] = h; }
    f.s["file_name"] = hit->path.size() ? hit->path : hit->name;
    for (auto& s : hit->syms) if (at >= s.start && at < s.start + s.size) { f.s["function_name"] = s.shown; break; }
    return f;
}
static std::vector<MFrame> last256(std::vector<MFrame> v) { if (v.size() > 256) v.erase(v.begin(), v.end() - 256); return v; }
std::vector<MFrame> expected_frames(const UImage& im, const UThread& t) {
    std::vector<MFrame> v;
    for (auto& f : t.f) {
        MFrame m = resolved(im, f.pc, f.activation);
        if (m.s.count("function_name") && m.s["function_name"] == "__libc_start_main") break;
        v.push_back(m);
    }
    return last256(v);
}
static void plain(std::vector<MFrame>& v) { for (auto& f : v) { f.n.erase("fingerprint_hashed"); } }
Str check_unwound(const UImage& im, const UThread& t, const MThread& got) {
    auto it = deliv().find(t.tid);
    std::vector<MFrame> g = got.f;
    plain(g);
    if (!hurt_details && (it == deliv().end() || !it->second.cut)) {
        std::vector<MFrame> w = expected_frames(im, t);
        MThread a, b; a.f = w; b.f = g;
        return diff(a, b, "thread " + std::to_string(t.tid));
    }
    if (it == deliv().end()) return "thread " + std::to_string(t.tid) + " was never unwound but has a result";
    std::vector<MFrame> w;
    const Delivered& d = it->second;
    size_t n = d.f.size() - (d.stopped ? 1 : 0);
    for (size_t i = 0; i < n; i++) w.push_back(resolved(im, d.f[i].pc, d.f[i].activation));
    w = last256(w);
    if (w.size() != g.size()) return "thread " + std::to_string(t.tid) + ": " + std::to_string(g.size()) + " frames, the unwinder delivered " + std::to_string(n);
    for (size_t i = 0; i < w.size(); i++) {
        Str at = "thread " + std::to_string(t.tid) + " frame " + std::to_string(i) + ": ";
        if (g[i].n["address"] != w[i].n["address"]) return at + "address " + hex(g[i].n["address"]) + ", delivered " + hex(w[i].n["address"]);
        if (!hurt_details) { MFrame a = w[i], b = g[i]; Str x = diff(a, b, at); if (x.size()) return x; continue; }
        uint64_t o = g[i].n["build_id_offset"];
        if (o != w[i].n["build_id_offset"] && o != w[i].n["address"] && o != NOADDR) return at + "offset " + hex(o) + " belongs to no module of this address";
        for (auto& kv : g[i].s) {
            auto e = w[i].s.find(kv.first);
            if (e != w[i].s.end() && e->second == kv.second) continue;
            bool modname = false;
            if (kv.first == "file_name") for (auto& m : im.mods) if (m.name == kv.second) modname = true;
            if (!modname) return at + kv.first + " is \"" + kv.second + "\"" + (e == w[i].s.end() ? ", there is none" : ", should be \"" + e->second + "\"");
        }
    }
    return "";
}
MTrace expected_trace(const UImage& im) {
    MTrace m;
    m.type = SR_REPORT_CORE;
    m.n["signal"] = (uint64_t)im.sig; m.n["only_crash_thread"] = 0;
    m.s["executable"] = im.exe;
    for (auto& t : im.t) { MThread th; th.f = expected_frames(im, t); m.t.push_back(th); }
    if (!im.t.empty()) m.crash = 0;
    return m;
}
}

// ------------------------------------------------------------------ libdwfl
static void close_module(Dwfl_Module& m) {
    if (m.elf && m.own) elf_end(m.elf);
    if (m.fd >= 0 && m.own) { ::sim::Lib l; close(m.fd); }
    free(m.file);
    m.elf = nullptr; m.fd = -1; m.file = nullptr;
}
static void live(Dwfl* d, const char* fn) {
    if (!d) violation("unwind:null-session", "%s called without a session", fn);
    if (!sessions().count(d)) violation("unwind:dead-session", "%s called on a session that has ended", fn);
}
extern "C" {
Dwfl* __wrap_dwfl_begin(const Dwfl_Callbacks* cb) {
    Out o;
    if (fault(F_DWFL_ERR)) { ev("dwfl_begin fails"); return nullptr; }
    Dwfl* d = new Dwfl; d->cb = cb;
    sessions().insert(d);
    return d;
}
void __wrap_dwfl_end(Dwfl* d) {
    Out o;
    if (!d) return;
    live(d, "dwfl_end");
    for (auto& m : d->mods) close_module(*m);
    sessions().erase(d);
    delete d;
}
static void set_mods(Dwfl* d) { for (auto& m : d->img->mods) { auto x = std::make_unique<Dwfl_Module>(); x->dwfl = d; x->m = &m; d->mods.push_back(std::move(x)); } }
int __wrap_dwfl_core_file_report(Dwfl* d, Elf* elf, const char* exe) {
    Out o;
    live(d, "dwfl_core_file_report");
    if (fault(F_DWFL_ERR)) { ev("dwfl_core_file_report fails"); return -1; }
    size_t sz = 0; char* raw = elf_rawfile(elf, &sz);
    if (!raw || sz < sizeof(Elf64_Ehdr)) return -1;
    uint64_t id = ((Elf64_Ehdr*)raw)->e_entry;
    if (id == 0 || id > images().size()) return -1;
    d->img = images()[id - 1].get();
    d->cut_len = sz;
    set_mods(d);
    d->reported = true;
    return (int)d->mods.size();
}
int __wrap_dwfl_linux_proc_report(Dwfl* d, pid_t pid) {
    Out o;
    live(d, "dwfl_linux_proc_report");
    if (fault(F_DWFL_ERR)) { ev("dwfl_linux_proc_report fails"); return -1; }
    auto it = procs().find(pid);
    if (it == procs().end() || it->second.gone) return ENOENT;
    d->img = it->second.img; d->from_proc = true; d->proc_tid = pid;
    set_mods(d);
    d->reported = true;
    return 0;
}
int __wrap_dwfl_report_end(Dwfl* d, int (*)(Dwfl_Module*, void*, const char*, Dwarf_Addr, void*), void*) {
    Out o;
    live(d, "dwfl_report_end");
    if (fault(F_DWFL_ERR)) { ev("dwfl_report_end fails"); return -1; }
    d->ended = d->reported;
    return 0;
}
static Elf* getelf(Dwfl_Module* m) {
    if (m->tried) return m->have ? (m->elf ? m->elf : (Elf*)m) : nullptr;
    if (fault(F_DWFL_ERR)) { hurt_details = true; ev("dwfl_module_getelf fails"); return nullptr; }
    m->tried = true;
    Dwfl* d = m->dwfl;
    if (m->m->path.empty()) return nullptr;
    Elf* elf = nullptr; char* file = nullptr;
    uint32_t before = faults_fired();
    int fd;
    { ::sim::Lib l; fd = d->cb->find_elf(m, &m->userdata, m->m->name.c_str(), m->m->start, &file, &elf); }
    if (faults_fired() != before) hurt_details = true;
    m->file = file;
    if (fd < 0) return nullptr;
    m->fd = fd; m->elf = elf; m->have = true;
    m->own = elf != nullptr;
    if (elf) {
        size_t sz = 0; char* raw = elf_rawfile(elf, &sz);
        if (raw && sz >= sizeof(Elf64_Ehdr)) m->bid = Str(raw + sizeof(Elf64_Ehdr), sz - sizeof(Elf64_Ehdr));
    } else m->bid = m->m->build_id;
    return m->elf ? m->elf : (Elf*)m;
}
static int find_simulated(Dwfl_Module* m, char** file) {
    if (fault(F_DWFL_ERR)) { ev("find_elf fails"); return -1; }
    *file = strdup(m->m->path.c_str());
    return 1 << 20;
}
int __wrap_dwfl_linux_proc_find_elf(Dwfl_Module* m, void**, const char*, Dwarf_Addr, char** file, Elf**) { Out o; return find_simulated(m, file); }
int __wrap_dwfl_build_id_find_elf(Dwfl_Module* m, void**, const char*, Dwarf_Addr, char** file, Elf**) { Out o; return find_simulated(m, file); }
int __wrap_dwfl_offline_section_address(Dwfl_Module*, void**, const char*, Dwarf_Addr, const char*, GElf_Word, const GElf_Shdr*, Dwarf_Addr*) { return -1; }
Elf* __wrap_dwfl_module_getelf(Dwfl_Module* m, GElf_Addr* bias) { Out o; live(m->dwfl, "dwfl_module_getelf"); if (bias) *bias = 0; return getelf(m); }
ptrdiff_t __wrap_dwfl_getmodules(Dwfl* d, int (*cb)(Dwfl_Module*, void**, const char*, Dwarf_Addr, void*), void* arg, ptrdiff_t off) {
    Out o;
    live(d, "dwfl_getmodules");
    if (!d->ended || fault(F_DWFL_ERR)) { ev("dwfl_getmodules fails"); return -1; }
    for (size_t i = (size_t)off; i < d->mods.size(); i++) {
        Dwfl_Module* m = d->mods[i].get();
        int r;
        { ::sim::Lib l; r = cb(m, &m->userdata, m->m->name.c_str(), m->m->start, arg); }
        if (r != DWARF_CB_OK) return (ptrdiff_t)i + 1;
        if (fault(F_DWFL_PARTIAL)) { ev("dwfl_getmodules fails after %zu", i + 1); return -1; }
    }
    return 0;
}
const char* __wrap_dwfl_module_info(Dwfl_Module* m, void*** ud, Dwarf_Addr* s, Dwarf_Addr* e, Dwarf_Addr* db, Dwarf_Addr* sb, const char** main, const char** dbg) {
    Out o;
    if (!m) return nullptr;
    live(m->dwfl, "dwfl_module_info");
    if (ud) *ud = &m->userdata;
    if (s) *s = m->m->start;
    if (e) *e = m->m->end;
    if (db) *db = (Dwarf_Addr)-1;
    if (sb) *sb = (Dwarf_Addr)-1;
    if (main) *main = m->have ? m->file : nullptr;
    if (dbg) *dbg = nullptr;
    return m->m->name.c_str();
}
Dwfl_Module* __wrap_dwfl_addrmodule(Dwfl* d, Dwarf_Addr a) {
    Out o;
    live(d, "dwfl_addrmodule");
    if (fault(F_DWFL_ERR)) { hurt_details = true; ev("dwfl_addrmodule fails"); return nullptr; }
    for (auto& m : d->mods) if (a >= m->m->start && a < m->m->end) return m.get();
    return nullptr;
}
int __wrap_dwfl_module_build_id(Dwfl_Module* m, const unsigned char** bits, GElf_Addr* at) {
    Out o;
    live(m->dwfl, "dwfl_module_build_id");
    if (fault(F_DWFL_ERR)) { hurt_details = true; ev("dwfl_module_build_id fails"); return -1; }
    const Str* b = m->have ? &m->bid : m->m->path.empty() ? &m->m->build_id : nullptr;
    if (!b || b->empty()) return 0;
    *bits = (const unsigned char*)b->data(); *at = m->m->start;
    return (int)b->size();
}
const char* __wrap_dwfl_module_addrname(Dwfl_Module* m, GElf_Addr a) {
    Out o;
    live(m->dwfl, "dwfl_module_addrname");
    if (fault(F_DWFL_ERR)) { hurt_details = true; ev("dwfl_module_addrname fails"); return nullptr; }
    if (!getelf(m)) return nullptr;
    for (auto& s : m->m->syms) if (a >= s.start && a < s.start + s.size) return s.name.c_str();
    return nullptr;
}
int __wrap_dwfl_core_file_attach(Dwfl* d, Elf* elf) {
    Out o;
    live(d, "dwfl_core_file_attach");
    if (!d->ended || fault(F_DWFL_ERR)) { ev("dwfl_core_file_attach fails"); return -1; }
    size_t sz = 0; char* raw = elf_rawfile(elf, &sz);
    if (!raw || sz < sizeof(Elf64_Ehdr) || ((Elf64_Ehdr*)raw)->e_entry != (uint64_t)d->img->id) violation("unwind:other-core", "dwfl_core_file_attach got another core dump than dwfl_core_file_report");
    if (!d->img->t.empty() && d->img->note_end[0] > d->cut_len) { ev("no thread in the torn dump"); return -1; }
    d->attached = true;
    return d->img->t.empty() ? 1 : d->img->t[0].tid;
}
static int walk(Dwfl* d, UThread* t, int (*cb)(Dwfl_Frame*, void*), void* arg) {
    Delivered& del = deliv()[t->tid];
    del = Delivered();
    if (fault(F_DWFL_ERR)) { del.cut = true; ev("thread %d: unwinding fails", t->tid); return -1; }
    Dwfl_Thread th{d, t};
    for (auto& f : t->f) {
        if (!del.f.empty() && fault(F_DWFL_PARTIAL)) { del.cut = true; ev("thread %d: unwinding fails after %zu frames", t->tid, del.f.size()); return -1; }
        Dwfl_Frame fr{&th, f.pc, f.activation};
        int r;
        { ::sim::Lib l; r = cb(&fr, arg); }
        del.f.push_back(f);
        if (r != DWARF_CB_OK) { del.stopped = true; return r; }
    }
    return 0;
}
int __wrap_dwfl_getthreads(Dwfl* d, int (*cb)(Dwfl_Thread*, void*), void* arg) {
    Out o;
    live(d, "dwfl_getthreads");
    if (!d->attached || fault(F_DWFL_ERR)) { ev("dwfl_getthreads fails"); return -1; }
    size_t n = 0;
    for (auto& t : d->img->t) {
        if (!d->from_proc && d->img->note_end[n] > d->cut_len) { ev("torn dump: %zu of %zu threads", n, d->img->t.size()); return F(2) ? 0 : -1; }
        Dwfl_Thread th{d, &t};
        int r;
        { ::sim::Lib l; r = cb(&th, arg); }
        if (r != DWARF_CB_OK) return r;
        n++;
        if (fault(F_DWFL_PARTIAL)) { ev("dwfl_getthreads fails after %zu threads", n); return -1; }
    }
    return 0;
}
int __wrap_dwfl_thread_getframes(Dwfl_Thread* t, int (*cb)(Dwfl_Frame*, void*), void* arg) { Out o; live(t->dwfl, "dwfl_thread_getframes"); return walk(t->dwfl, t->t, cb, arg); }
pid_t __wrap_dwfl_thread_tid(Dwfl_Thread* t) { return t->t->tid; }
Dwfl* __wrap_dwfl_thread_dwfl(Dwfl_Thread* t) { return t->dwfl; }
Dwfl_Thread* __wrap_dwfl_frame_thread(Dwfl_Frame* f) { return f->t; }
bool __wrap_dwfl_frame_pc(Dwfl_Frame* f, Dwarf_Addr* pc, bool* act) {
    Out o;
    if (fault(F_DWFL_ERR)) { ev("dwfl_frame_pc fails"); return false; }
    *pc = f->pc;
    if (act) *act = f->act;
    return true;
}
const char* __wrap_dwfl_errmsg(int) { return "simulated unwinder failure"; }
int __wrap_dwfl_linux_proc_attach(Dwfl* d, pid_t pid, bool stopped) {
    Out o;
    live(d, "dwfl_linux_proc_attach");
    if (!d->ended || fault(F_DWFL_ERR)) { ev("dwfl_linux_proc_attach fails"); return ESRCH; }
    auto it = procs().find(pid);
    if (it == procs().end() || it->second.gone) return ESRCH;
    Proc& p = it->second;
    if (p.seized != stopped) return EPERM;                      // a process has one tracer
    if (!p.stopped) return EPERM;
    d->attached = true;
    return 0;
}
int __wrap_dwfl_getthread_frames(Dwfl* d, pid_t tid, int (*cb)(Dwfl_Frame*, void*), void* arg) {
    Out o;
    live(d, "dwfl_getthread_frames");
    if (!d->attached) return -1;
    if (d->from_proc && !procs()[d->proc_tid].stopped) return -1;
    for (auto& t : d->img->t) if (t.tid == tid) {
        if (d->from_proc && !procs()[d->proc_tid].at_exit) {
            // stopped, but not where it crashed: what its stack looks like now is somebody else's
            static UThread other; other.tid = tid; other.f.clear();
            for (auto f : t.f) { f.pc += 0x40; other.f.push_back(f); }
            return walk(d, &other, cb, arg);
        }
        return walk(d, &t, cb, arg);
    }
    return -1;
}

// ------------------------------------------------------------------ libelf steps the library makes itself
Elf* __real_elf_begin(int, Elf_Cmd, Elf*);
Elf* __wrap_elf_begin(int fd, Elf_Cmd c, Elf* ref) { if (!elf_version_told()) return nullptr; { Out o; if (in_sim_unwind() && fault(F_ELF_ERR)) { ev("elf_begin fails"); return nullptr; } } return __real_elf_begin(fd, c, ref); }
GElf_Ehdr* __real_gelf_getehdr(Elf*, GElf_Ehdr*);
GElf_Ehdr* __wrap_gelf_getehdr(Elf* e, GElf_Ehdr* h) { { Out o; if (in_sim_unwind() && fault(F_ELF_ERR)) { ev("gelf_getehdr fails"); return nullptr; } } return __real_gelf_getehdr(e, h); }
int __real_elf_getphdrnum(Elf*, size_t*);
int __wrap_elf_getphdrnum(Elf* e, size_t* n) { { Out o; if (in_sim_unwind() && fault(F_ELF_ERR)) { ev("elf_getphdrnum fails"); return -1; } } return __real_elf_getphdrnum(e, n); }
GElf_Phdr* __real_gelf_getphdr(Elf*, int, GElf_Phdr*);
GElf_Phdr* __wrap_gelf_getphdr(Elf* e, int i, GElf_Phdr* p) { { Out o; if (in_sim_unwind() && fault(F_ELF_ERR)) { ev("gelf_getphdr fails"); return nullptr; } } return __real_gelf_getphdr(e, i, p); }
Elf_Data* __real_elf_getdata_rawchunk(Elf*, int64_t, size_t, Elf_Type);
Elf_Data* __wrap_elf_getdata_rawchunk(Elf* e, int64_t o_, size_t n, Elf_Type t) { { Out o; if (in_sim_unwind() && fault(F_ELF_ERR)) { ev("elf_getdata_rawchunk fails"); return nullptr; } } return __real_elf_getdata_rawchunk(e, o_, n, t); }

// ------------------------------------------------------------------ process control
static Proc* tracee(int pid) { auto it = procs().find(pid); return it == procs().end() ? nullptr : &it->second; }
long __wrap_ptrace(int req, ...) {
    Out o;
    va_list ap; va_start(ap, req);
    pid_t pid = va_arg(ap, pid_t); void* addr = va_arg(ap, void*); void* data = va_arg(ap, void*);
    va_end(ap); (void)addr;
    Proc* p = tracee(pid);
    if (fault(F_PTRACE_ERR)) { static const int e[] = {EPERM, ESRCH, EBUSY}; errno = e[F(3)]; ev("ptrace %d -> errno %d", req, errno); return -1; }
    if (!p || p->gone) { errno = ESRCH; return -1; }
    switch (req) {
    case PTRACE_SEIZE:
        if (p->seized) { errno = EPERM; return -1; }
        p->seized = true; p->traceexit = ((uintptr_t)data & PTRACE_O_TRACEEXIT) != 0;
        ev("process %d seized", pid);
        return 0;
    case PTRACE_DETACH: case PTRACE_CONT:
        if (!p->seized || !p->stopped) { errno = ESRCH; return -1; }
        p->stopped = false;
        if (p->at_exit) p->gone = true;
        if (req == PTRACE_DETACH) p->seized = false;
        return 0;
    default: errno = EIO; return -1;
    }
}
pid_t __wrap_waitpid(pid_t pid, int* status, int opt) {
    Out o;
    Proc* p = tracee(pid);
    if (fault(F_WAIT_ERR)) { errno = ECHILD; ev("waitpid -> ECHILD"); return -1; }
    if (fault(F_WAIT_EINTR)) { errno = EINTR; ev("waitpid -> EINTR"); return -1; }
    if (!p || !p->seized || p->gone) { errno = ECHILD; return -1; }
    if (fault(F_WAIT_STOP)) {
        p->stopped = true;
        switch (F(4)) {
        case 0: *status = (SIGSTOP << 8) | 0x7f; break;
        case 1: *status = ((SIGTRAP | (PTRACE_EVENT_STOP << 8)) << 8) | 0x7f; break;
        case 2: *status = SIGKILL; p->gone = true; p->stopped = false; break;          // somebody killed it
        default: *status = (SIGTRAP << 8) | 0x7f; break;
        }
        ev("waitpid -> other event %x", *status);
        return pid;
    }
    if (p->stopped) { errno = ECHILD; return -1; }
    if (p->piped) {
        if (opt & WNOHANG) return 0;
        violation("unwind:deadlock", "waits for a process that waits for the crash handler to close the pipe");
    }
    if (!p->traceexit) { *status = p->img->sig; p->gone = true; return pid; }
    p->stopped = p->at_exit = true;
    *status = ((SIGTRAP | (PTRACE_EVENT_EXIT << 8)) << 8) | 0x7f;
    ev("process %d stops at its exit", pid);
    return pid;
}
}
namespace sim {
// the crash handler closed its end of the pipe: the kernel finishes the dump
void stdin_closed() {
    for (auto& kv : procs()) if (kv.second.piped) { kv.second.piped = false; if (!kv.second.seized) { kv.second.gone = true; ev("process %d is gone", kv.first); } }
}
}
