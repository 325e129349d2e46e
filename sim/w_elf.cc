// S16: linkage tables and frame entries of ELF files that are unreadable, change while they are
// read, are cut off or damaged.  Real libelf and libdw read the images; the reads below them are simulated.
#include "core.h"
#include "jsonv.h"
#include <algorithm>
#include <elf.h>
#include <gelf.h>
#include <libelf.h>
#include <elfutils/libdw.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" {
#include "elves.h"
}
#include <glib.h>
using namespace sim;

namespace {
struct B : Str {
    void u(uint64_t v, int n) { for (int i = 0; i < n; i++) push_back((char)(v >> 8 * i)); }
    void uleb(uint64_t v) { do { uint8_t b = v & 127; v >>= 7; push_back((char)(v ? b | 128 : b)); } while (v); }
    void sleb(int64_t v) { while (true) { uint8_t b = v & 127; v >>= 7; bool end = (v == 0 && !(b & 64)) || (v == -1 && (b & 64)); push_back((char)(end ? b : b | 128)); if (end) break; } }
    void align(size_t n) { while (size() % n) push_back(0); }
};
struct Sec { Str name; uint32_t type = SHT_PROGBITS; uint64_t flags = SHF_ALLOC; B body; uint32_t link = 0, info = 0; uint64_t entsize = 0; uint64_t off = 0, addr = 0, size = 0; int delta = 0; };
struct Plt { uint64_t addr; Str name; };
struct Fde { uint64_t addr, len; };
struct Ent { size_t at, id_at, val_at, size; bool fde; };      // where things are in .eh_frame
struct Img {
    bool is64 = true, junk = false, plt_ok = false, eh_ok = false, exec_ok = true;
    uint64_t base = 0;
    std::vector<Sec> s;
    Str bytes;
    std::vector<Plt> plt;
    std::vector<Fde> fde;
    int i_plt = 0, i_rela = 0, i_sym = 0, i_str = 0, i_eh = 0;
    bool damaged_body = false, damaged_head = false;
    const Sec* sec(int i) const { return i ? &s[i] : nullptr; }
};
Str name_of(uint32_t i) {
    static const char* n[] = {"malloc", "free", "strcmp", "_ZN3FooC1Ev", "__cxa_finalize", "pthread_create", "g_free", "a", "", "memcpy", "f", "strlen"};
    return n[i % 12];
}
// .eh_frame of the functions in f (addresses known); eh_addr: address of the section
void put_eh(Img& m, Sec& sec, uint64_t text, uint64_t text_len) {
    struct Cie { size_t at; uint8_t enc; bool z; Str aug; };
    std::vector<Cie> cies;
    B& b = sec.body;
    int word = m.is64 ? 8 : 4;
    uint32_t n = W(9), more = 1 + W(3);
    uint64_t at = text;
    if (W(24) == 0) { b.assign(W(2) * 4, 0); return; }        // nothing, or only the end mark
    for (uint32_t i = 0; i < n || cies.empty(); i++) {
        bool ext = Wp(60);
        if (cies.empty() || (more && W(4) == 0)) {
            if (cies.size()) more--;
            Cie c; c.at = b.size();
            static const char* augs[] = {"zR", "zR", "", "zPLR", "zRS", "zLR", "zPR", "zPLRS", "z"};
            c.aug = augs[W(9)];
            c.z = c.aug.size() && c.aug[0] == 'z';
            static const uint8_t encs[] = {0x1b, 0x1b, 0x00, 0x1c, 0x03, 0x0b, 0x04, 0x10, 0x0c, 0x13};
            c.enc = c.aug.find('R') == Str::npos ? 0 : encs[W(10)];
            if (m.is64 && m.base >> 31 && (c.enc == 0x03 || c.enc == 0x0b)) c.enc = 0x1b;   // would not fit
            B e; e.u(0, ext ? 8 : 4);
            uint8_t ver = W(3) ? 1 : 3;
            e.push_back((char)ver); e += c.aug; e.push_back(0);
            e.uleb(1); e.sleb(-8); if (ver == 1) e.push_back(16); else e.uleb(16);
            if (c.z) {
                B a;
                for (char x : c.aug) {
                    if (x == 'P') { static const uint8_t pe[] = {0x9b, 0x00, 0x03, 0x1b, 0x9c, 0x02}; uint8_t p = pe[W(6)]; a.push_back((char)p); a.u(W64(), (p & 7) == 3 ? 4 : (p & 7) == 4 ? 8 : (p & 7) == 2 ? 2 : word); }
                    if (x == 'L') a.push_back(0x1b);
                    if (x == 'R') a.push_back((char)c.enc);
                }
                e.uleb(a.size()); e += a;
            }
            e += Str("\x0c\x07\x08\x90\x01", 5);
            while ((e.size() + 4) % word) e.push_back(0);
            if (ext) { b.u(0xffffffff, 4); b.u(e.size(), 8); } else b.u(e.size(), 4);
            b += e;
            cies.push_back(c);
            if (i >= n) break;
        }
        if (Wp(40)) {                                        // an entry nobody understands, used by no other
            B e;
            if (W(2)) { e.u(0, 4); e.push_back(9); e += Str("zR\0\1\2\3\4", 7); while ((e.size() + 4) % word) e.push_back(0); } else e.assign(1 + W(4), 1);
            b.u(e.size(), 4); b += e;
            m.junk = true;
        }
        const Cie& c = cies[W((uint32_t)cies.size())];
        size_t start = b.size(), id_at = start + (ext ? 12 : 4), val_at = id_at + (ext ? 8 : 4);
        Fde f;
        f.len = 1 + W(3) * 37 + (Wp(50) ? 0x10000 : 0);
        switch (W(12)) { default: at += W(20); break; case 10: at = text + text_len + W(1000) * 4096ULL; break; case 11: at = text; break; }
        f.addr = at;
        at += f.len;
        int len = (c.enc & 7) == 3 ? 4 : (c.enc & 7) == 4 ? 8 : word;
        B e; e.u(id_at - c.at, ext ? 8 : 4);
        e.u((c.enc & 0x70) == 0x10 ? f.addr - (sec.addr + val_at) : f.addr, len);
        e.u(f.len, len);
        if (c.z) { B a; if (c.aug.find('L') != Str::npos) a.u(W64(), 4); e.uleb(a.size()); e += a; }
        e += "\x41\x0e\x10";
        while ((e.size() + 4) % word) e.push_back(0);
        if (ext) { b.u(0xffffffff, 4); b.u(e.size(), 8); probe("extended_entry"); } else b.u(e.size(), 4);
        b += e;
        if (!m.is64) f.addr &= 0xffffffff;
        m.fde.push_back(f);
    }
    if (W(4)) b.u(0, 4);
}
Img gen_image() {
    Img m;
    m.is64 = W(5) != 4;
    int word = m.is64 ? 8 : 4;
    static const uint64_t bases[] = {0, 0x400000, 0x08048000, 0x10000, 0x555555554000ULL};
    m.base = bases[W(m.is64 ? 5 : 4)];
    bool modern = W(2);                       // text in a segment of its own
    bool eh_rw = W(5) == 0;                    // .eh_frame in the writable segment, elsewhere in memory than in the file
    m.s.resize(1);
    auto add = [&](const Str& n) -> int { m.s.push_back(Sec()); m.s.back().name = n; return (int)m.s.size() - 1; };
    auto decoy = [&] { if (W(3) == 0) { int i = add(pick(std::vector<Str>{".plt.got", ".eh_frame_hdr", ".note.gnu.build-id", ".pl", ".plt2", ".eh_fram", ".init"})); for (uint32_t k = W(60); k > 0; k--) m.s[i].body.push_back((char)W(256)); } };
    decoy();
    bool have_plt = W(8) != 0, have_eh = W(8) != 0, sym_before = W(2);
    auto symtab = [&] { m.i_sym = add(".dynsym"); m.i_str = add(".dynstr"); };
    if (sym_before) symtab();
    bool rela_before = W(2);
    if (rela_before) { m.i_rela = add(".rela.plt"); decoy(); }
    if (have_plt) m.i_plt = add(".plt");
    decoy();
    int i_text = add(".text");
    m.s[i_text].body.assign(64 + W(8) * 64, '\x90');
    m.s[i_text].flags = SHF_ALLOC | SHF_EXECINSTR;
    if (!rela_before) m.i_rela = add(".rela.plt");
    if (!sym_before) symtab();
    if (W(3) == 0) { int i = add(".rela.dyn"); m.s[i].type = SHT_RELA; m.s[i].entsize = 3 * word; m.s[i].body.assign(3 * word * W(3), 1); m.s[i].link = m.i_sym; }
    if (have_eh) m.i_eh = add(".eh_frame");
    decoy();
    // symbols
    Sec &sym = m.s[m.i_sym], &str = m.s[m.i_str], &rela = m.s[m.i_rela];
    uint32_t nsym = 1 + W(8);
    std::vector<Str> names;
    str.type = SHT_STRTAB; str.body.push_back(0);
    sym.type = SHT_DYNSYM; sym.link = m.i_str; sym.entsize = m.is64 ? 24 : 16;
    for (uint32_t i = 0; i < nsym; i++) {
        Str n = i ? name_of(W(12)) + (W(2) ? "" : std::to_string(W(100))) : Str();
        size_t at = str.body.find(n + '\0');
        if (at == Str::npos || W(3) == 0) { at = str.body.size(); str.body += n; str.body.push_back(0); }
        names.push_back(n);
        if (m.is64) { sym.body.u(at, 4); sym.body.u(0x12, 1); sym.body.u(0, 1); sym.body.u(0, 2); sym.body.u(0, 8); sym.body.u(0, 8); }
        else { sym.body.u(at, 4); sym.body.u(0, 4); sym.body.u(0, 4); sym.body.u(0x12, 1); sym.body.u(0, 1); sym.body.u(0, 2); }
    }
    // relocations and linkage table
    rela.type = SHT_RELA; rela.link = m.i_sym; rela.entsize = 3 * word; rela.info = m.i_plt;
    uint32_t nplt = have_plt ? W(9) : 0, nrela = nplt + W(3);
    std::vector<uint32_t> rsym;
    for (uint32_t i = 0; i < nrela; i++) {
        uint32_t k = W(nsym); rsym.push_back(k);
        rela.body.u(0x4000 + 8 * i, word);
        if (m.is64) rela.body.u((uint64_t)k << 32 | 7, 8); else rela.body.u(k << 8 | 7, 4);
        rela.body.u(0, word);
    }
    if (have_plt) {
        Sec& p = m.s[m.i_plt];
        p.flags = SHF_ALLOC | SHF_EXECINSTR;
        bool perm = W(3) == 0;
        for (uint32_t i = 0; i <= nplt; i++) {
            if (!i) { p.body += Str("\xff\x35\x2a\x2c\x20\x00\xff\x25\x2c\x2c\x20\x00\x0f\x1f\x40\x00", 16); continue; }
            uint32_t idx = perm ? W(nrela) : i - 1;
            p.body += Str("\xff\x25", 2); p.body.u(W(65536), 4); p.body.push_back(0x68); p.body.u(idx, 4); p.body.push_back((char)0xe9); p.body.u(0u - 16 * (i + 1), 4);
            m.plt.push_back({16ULL * i, names[rsym[idx]]});
        }
        m.plt_ok = true;
        if (W(8) == 0) { rela.info = W(3) ? i_text : 0; m.plt_ok = false; }     // linked to another section: nothing to find
    }
    // places
    uint32_t phnum = modern ? 4 : 2;
    bool no_exec = W(16) == 0, odd = W(3) == 0;
    if (odd) phnum += 1;
    uint64_t off = (m.is64 ? 64 : 52) + phnum * (m.is64 ? 56 : 32);
    int sh = add(".shstrtab"); m.s[sh].type = SHT_STRTAB; m.s[sh].flags = 0;
    for (auto& s : m.s) { size_t k = m.s[sh].body.find(s.name + '\0'); if (k == Str::npos) { m.s[sh].body += s.name; m.s[sh].body.push_back(0); } }
    if (modern) off = (off + 0xff) & ~0xffULL;
    uint64_t text_off = 0, text_end = 0, rw_delta = eh_rw ? 0x1000 * (1 + W(3)) : 0;
    std::vector<int> order;
    for (int i = 1; i < (int)m.s.size(); i++) if (i != m.i_eh && i != i_text && i != m.i_plt) order.push_back(i);
    size_t cut = W((uint32_t)order.size() + 1);
    std::vector<int> place(order.begin(), order.begin() + cut);
    size_t ex0 = place.size();
    if (m.i_plt) place.push_back(m.i_plt);
    place.push_back(i_text);
    size_t ex1 = place.size();
    place.insert(place.end(), order.begin() + cut, order.end());
    if (m.i_eh) place.insert(place.begin() + (modern || eh_rw ? ex1 + W((uint32_t)(place.size() - ex1 + 1)) : W(2) ? ex1 : 0), m.i_eh);
    for (size_t i = 0; i < place.size(); i++) {
        Sec& s = m.s[place[i]];
        off = (off + 15) & ~15ULL;
        bool ex = place[i] == i_text || place[i] == m.i_plt;
        if (ex && !text_off) { if (modern) off = (off + 0xff) & ~0xffULL; text_off = off; }
        if (place[i] == m.i_eh) {
            s.addr = m.base + off + rw_delta;
            put_eh(m, s, m.base + text_off, 0x1000);
        }
        s.off = off; s.size = s.body.size();
        s.addr = s.flags & SHF_ALLOC ? m.base + off + (place[i] == m.i_eh ? rw_delta : 0) : 0;
        if (!m.is64) s.addr &= 0xffffffff;
        off += s.body.size();
        if (ex) text_end = off;
    }
    (void)ex0;
    m.eh_ok = have_eh;
    for (auto& p : m.plt) p.addr += m.s[m.i_plt].addr;
    uint64_t shoff = (off + 15) & ~15ULL;
    // headers
    B& b = *(B*)&m.bytes;
    B h;
    h += Str("\x7f" "ELF", 4); h.push_back(m.is64 ? 2 : 1); h.push_back(1); h.push_back(1); h.u(0, 9);
    h.u(m.base ? 2 : 3, 2); h.u(m.is64 ? 62 : 3, 2); h.u(1, 4); h.u(m.base + text_off, word); h.u(m.is64 ? 64 : 52, word); h.u(shoff, word); h.u(0, 4);
    h.u(m.is64 ? 64 : 52, 2); h.u(m.is64 ? 56 : 32, 2); h.u(phnum, 2); h.u(m.is64 ? 64 : 40, 2); h.u(m.s.size(), 2); h.u(sh, 2);
    auto ph = [&](uint32_t type, uint32_t fl, uint64_t o, uint64_t va, uint64_t sz) {
        if (m.is64) { h.u(type, 4); h.u(fl, 4); h.u(o, 8); h.u(va, 8); h.u(va, 8); h.u(sz, 8); h.u(sz, 8); h.u(0x1000, 8); }
        else { h.u(type, 4); h.u(o, 4); h.u(va, 4); h.u(va, 4); h.u(sz, 4); h.u(sz, 4); h.u(fl, 4); h.u(0x1000, 4); }
    };
    m.exec_ok = !no_exec;
    uint32_t X = no_exec ? 0 : PF_X;
    if (odd) ph(W(2) ? PT_GNU_STACK : PT_PHDR, PF_R | PF_X, 64, m.base + 64 + 0x77000, 0x100);     // executable, but not loaded
    if (modern) {
        ph(PT_LOAD, PF_R, 0, m.base, text_off);
        ph(PT_LOAD, PF_R | X, text_off, m.base + text_off, text_end - text_off);
        ph(PT_LOAD, PF_R, text_end, m.base + text_end, shoff - text_end);
        ph(PT_LOAD, PF_R | PF_W, text_end, m.base + text_end + rw_delta, shoff - text_end);
    } else {
        ph(PT_LOAD, PF_R | X, 0, m.base, text_end);
        ph(PT_LOAD, PF_R | PF_W, text_end, m.base + text_end + rw_delta, shoff - text_end);
    }
    b = h;
    for (int i : place) { b.resize(m.s[i].off, 0); b += m.s[i].body; }
    b.resize(shoff, 0);
    for (auto& s : m.s) {
        if (s.name.empty()) { b.u(0, m.is64 ? 64 : 40); continue; }
        b.u(m.s[sh].body.find(s.name + '\0'), 4); b.u(s.type, 4); b.u(s.flags, word); b.u(s.addr, word); b.u(s.off, word); b.u(s.size, word); b.u(s.link, 4); b.u(s.info, 4); b.u(16, word); b.u(s.entsize, word);
    }
    return m;
}
uint64_t rd(const Str& s, size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t)s[at + i] << 8 * i; return v; }

// what an entry of the linkage table says, read without libelf; false: cannot be told
bool slot_says(const Img& m, const Str& b, size_t i, Plt* out) {
    const Sec &p = m.s[m.i_plt], &r = m.s[m.i_rela], &y = m.s[m.i_sym], &t = m.s[m.i_str];
    if (16 * i + 16 > p.size) return false;
    uint64_t idx = rd(b, p.off + 16 * i + 7, 4);
    int word = m.is64 ? 8 : 4;
    if ((idx + 1) * 3 * word > r.size) return false;
    uint64_t info = rd(b, r.off + idx * 3 * word + word, word), k = m.is64 ? info >> 32 : info >> 8;
    if ((k + 1) * y.entsize > y.size) return false;
    uint64_t n = rd(b, y.off + k * y.entsize, 4);
    if (n >= t.size) return false;
    size_t e = b.find('\0', t.off + n);
    if (e == Str::npos || e >= t.off + t.size) return false;
    *out = {p.addr + 16 * i, b.substr(t.off + n, e - t.off - n)};
    return true;
}
// can the frame section at this point be read as this entry, with any encoding?
std::vector<size_t> eh_entries(const Img& m, const Str& b) {
    std::vector<size_t> v;
    const Sec& s = m.s[m.i_eh];
    for (size_t at = 0; at + 4 <= s.size; ) {
        uint64_t len = rd(b, s.off + at, 4); size_t h = 4;
        if (len == 0) break;
        if (len == 0xffffffff) { if (at + 12 > s.size) break; len = rd(b, s.off + at + 4, 8); h = 12; }
        if (len > s.size - at - h) break;
        v.push_back(at);
        at += h + len;
    }
    return v;
}
bool entry_says(const Img& m, const Str& b, size_t at, const Fde& f) {
    const Sec& s = m.s[m.i_eh];
    uint64_t len = rd(b, s.off + at, 4); size_t h = 4, id = 4;
    if (len == 0xffffffff) { len = rd(b, s.off + at + 4, 8); h = 12; id = 8; }
    size_t val = at + h + id, end = at + h + len;
    for (int n : {4, 8}) {
        if (val + 2 * n > end) continue;
        uint64_t mask = m.is64 && n == 8 ? ~0ULL : 0xffffffff;
        uint64_t v = rd(b, s.off + val, n), l = rd(b, s.off + val + n, n);
        if (l != f.len) continue;
        if (((v - f.addr) & mask) == 0 || ((v + s.addr + val - f.addr) & mask) == 0) return true;
    }
    return false;
}

// ------------------------------------------------------------------ reads below libelf
bool on;
std::set<int> seen_fds;
std::shared_ptr<Img> current;
}
extern "C" {
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) {
    if (on) {
        Out o;
        if (fault(F_READ_ERR)) { ev("pread %zu at %lld -> EIO", n, (long long)off); errno = EIO; return -1; }
        if (fault(F_READ_EINTR)) { ev("pread -> EINTR"); errno = EINTR; return -1; }
        if (n > 1 && fault(F_READ_SHORT)) { n = 1 + F((uint32_t)std::min<size_t>(n - 1, 1 << 20)); ev("pread short: %zu", n); }
        if (fault(F_FILE_SHRINKS)) { struct stat sb; uint32_t have = fstat(fd, &sb) ? 0 : (uint32_t)sb.st_size; size_t sz = have ? F(have) : 0; ev("file cut to %zu while it is read", sz); if (::syscall(SYS_ftruncate, fd, (long)sz)) {} }
    }
    return ::syscall(SYS_pread64, fd, buf, n, (long)off);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t __pread_chk(int fd, void* buf, size_t n, off_t off, size_t) { return pread64(fd, buf, n, off); }
ssize_t __pread64_chk(int fd, void* buf, size_t n, off64_t off, size_t) { return pread64(fd, buf, n, off); }
#define FAILS(what, bad) { Out o; if (on && fault(F_ELF_ERR)) { ev(what " fails"); return bad; } }
Elf_Scn* __real_elf_getscn(Elf*, size_t);
Elf_Scn* __wrap_elf_getscn(Elf* e, size_t i) { FAILS("elf_getscn", nullptr) return __real_elf_getscn(e, i); }
Elf_Data* __real_elf_getdata(Elf_Scn*, Elf_Data*);
Elf_Data* __wrap_elf_getdata(Elf_Scn* s, Elf_Data* d) { FAILS("elf_getdata", nullptr) return __real_elf_getdata(s, d); }
GElf_Shdr* __real_gelf_getshdr(Elf_Scn*, GElf_Shdr*);
GElf_Shdr* __wrap_gelf_getshdr(Elf_Scn* s, GElf_Shdr* h) { FAILS("gelf_getshdr", nullptr) return __real_gelf_getshdr(s, h); }
char* __real_elf_strptr(Elf*, size_t, size_t);
char* __wrap_elf_strptr(Elf* e, size_t i, size_t o_) { FAILS("elf_strptr", nullptr) return __real_elf_strptr(e, i, o_); }
GElf_Rela* __real_gelf_getrela(Elf_Data*, int, GElf_Rela*);
GElf_Rela* __wrap_gelf_getrela(Elf_Data* d, int i, GElf_Rela* r) { FAILS("gelf_getrela", nullptr) return __real_gelf_getrela(d, i, r); }
GElf_Sym* __real_gelf_getsym(Elf_Data*, int, GElf_Sym*);
GElf_Sym* __wrap_gelf_getsym(Elf_Data* d, int i, GElf_Sym* r) { FAILS("gelf_getsym", nullptr) return __real_gelf_getsym(d, i, r); }
int __real_elf_getshdrstrndx(Elf*, size_t*);
int __wrap_elf_getshdrstrndx(Elf* e, size_t* i) { FAILS("elf_getshdrstrndx", -1) return __real_elf_getshdrstrndx(e, i); }
char* __real_elf_getident(Elf*, size_t*);
char* __wrap_elf_getident(Elf* e, size_t* i) { FAILS("elf_getident", nullptr) return __real_elf_getident(e, i); }
}
namespace sim { bool elf_world() { return on; } }

namespace {
struct Held { struct sr_elf_plt_entry* p = nullptr; struct sr_elf_fde* f = nullptr; std::vector<Plt> mp; std::vector<Fde> mf; uint64_t base = 0; bool is64 = true; };
void use(Held& h) {
    // lookups on a result read earlier
    for (int k = 0; k < 4; k++) {
        if (h.p) {
            uint64_t a = W(3) ? h.mp[W((uint32_t)h.mp.size())].addr + (W(4) ? 0 : 1) : W64();
            auto e = LIB(sr_elf_plt_find_for_address(h.p, a));
            auto want = std::find_if(h.mp.begin(), h.mp.end(), [&](const Plt& x) { return x.addr == a; });
            if (!e != (want == h.mp.end()) || (e && e->address != a)) violation("plt-lookup", "address %llx: %s", (unsigned long long)a, e ? "found" : "not found");
        }
        if (h.f) {
            const Fde& t = h.mf[W((uint32_t)h.mf.size())];
            uint64_t a = W(4) ? t.addr + (W(3) ? W((uint32_t)std::min<uint64_t>(t.len, 1000)) : t.len) - (W(5) ? 0 : 1) : W64();
            int what = W(3);
            struct sr_elf_fde* e = what == 0 ? LIB(sr_elf_find_fde_for_address(h.f, a)) : what == 1 ? LIB(sr_elf_find_fde_for_start_address(h.f, a)) : LIB(sr_elf_find_fde_for_offset(h.f, a - h.base));
            size_t i = 0;
            for (; i < h.mf.size(); i++) {
                const Fde& x = h.mf[i];
                if (what == 1 ? x.addr == a : what == 2 ? a - h.base >= x.addr - h.base && a - h.base < x.addr - h.base + x.len : a >= x.addr && a < x.addr + x.len) break;
            }
            auto w = h.f; for (size_t k2 = 0; k2 < i && w; k2++) w = w->next;
            if (e != w) violation("fde-lookup", "lookup %d of %llx (offset %llx) returns %s", what, (unsigned long long)a, (unsigned long long)(a - h.base), e ? w ? "another entry" : "an entry" : "nothing");
        }
    }
    if (h.f && W(2)) {
        char* j = LIB(sr_elf_fde_to_json(h.f, true));
        JVal v; Str err;
        if (!json_parse(j, &v, &err)) violation("fde-json", "not JSON: %s: %s", err.c_str(), show(j).c_str());
        if (v.t != JVal::ARR || v.a.size() != h.mf.size()) violation("fde-json", "array of %zu entries expected: %s", h.mf.size(), show(j).c_str());
        for (size_t i = 0; i < h.mf.size(); i++) {
            auto s = v.a[i].get("start_address"), l = v.a[i].get("length");
            if (!s || !l || s->s != std::to_string(h.mf[i].addr - h.base) || l->s != std::to_string(h.mf[i].len)) violation("fde-json", "entry %zu of %s", i, show(j).c_str());
        }
        LIB(g_free(j));
    }
}
void drop(Held& h) {
    LIB(sr_elf_procedure_linkage_table_free(h.p));
    LIB(sr_elf_eh_frame_free(h.f));
    h = Held();
}
}

WORLD(elf) {
    fs.reset();
    elf_errno();                                             // both keep the last error of the thread
    dwarf_errno();
    std::vector<std::shared_ptr<Img>> img;
    for (uint32_t i = 1 + W(2); i > 0; i--) img.push_back(std::make_shared<Img>(gen_image()));
    auto store = [&](size_t i) { Str p = "/bin/f" + std::to_string(i); fs.put(p, img[i]->bytes); fs.memfd_paths.insert(p); };
    for (size_t i = 0; i < img.size(); i++) store(i);
    plan_faults({F_OPEN_ERR, F_CLOSE_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_FILE_SHRINKS, F_ELF_ERR}, 60);
    size_t live0 = ledger_live();
    std::vector<Held> held;
    uint32_t ops = 1 + W(6);
    if (ops > 1) nontrivial();
    uint64_t st = 0;
    for (uint32_t op = 0; op < ops; op++) {
        size_t i = W((uint32_t)img.size());
        if (!mode_clean() && F(4) == 0) {
            // damage in storage
            auto m = std::make_shared<Img>(*img[i]);
            Str& b = m->bytes;
            std::vector<int> bodies;
            for (int k : {m->i_plt, m->i_rela, m->i_sym, m->i_str, m->i_eh}) if (k && m->s[k].size) bodies.push_back(k);
            uint32_t how = F(8);
            if (how < 2 && m->i_eh && !m->damaged_head && eh_entries(*m, b).size()) {
                // one field of one frame entry
                Sec& s = m->s[m->i_eh];
                auto at = eh_entries(*m, b);
                size_t e = s.off + at[F((uint32_t)at.size())];
                uint64_t len = rd(b, e, 4);
                bool ext = len == 0xffffffff;
                size_t body = e + (ext ? 12 : 4);
                if (ext) len = rd(b, e + 4, 8);
                uint64_t nl = F(2) ? F((uint32_t)len + 1) : std::min<uint64_t>(len, F(24));
                bool cie = rd(b, body, ext ? 8 : 4) == 0;
                auto resize = [&](size_t ns) {
                    size_t h = (size_t)rd(b, m->is64 ? 40 : 32, m->is64 ? 8 : 4) + m->i_eh * (m->is64 ? 64 : 40) + (m->is64 ? 32 : 20);
                    for (int k = 0; k < 4; k++) b[h + k] = (char)(ns >> 8 * k);
                    s.size = ns;
                };
                switch (F(cie ? 4 : 2)) {
                case 0: for (int k = 0; k < (ext ? 8 : 4); k++) b[e + (ext ? 4 : 0) + k] = (char)(nl >> 8 * k); break;      // shorter
                case 1: {                                   // the section ends with it, or within it
                    resize(body - s.off + (F(2) ? len : nl));
                    break;
                }
                default: {
                    size_t a = body + (ext ? 8 : 4) + 1, z = b.find('\0', a);       // augmentation, then two numbers and a register, then its length
                    if (z == Str::npos || z > body + len) break;
                    if (F(2)) { for (size_t k = a; k < z; k++) if (F(2)) b[k] = "zPLRSB"[F(6)]; }
                    else { size_t l = z + 4; if (F(2)) b[l] = (char)F(6); else { for (int k = 0; k < (ext ? 8 : 4); k++) b[e + (ext ? 4 : 0) + k] = (char)((l + F(2) - body) >> 8 * k); b[l] = 0; if (F(2)) { if (z > a && F(2)) b[a] = "PLR"[F(3)]; resize(l + (b[a] == 'z') - s.off); } } }
                }
                }
                m->damaged_body = true;
                count_fault(F_BITFLIP);
                ev("damage in entry at %zu", e - s.off);
            } else if (how < 5 && bodies.size()) {
                const Sec& s = m->s[bodies[F((uint32_t)bodies.size())]];
                for (uint32_t n = 1 + F(4); n > 0; n--) {
                    size_t at = s.off + F((uint32_t)s.size);
                    if (at >= b.size()) continue;
                    if (F(2)) b[at] ^= 1 << F(8); else b[at] = F(2) ? (char)F(256) : F(2) ? '\0' : '\xff';
                }
                if (F(4) == 0) { size_t at = s.off + F((uint32_t)s.size); for (size_t k = at; k < s.off + s.size && k < at + 24 && k < b.size(); k++) b[k] = 0; count_fault(F_BLOCK_ZERO); }
                m->damaged_body = true;
                count_fault(F_BITFLIP);
                ev("damage in %s", s.name.c_str());
            } else if (how < 6) { b.resize(F((uint32_t)b.size())); m->damaged_head = true; count_fault(F_TEAR); ev("cut to %zu", b.size()); }
            else {
                // headers, section table
                size_t tab = img[i]->bytes.size() < 64 ? 1 << 30 : rd(img[i]->bytes, m->is64 ? 40 : 32, m->is64 ? 8 : 4), entry = m->is64 ? 64 : 40;
                m->damaged_head = true;
                count_fault(F_BITFLIP);
                size_t at = how == 6 || tab + entry > b.size() ? F(std::min<uint32_t>((uint32_t)b.size(), 300)) : tab + F((uint32_t)(b.size() - tab));
                if (b.empty()) {}
                else if (how == 7 && tab + entry <= b.size() && F(2)) {      // a section that is shorter, or without data in this file
                    size_t k = 1 + F((uint32_t)m->s.size() - 1);
                    size_t f = tab + k * entry;
                    if (f + entry <= b.size()) { if (F(2)) b[f + 4] = 8 /* SHT_NOBITS */; else b[f + (m->is64 ? 32 : 20)] ^= 1 + F(31); }
                } else b[at] = F(2) ? (char)F(256) : b[at] ^ (1 << F(8));
                ev("damage at %zu", at);
            }
            img[i] = m;
            store(i);
            continue;
        }
        if (held.size() && W(3) == 0) {
            size_t k = W((uint32_t)held.size());
            if (W(3)) { ev("use"); use(held[k]); } else { ev("drop"); drop(held[k]); held.erase(held.begin() + k); }
            continue;
        }
        if (W(8) == 0) { ev("replaced"); img[i] = std::make_shared<Img>(gen_image()); store(i); continue; }
        Img& m = *img[i];
        const Str& b = m.bytes;
        current = img[i];
        bool plt = W(2);
        Str path = W(12) ? "/bin/f" + std::to_string(i) : Str("/bin/missing");
        bool missing = path == "/bin/missing";
        uint32_t fired = faults_fired();
        char marker; char* err = &marker;
        Held h; h.base = m.base; h.is64 = m.is64;
        ev("read %s of %s", plt ? ".plt" : ".eh_frame", path.c_str());
        on = true;
        if (plt) h.p = LIB(sr_elf_get_procedure_linkage_table(path.c_str(), &err)); else h.f = LIB(sr_elf_get_eh_frame(path.c_str(), &err));
        on = false;
        bool hurt = faults_fired() != fired;
        bool ok = err == &marker;
        if (fs.open_fds()) violation("elf:descriptor", "%zu descriptors left open", fs.open_fds());
        if (!ok && (h.p || h.f)) violation("elf:message", "entries and an error message");
        if (!ok) { if (!err || !*err) violation("elf:message", "failed without a message"); ev("-> %s", err); LIB(g_free(err)); }
        size_t n = 0;
        for (auto e = h.p; e; e = e->next) { if (!e->symbol_name) violation("plt:no-name", "entry %zu has no symbol name", n); h.mp.push_back({e->address, e->symbol_name}); n++; }
        for (auto e = h.f; e; e = e->next) { h.mf.push_back({e->start_address + e->exec_base, e->length}); if (!m.is64) h.mf.back().addr &= 0xffffffff; n++; }
        ev("-> %s, %zu entries", ok ? "ok" : "failed", n);
        st = st * 131 + ok + 2 * n + 64 * plt + (m.damaged_body ? 1000 : 0) + (m.damaged_head ? 2000 : 0);
        if (missing && ok) violation("elf:missing", "a file that does not exist was read");
        if (missing) {}
        else if (m.damaged_head) {
            if (ok && n) probe("damaged_headers_read");
            for (auto& e : h.mp) if (b.find(e.name + '\0') == Str::npos) violation("plt:foreign", "name %s is nowhere in the file", show(e.name).c_str());
        } else if (m.damaged_body) {
            if (ok && n) probe("damaged_body_read");
            for (size_t k = 0; k < h.mp.size(); k++) {
                Plt w;
                if (!slot_says(m, b, k + 1, &w)) violation("plt:foreign", "entry %zu (%s) is not in the file", k, show(h.mp[k].name).c_str());
                if (w.addr != h.mp[k].addr || w.name != h.mp[k].name) violation("plt:wrong", "entry %zu is %llx %s instead of %llx %s", k, (unsigned long long)h.mp[k].addr, show(h.mp[k].name).c_str(), (unsigned long long)w.addr, show(w.name).c_str());
            }
            if (plt && ok && h.mp.size() != m.plt.size()) violation("plt:short", "%zu entries of %zu and no error", h.mp.size(), m.plt.size());
            if (!plt && h.mf.size()) {
                auto at = eh_entries(m, b);
                size_t k = 0;
                for (size_t x = 0; x < h.mf.size(); x++) {
                    while (k < at.size() && !entry_says(m, b, at[k], h.mf[x])) k++;
                    if (k == at.size()) violation("fde:foreign", "entry %zu (%llx + %llx) is not in the file", x, (unsigned long long)h.mf[x].addr, (unsigned long long)h.mf[x].len);
                    k++;
                }
            }
        } else {
            bool can = plt ? m.plt_ok : m.eh_ok && m.exec_ok;
            if (!ok && can && !hurt && (plt || !m.junk)) violation(plt ? "plt:refused" : "fde:refused", "an intact file is refused");
            if (ok && !can) violation("elf:invented", "%zu entries of a table the file does not have", n);
            if (ok && plt) {
                if (h.mp.size() != m.plt.size()) violation("plt:short", "%zu entries instead of %zu", h.mp.size(), m.plt.size());
                for (size_t k = 0; k < h.mp.size(); k++) if (h.mp[k].addr != m.plt[k].addr || h.mp[k].name != m.plt[k].name)
                    violation("plt:wrong", "entry %zu is %llx %s instead of %llx %s", k, (unsigned long long)h.mp[k].addr, show(h.mp[k].name).c_str(), (unsigned long long)m.plt[k].addr, show(m.plt[k].name).c_str());
            }
            if (ok && !plt) {
                if (h.mf.size() != m.fde.size()) violation("fde:short", "%zu entries instead of %zu", h.mf.size(), m.fde.size());
                for (size_t k = 0; k < h.mf.size(); k++) if (h.mf[k].addr != m.fde[k].addr || h.mf[k].len != m.fde[k].len)
                    violation("fde:wrong", "entry %zu is %llx + %llx instead of %llx + %llx", k, (unsigned long long)h.mf[k].addr, (unsigned long long)h.mf[k].len, (unsigned long long)m.fde[k].addr, (unsigned long long)m.fde[k].len);
            }
        }
        if (h.p || h.f) {
            // only what can be looked up without wrapping around
            if (!m.damaged_body && !m.damaged_head && m.is64) use(h);
            if (!m.damaged_body && !m.damaged_head && m.is64 && held.size() < 4) held.push_back(h); else drop(h);
        }
    }
    for (auto& h : held) { use(h); drop(h); }
    current = nullptr;
    if (ledger_live() != live0) violation("leak:elf", "%zu allocations left", ledger_live() - live0);
    state(st);
}
