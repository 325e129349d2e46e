// S01: whole-file reading and writing under I/O faults, against a map model.
#include <memory>
#include "core.h"
extern "C" {
#include "utils.h"
}
#include <glib.h>
using namespace sim;

static Str gen_content() {
    Str s;
    switch (W(7)) {
    case 0: return s;
    case 1: { uint32_t n = W(40); for (uint32_t i = 0; i < n; i++) s += (char)(1 + W(255)); return s; }
    case 2: { uint32_t n = 4090 + W(12); s.assign(n, 'a' + W(26)); return s; }
    case 3: { uint32_t n = W(70000); s.assign(n, 'b'); for (int i = 0; i < 8 && n; i++) s[W(n)] = (char)(1 + W(255)); return s; }
    case 4: { uint32_t n = W(20); for (uint32_t i = 0; i < n; i++) s += "line " + std::to_string(i) + "\n"; return s; }
    case 5: s = "x"; return s;
    default: { uint32_t n = 1 + W(300); for (uint32_t i = 0; i < n; i++) s += (char)(32 + W(95)); return s; }
    }
}

WORLD(file) {
    static const char* names[] = {"/w/a", "/w/b", "/w/dir/c", "/w/missing", "/w/dir"};
    std::map<Str, Str> model;              // what each file holds
    std::set<Str> unknown;                 // content unspecified after a failed write
    fs.mkdir("/w/dir");
    Str bystander = "keep me";
    fs.put("/w/other", bystander);
    for (int i = 0; i < 3; i++)
        if (W(2)) { Str c = gen_content(); fs.put(names[i], c); model[names[i]] = c; }
    bool big = W(1500) == 1499;
    if (big) {
        // around the documented limit
        size_t n = 20000000UL - 2 + W(5);
        Str c(n, 'z');
        fs.put("/w/a", c);
        model["/w/a"] = c;
        probe("around_size_limit");
    }
    plan_faults({F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_WRITE_ERR, F_WRITE_EINTR,
                 F_WRITE_SHORT, F_DISK_FULL, F_CLOSE_ERR, F_FILE_GROWS, F_FILE_SHRINKS, F_FILE_REPLACED, F_FILE_VANISHES}, 16);
    uint32_t nops = 1 + W(6);
    for (uint32_t op = 0; op < nops; op++) {
        Str name = names[W(5)];
        bool wr = W(2) && name != "/w/dir";
        uint32_t before = faults_fired();
        std::map<Str, Str> snap = fs.snapshot();
        fs.written.clear();
        char* err = nullptr;
        if (W(4) == 0) errno = W(40); // a stale errno from earlier unrelated calls
        if (wr) {
            Str c = gen_content();
            size_t nul = c.find('\0');
            if (nul != Str::npos) c.resize(nul);
            char* buf = (char*)malloc(c.size() + 1); // exact size: over-reads are caught
            memcpy(buf, c.c_str(), c.size() + 1);
            ev("op write %s %zu", name.c_str(), c.size());
            bool ok = LIB(sr_string_to_file(name.c_str(), buf, &err));
            bool intact = !memcmp(buf, c.c_str(), c.size() + 1);
            free(buf);
            if (!intact) violation("file:write-changes-input", "the string passed for writing was modified");
            bool faulty = faults_fired() != before;
            if (ok) {
                if (err) violation("file:message-on-success", "write reported success with message '%s'", err);
                if (!fs.has(name) || fs.get(name) != c)
                    violation("file:ack-write-incomplete", "write of %zu bytes to %s acknowledged but the file holds %zu other bytes",
                              c.size(), name.c_str(), fs.get(name).size());
                model[name] = c;
                unknown.erase(name);
            } else {
                if (!err) violation("file:no-message", "failed write without a message");
                if (!faulty) violation("file:spurious-write-failure", "write of %zu bytes failed without any fault: %s", c.size(), err);
                if (!*err) violation("file:no-message", "failed write with an empty message");
                unknown.insert(name);
                probe("write_failed");
            }
            for (auto& w : fs.written)
                if (w != name && w.compare(0, name.size(), name) != 0)
                    violation("file:other-file-touched", "writing %s touched %s", name.c_str(), w.c_str());
        } else {
            ev("op read %s", name.c_str());
            std::shared_ptr<Inode> ino = fs.files.count(name) ? fs.files[name] : nullptr;
            Str at_start = ino ? ino->data : Str();
            if (ino) ino->versions.clear();
            char* s = LIB(sr_file_to_string(name.c_str(), &err));
            bool faulty = faults_fired() != before;
            if (s) {
                if (err) violation("file:message-on-success", "read reported success with message '%s'", err);
                if (!ino) violation("file:invented-content", "read of a file that does not exist returned data");
                // the file's contents at some moment of the call
                std::vector<Str> ok{at_start};
                ok.insert(ok.end(), ino->versions.begin(), ino->versions.end());
                bool match = false;
                size_t have = malloc_usable_size_safe(s);
                for (auto& v : ok)
                    if (have >= v.size() + 1 && !memcmp(s, v.data(), v.size()) && s[v.size()] == 0 && (v.find('\0') != Str::npos || strlen(s) == v.size())) match = true;
                if (!match && ok.size() > 1) {
                    // it was changed during the call: reading takes no lock, so only bytes the
                    // file held at their position are required, down to its shortest version
                    size_t least = at_start.size();
                    for (auto& v : ok) least = std::min(least, v.size());
                    for (size_t i = 0; i < have; i++) {
                        if (s[i] == 0 && i >= least) { match = true; break; }
                        bool any = false;
                        for (auto& v : ok) if (i < v.size() && v[i] == s[i]) any = true;
                        if (!any) break;
                    }
                    probe("read_during_changes");
                }
                if (!match) violation("file:wrong-content", "read returned %zu bytes that the file never held (it held %zu bytes)", strlen(s), at_start.size());
                if (at_start.size() > 20000000UL) violation("file:limit-ignored", "a file of %zu bytes was read", at_start.size());
                if (ino->dir) violation("file:invented-content", "reading a directory returned data");
            } else {
                if (!err || !*err) violation("file:no-message", "failed read without a message");
                if (!faulty && ino && !ino->dir && at_start.size() <= 20000000UL)
                    violation("file:spurious-read-failure", "read of %zu bytes failed without any fault: %s", at_start.size(), err);
                probe("read_failed");
            }
            if (s) LIB(g_free(s));
            if (!fs.written.empty()) violation("file:read-writes", "reading wrote to %s", fs.written.begin()->c_str());
            if (faults_fired() != before)
                for (auto& f : fs.files) { model[f.first] = f.second->data; } // concurrent writers changed it
        }
        if (err) LIB(g_free(err));
        if (fs.get("/w/other") != bystander) violation("file:other-file-touched", "an unrelated file changed");
        if (fs.open_fds()) violation("fd:leak", "%zu descriptor(s) open after the call", fs.open_fds());
        for (auto& m : model)
            if (m.first != name && !unknown.count(m.first) && fs.has(m.first) && !fs.files[m.first]->dir && fs.get(m.first) != m.second)
                violation("file:other-file-touched", "%s changed while %s was used", m.first.c_str(), name.c_str());
    }
    if (nops > 1) nontrivial();
    // once the faults stop the next calls work
    no_faults();
    char* err = nullptr;
    char fin[] = "final";
    if (!LIB(sr_string_to_file("/w/a", fin, &err)))
        violation("file:no-recovery", "write after the faults stopped failed: %s", err);
    char* s = LIB(sr_file_to_string("/w/a", &err));
    if (!s || strcmp(s, "final")) violation("file:no-recovery", "read-back after the faults stopped gave '%s'", s ? s : err);
    LIB(g_free(s));
}
