// S06: crash texts written by a simulated crashing system into a log file that is
// torn by crashes, read back and parsed; compared with the crash they describe.
#include "text.h"
extern "C" {
#include "utils.h"
}
using namespace sim;

static struct sr_stacktrace* parse_exact(int type, const Str& text, Str* msg, size_t* consumed, bool generic) {
    char* buf = (char*)malloc(text.size() + 1);
    memcpy(buf, text.c_str(), text.size() + 1);
    struct sr_stacktrace* st;
    *consumed = 0;
    if (generic) {
        char* err = nullptr;
        st = LIB(sr_stacktrace_parse((enum sr_report_type)type, buf, &err));
        if (!st && !err) violation("parse:no-message", "the %s text was refused without a message", type_name(type));
        if (st && err) violation("parse:message-on-success", "a stack trace and a message '%s'", err);
        if (err) { *msg = err; LIB(g_free(err)); }
    } else {
        struct sr_location loc;
        sr_location_init(&loc);
        const char* in = buf;
        st = LIB(parse_trace(type, &in, &loc));
        if (!st && !loc.message) violation("parse:no-message", "the %s text was refused without a message", type_name(type));
        if (loc.message) *msg = loc.message;
        if (in < buf || in > buf + text.size()) violation("parse:cursor", "the input pointer left the text");
        if (!st && in != buf) probe("cursor_moved_on_failure");
        *consumed = in - buf;
    }
    if (memcmp(buf, text.c_str(), text.size() + 1)) violation("parse:input-changed", "parsing changed the text");
    free(buf);
    return st;
}
static Str frame_text(const MFrame& f) {
    Str t;
    for (auto& x : f.s) t += x.first + "=" + show(x.second, 60) + " ";
    for (auto& x : f.n) t += x.first + "=" + std::to_string(x.second) + " ";
    return t;
}
// frames that lie before the cut are there in order; at most one more
static void check_torn(const Rendered& r, size_t cut, const MTrace& got) {
    std::vector<std::pair<int, const MFrame*>> expect, found;
    std::vector<std::vector<bool>> complete(r.want.t.size());
    for (size_t t = 0; t < r.want.t.size(); t++) complete[t].resize(r.want.t[t].f.size());
    for (auto& p : r.pos) if (p.t >= 0 && p.end <= cut) complete[p.t][p.f] = true;
    for (size_t t = 0; t < r.want.t.size(); t++) for (size_t f = 0; f < r.want.t[t].f.size(); f++) if (complete[t][f]) expect.push_back({(int)t, &r.want.t[t].f[f]});
    for (size_t t = 0; t < got.t.size(); t++) for (auto& f : got.t[t].f) found.push_back({(int)t, &f});
    size_t i = 0, j = 0, extra = 0;
    while (j < found.size()) {
        if (i < expect.size() && found[j].first == expect[i].first && diff((const MObj&)*expect[i].second, (const MObj&)*found[j].second, "f").empty()) { i++; j++; continue; }
        if (++extra > 1)
            violation(Str("parse:torn-frames-") + type_name(r.type), "cut at %zu of %zu: frame '%s' was not in the text%s%s", cut, r.text.size(), frame_text(*found[j].second).c_str(),
                      i < expect.size() ? "; expected " : "", i < expect.size() ? diff((const MObj&)*expect[i].second, (const MObj&)*found[j].second, "frame").c_str() : "");
        j++;
    }
    if (i < expect.size()) violation(Str("parse:torn-lost-") + type_name(r.type), "cut at %zu of %zu: %zu of %zu complete frames are missing, first: %s", cut, r.text.size(), expect.size() - i, expect.size(), frame_text(*expect[i].second).c_str());
    // what identifies a thread is part of the records before the cut
    for (size_t t = 0; t < got.t.size() && t < r.want.t.size(); t++) {
        bool any = false;
        for (size_t f = 0; f < complete[t].size(); f++) any = any || complete[t][f];
        if (!any) continue;
        Str d = diff((const MObj&)r.want.t[t], (const MObj&)(got.t[t]), "thread" + std::to_string(t));
        if (!d.empty()) violation(Str("parse:torn-thread-") + type_name(r.type), "cut at %zu: %s", cut, d.c_str());
    }
    if (r.want.crash_frame) {
        size_t end = 0;
        for (auto& p : r.pos) if (p.t < 0) end = p.end;
        if (end <= cut && got.t.size()) {
            if (!got.crash_frame) violation("parse:torn-crash-frame", "cut at %zu: crash frame lost", cut);
            Str d = diff((const MObj&)*r.want.crash_frame, (const MObj&)*got.crash_frame, "crash");
            if (!d.empty()) violation("parse:torn-crash-frame", "cut at %zu: %s", cut, d.c_str());
        }
    }
}
WORLD(parse) {
    static const int types[] = {SR_REPORT_GDB, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT};
    int type = types[W(6)];
    Rendered r = render(type);
    ev("%s %zu bytes %zu threads %zu frames", type_name(type), r.text.size(), r.want.t.size(), r.pos.size());
    state(model_hash(r.want));
    size_t used;
    Str msg;
    auto check_whole = [&](bool generic) {
        struct sr_stacktrace* st = parse_exact(type, r.text, &msg, &used, generic);
        if (!st) violation(Str("parse:refused-") + type_name(type), "an intact text was refused: %s\n%s", msg.c_str(), r.text.substr(0, 1500).c_str());
        Str d = diff(r.want, trace_of(st));
        if (!d.empty()) violation(Str("parse:wrong-") + type_name(type), "%s\n%s", d.c_str(), r.text.substr(0, 1500).c_str());
        LIB(sr_stacktrace_free(st));
    };
    check_whole(W(3) == 2);
    plan_faults({F_TEAR, F_CRASH, F_WRITE_SHORT, F_DISK_FULL, F_POWER_LOSS, F_READ_ERR, F_READ_SHORT, F_OPEN_ERR, F_NOISE}, 8);
    uint32_t rounds = 1 + W(6);
    bool torn = false;
    for (uint32_t k = 0; k < rounds; k++) {
        Str copy = r.text;
        if (W(3) == 2) { // through the disk of the crashing machine
            fs.put("/var/crash/backtrace", "old content\n");
            bool ok = false;
            char* err = nullptr;
            bool alive = process_life([&] { ok = LIB(sr_string_to_file("/var/crash/backtrace", (char*)r.text.c_str(), &err)); });
            if (alive && err) LIB(g_free(err));
            copy = fs.get("/var/crash/backtrace");
            if ((!alive || !ok) && copy != "old content\n" && fault(F_POWER_LOSS)) copy.resize(F((uint32_t)copy.size() + 1));
            if (ok && copy != r.text) violation("parse:store", "stored text differs");
            fs.put("/var/crash/backtrace", copy);
            err = nullptr;
            char* back = LIB(sr_file_to_string("/var/crash/backtrace", &err));
            if (!back) { LIB(g_free(err)); continue; }
            copy = back;
            LIB(g_free(back));
            if (copy == "old content\n") { ev("old content"); continue; }
        }
        if (fault(F_TEAR)) {
            // favour record borders
            if (F(2) && !r.pos.empty()) {
                size_t e = r.pos[F((uint32_t)r.pos.size())].end;
                size_t d = F(40);
                size_t c = F(2) ? e + d : e > d ? e - d : 0;
                copy = r.text.substr(0, c < r.text.size() ? c : r.text.size());
            } else copy = r.text.substr(0, F((uint32_t)r.text.size() + 1));
        }
        if (copy == r.text) { check_whole(k & 1); ev("whole"); continue; }
        torn = true;
        size_t cut = copy.size();
        struct sr_stacktrace* st = parse_exact(type, copy, &msg, &used, F(4) == 3);
        ev("cut at %zu: %s", cut, st ? "partial" : "refused");
        if (!st) continue;
        probe("torn_text_accepted");
        MTrace got = trace_of(st);
        check_torn(r, cut, got);
        LIB(sr_stacktrace_free(st));
    }
    if (torn || rounds > 1) nontrivial();
}
