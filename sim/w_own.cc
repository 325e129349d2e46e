// S13: several owners hold copies, lists and parts of the same crash data; each changes, cuts,
// normalizes, searches and releases what it owns in any order.
#include "model.h"
extern "C" {
#include "normalize.h"
#include "utils.h"
#include "distance.h"
#include "internal_utils.h"
}
using namespace sim;

namespace {
enum Kind { TRACE, THREADS, FRAMES, LIBS, DIST };
const char* kind_name[] = {"trace", "threads", "frames", "libs", "distances"};
struct Node {
    Kind kind; int type = 0; void* p = nullptr;
    MTrace trace;                       // TRACE
    std::vector<MThread> th;            // THREADS
    std::vector<MFrame> fr;             // FRAMES
    std::vector<MObj> libs;             // LIBS
    std::vector<float> dist; int m = 0, n = 0;
};
struct Owner { std::vector<std::unique_ptr<Node>> held; uint32_t steps; };
std::vector<Owner> owners;

bool multi(int type) { return type == SR_REPORT_CORE || type == SR_REPORT_GDB || type == SR_REPORT_JAVA; }
std::vector<MFrame> frames_list(struct sr_frame* f) { std::vector<MFrame> v; for (; f; f = sr_frame_next(f)) v.push_back(frame_of(f)); return v; }
std::vector<MThread> threads_list(struct sr_thread* t) { std::vector<MThread> v; for (; t; t = sr_thread_next(t)) v.push_back(thread_of(t)); return v; }
std::vector<MObj> libs_list(struct sr_gdb_sharedlib* l) {
    std::vector<MObj> v;
    for (; l; l = l->next) { MObj o; o.n["from"] = l->from; o.n["to"] = l->to; o.n["symbols"] = (uint64_t)(int64_t)l->symbols; if (l->soname) o.s["soname"] = l->soname; v.push_back(o); }
    return v;
}
template <class T> Str diff_list(const std::vector<T>& a, const std::vector<T>& b, const char* what) {
    if (a.size() != b.size()) return Str(what) + ": " + std::to_string(a.size()) + " expected, " + std::to_string(b.size()) + " found";
    for (size_t i = 0; i < a.size(); i++) { Str d = diff(a[i], b[i], Str(what) + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
    return "";
}
Str node_diff(Node& x) {
    switch (x.kind) {
    case TRACE: return diff(x.trace, trace_of((struct sr_stacktrace*)x.p));
    case THREADS: return diff_list(x.th, threads_list((struct sr_thread*)x.p), "threads");
    case FRAMES: return diff_list(x.fr, frames_list((struct sr_frame*)x.p), "frames");
    case LIBS: return diff_list(x.libs, libs_list((struct sr_gdb_sharedlib*)x.p), "libs");
    case DIST: {
        auto d = (struct sr_distances*)x.p;
        if (d->m != x.m || d->n != x.n) return "dimensions changed";
        size_t k = 0;
        for (int i = 0; i < x.m; i++) for (int j = i + 1; j < x.n; j++, k++) { float f = sr_distances_get_distance(d, i, j); if (memcmp(&f, &x.dist[k], 4)) return "entry changed"; }
        return "";
    }
    }
    return "";
}
void check_all(const char* op, Node* subject) {
    for (size_t o = 0; o < owners.size(); o++) for (size_t i = 0; i < owners[o].held.size(); i++) {
        Node& x = *owners[o].held[i];
        Str d = node_diff(x);
        if (d.empty()) continue;
        if (&x == subject) violation(Str("result:") + op, "%s on a %s %s: %s", op, type_name(x.type), kind_name[x.kind], d.c_str());
        violation(Str("disturbed:") + op, "%s by one owner changed the %s %s of another (owner %zu): %s", op, type_name(x.type), kind_name[x.kind], o, d.c_str());
    }
}
void release(Node& x) {
    switch (x.kind) {
    case TRACE: LIB(sr_stacktrace_free((struct sr_stacktrace*)x.p)); break;
    case THREADS: for (auto t = (struct sr_thread*)x.p; t;) { auto nx = sr_thread_next(t); LIB(sr_thread_free(t)); t = nx; } break;
    case FRAMES:
        if (x.type == SR_REPORT_JAVA && W(2)) { LIB(sr_java_frame_free_full((struct sr_java_frame*)x.p)); break; }
        for (auto f = (struct sr_frame*)x.p; f;) { auto nx = sr_frame_next(f); LIB(sr_frame_free(f)); f = nx; }
        break;
    case LIBS: for (auto l = (struct sr_gdb_sharedlib*)x.p; l;) { auto nx = l->next; LIB(sr_gdb_sharedlib_free(l)); l = nx; } break;
    case DIST: LIB(sr_distances_free((struct sr_distances*)x.p)); break;
    }
    x.p = nullptr;
}
struct sr_frame* frame_dup(int type, struct sr_frame* f, bool sib) {
    switch (type) {
#define D(T, n) case T: return (struct sr_frame*)LIB(sr_##n##_frame_dup((struct sr_##n##_frame*)f, sib));
    D(SR_REPORT_CORE, core) D(SR_REPORT_GDB, gdb) D(SR_REPORT_JAVA, java) D(SR_REPORT_KERNELOOPS, koops) D(SR_REPORT_PYTHON, python) D(SR_REPORT_RUBY, ruby) D(SR_REPORT_JAVASCRIPT, js)
#undef D
    }
    return nullptr;
}
struct sr_frame* frame_append(int type, struct sr_frame* a, struct sr_frame* b) {
    switch (type) {
#define D(T, n) case T: return (struct sr_frame*)LIB(sr_##n##_frame_append((struct sr_##n##_frame*)a, (struct sr_##n##_frame*)b));
    D(SR_REPORT_CORE, core) D(SR_REPORT_GDB, gdb) D(SR_REPORT_JAVA, java) D(SR_REPORT_KERNELOOPS, koops) D(SR_REPORT_PYTHON, python) D(SR_REPORT_RUBY, ruby) D(SR_REPORT_JAVASCRIPT, js)
#undef D
    }
    return nullptr;
}
int frames_cmp(int type, struct sr_frame* a, struct sr_frame* b) {
    switch (type) {
    case SR_REPORT_GDB: return LIB(sr_gdb_frame_cmp((struct sr_gdb_frame*)a, (struct sr_gdb_frame*)b, true));
    default: return LIB(sr_frame_cmp(a, b));
    }
}
// what a comparison of two frames looks at
struct Looked { std::vector<const char*> s, n; };
const Looked& looked(int type) {
    static const Looked none, core = {{"build_id", "function_name", "file_name", "fingerprint"}, {"build_id_offset"}},
        gdb = {{"function_name", "function_type", "source_file", "library_name"}, {"source_line", "number"}},
        java = {{"name", "class_path", "file_name"}, {"is_native", "file_line"}},
        koops = {{"function_name", "module_name", "from_function_name", "from_module_name", "special_stack"}, {"address", "reliable", "function_offset", "function_length", "from_address", "from_function_offset", "from_function_length"}},
        python = {{"function_name", "file_name", "line_contents"}, {"file_line", "special_function", "special_file"}},
        ruby = {{"function_name", "file_name"}, {"file_line", "special_function", "block_level", "rescue_level"}},
        js = {{"function_name", "file_name"}, {"file_line", "line_column"}};
    switch (type) {
    case SR_REPORT_CORE: return core; case SR_REPORT_GDB: return gdb; case SR_REPORT_JAVA: return java; case SR_REPORT_KERNELOOPS: return koops;
    case SR_REPORT_PYTHON: return python; case SR_REPORT_RUBY: return ruby; case SR_REPORT_JAVASCRIPT: return js;
    }
    return none;
}
const char* frames_differ(int type, const MFrame& a, const MFrame& b) {
    auto num = [](const MFrame& f, const char* k) { auto i = f.n.find(k); return i == f.n.end() ? (uint64_t)0 : (uint64_t)i->second; };
    auto str = [](const MFrame& f, const char* k) { auto i = f.s.find(k); return i == f.s.end() ? Str() : i->second; };
    if (type == SR_REPORT_GDB) {
        if (num(a, "signal_handler_called") != num(b, "signal_handler_called")) return "signal_handler_called";
        if (num(a, "signal_handler_called")) return nullptr;
    }
    if (type == SR_REPORT_JAVA) {
        if (num(a, "is_exception") != num(b, "is_exception")) return "is_exception";
        if (num(a, "is_exception")) return str(a, "name") != str(b, "name") ? "name" : nullptr;
    }
    for (auto k : looked(type).s) if (str(a, k) != str(b, k)) return k;
    for (auto k : looked(type).n) if (num(a, k) != num(b, k)) return k;
    return nullptr;
}
void judge_frames(const char* op, int type, struct sr_frame* a, const MFrame& ma, struct sr_frame* b, const MFrame& mb) {
    int r = frames_cmp(type, a, b), q = frames_cmp(type, b, a);
    if ((r == 0) != (q == 0)) violation(Str("asymmetric:") + op, "comparing two %s frames one way says %d, the other way %d", type_name(type), r, q);
    const char* d = frames_differ(type, ma, mb);
    if (d && !r) violation(Str("cmp-equal:") + op, "two %s frames that differ in %s compare as equal", type_name(type), d);
    if (!d && r && diff(ma, mb, "frame").empty()) violation(Str("cmp:") + op, "two %s frames with the same content compare as different (%d)", type_name(type), r);
    if (d) probe("compared_different"); else probe("compared_same");
    if (type == SR_REPORT_GDB) {
        MFrame x = ma, y = mb;
        x.n["number"] = y.n["number"];
        d = frames_differ(type, x, y);
        r = LIB(sr_gdb_frame_cmp((struct sr_gdb_frame*)a, (struct sr_gdb_frame*)b, false));
        if (d && !r) violation(Str("cmp-equal:") + op, "two gdb frames that differ in %s compare as equal without their numbers", d);
        if (!d && r && diff(x, y, "frame").empty()) violation(Str("cmp:") + op, "two gdb frames that differ only in the number compare as different (%d) without their numbers", r);
    }
}
void judge_threads(const char* op, int type, struct sr_thread* a, const MThread& ma, struct sr_thread* b, const MThread& mb) {
    int r = LIB(sr_thread_cmp(a, b)), q = LIB(sr_thread_cmp(b, a));
    if ((r == 0) != (q == 0)) violation(Str("asymmetric:") + op, "comparing two %s threads one way says %d, the other way %d", type_name(type), r, q);
    Str d;
    if (ma.f.size() != mb.f.size()) d = "the number of frames";
    for (size_t i = 0; d.empty() && i < ma.f.size(); i++) if (auto k = frames_differ(type, ma.f[i], mb.f[i])) d = Str(k) + " of frame " + std::to_string(i);
    if (!d.empty() && !r) violation(Str("cmp-equal:") + op, "two %s threads that differ in %s compare as equal", type_name(type), d.c_str());
}
struct sr_thread* thread_dup1(int type, struct sr_thread* t, bool sib) {
    switch (type) {
#define D(T, n) case T: return (struct sr_thread*)LIB(sr_##n##_thread_dup((struct sr_##n##_thread*)t, sib));
    D(SR_REPORT_CORE, core) D(SR_REPORT_GDB, gdb) D(SR_REPORT_JAVA, java)
#undef D
    }
    return nullptr;
}
struct sr_stacktrace* trace_dup(int type, struct sr_stacktrace* s) {
    switch (type) {
#define D(T, n) case T: return (struct sr_stacktrace*)LIB(sr_##n##_stacktrace_dup((struct sr_##n##_stacktrace*)s));
    D(SR_REPORT_CORE, core) D(SR_REPORT_GDB, gdb) D(SR_REPORT_JAVA, java) D(SR_REPORT_KERNELOOPS, koops) D(SR_REPORT_PYTHON, python) D(SR_REPORT_RUBY, ruby) D(SR_REPORT_JAVASCRIPT, js)
#undef D
    }
    return nullptr;
}
Node* add(Owner& o, Kind k, int type, void* p) {
    auto n = std::make_unique<Node>();
    n->kind = k; n->type = type; n->p = p;
    Node* r = n.get();
    o.held.push_back(std::move(n));
    return r;
}
Node* add_trace(Owner& o, struct sr_stacktrace* s, const MTrace& m) { Node* n = add(o, TRACE, m.type, s); n->trace = m; return n; }

// -------------------------------------------------------- operations on one thread, wherever it is held
// what: pointer to the thread, its model, the node it belongs to
void normalize_model(const char* op, struct sr_thread* t, MThread& m, const std::map<void*, MFrame>& before, bool may_rename) {
    // every remaining frame was there before, in the same order, with nothing but names and paths unified
    auto left = before;
    std::vector<MFrame> now;
    size_t pos = 0;
    std::vector<void*> order;
    for (struct sr_frame* f = sr_thread_frames(t); f; f = sr_frame_next(f)) {
        auto i = left.find(f);
        if (i == left.end()) violation(Str("foreign-frame:") + op, "%s left a frame in the %s thread that was not in it before, or left it twice", op, type_name(t->type));
        MFrame a = i->second, b = frame_of(f);
        left.erase(i);
        now.push_back(b);
        if (may_rename) for (auto k : {"function_name", "file_name", "source_file", "library_name"}) {
            if (a.s.count(k) && !b.s.count(k)) violation(Str("lost-field:") + op, "%s removed the %s '%s' of a frame it kept", op, k, show(a.s[k]).c_str());
            if (!a.s.count(k) && b.s.count(k) && strcmp(k, "library_name")) violation(Str("new-field:") + op, "%s invented a %s", op, k);
            a.s.erase(k); b.s.erase(k);
        }
        Str d = diff(a, b, "frame");
        if (!d.empty()) violation(Str("changed-frame:") + op, "%s: %s", op, d.c_str());
        // order: the model frames between must have been removed
        while (pos < m.f.size() && order.size() <= now.size()) { pos++; break; }
    }
    m.f = now;
}
std::map<void*, MFrame> snapshot(struct sr_thread* t, std::vector<void*>* order) {
    std::map<void*, MFrame> r;
    for (struct sr_frame* f = sr_thread_frames(t); f; f = sr_frame_next(f)) { r[f] = frame_of(f); order->push_back(f); }
    return r;
}
void in_order(const char* op, struct sr_thread* t, const std::vector<void*>& order) {
    size_t k = 0;
    for (struct sr_frame* f = sr_thread_frames(t); f; f = sr_frame_next(f)) {
        while (k < order.size() && order[k] != f) k++;
        if (k++ >= order.size()) violation(Str("order:") + op, "%s changed the order of the remaining frames", op);
    }
}
struct sr_frame* frame_at(struct sr_thread* t, size_t i) { struct sr_frame* f = sr_thread_frames(t); while (f && i--) f = sr_frame_next(f); return f; }
struct sr_frame* alien_frame(int type, Node* not_this) {
    std::vector<struct sr_frame*> c;
    for (auto& o : owners) for (auto& h : o.held) {
        if (h.get() == not_this || h->type != type) continue;
        if (h->kind == FRAMES && h->p) c.push_back((struct sr_frame*)h->p);
        if (h->kind == THREADS && h->p && sr_thread_frames((struct sr_thread*)h->p)) c.push_back(sr_thread_frames((struct sr_thread*)h->p));
        if (h->kind == TRACE) { auto t = sr_stacktrace_threads((struct sr_stacktrace*)h->p); if (t && sr_thread_frames(t)) c.push_back(sr_thread_frames(t)); }
    }
    return c.empty() ? nullptr : c[W(c.size())];
}
const char* op_name = "";
bool thread_op(Owner& o, Node& nd, struct sr_thread* t, MThread& m) {
    int type = nd.type;
    size_t n = m.f.size();
    switch (W(12)) {
    case 0: { // remove one frame
        op_name = "remove_frame";
        if (!n) return false;
        size_t i = W(n);
        struct sr_frame* f = frame_at(t, i);
        bool ok;
        if (type == SR_REPORT_GDB && W(2)) ok = LIB(sr_gdb_thread_remove_frame((struct sr_gdb_thread*)t, (struct sr_gdb_frame*)f));
        else if (type == SR_REPORT_JAVA && W(2)) ok = LIB(sr_java_thread_remove_frame((struct sr_java_thread*)t, (struct sr_java_frame*)f));
        else if (type == SR_REPORT_KERNELOOPS && W(2)) ok = LIB(sr_koops_stacktrace_remove_frame((struct sr_koops_stacktrace*)t, (struct sr_koops_frame*)f));
        else ok = LIB(sr_thread_remove_frame(t, f));
        if (!ok) violation("refused:remove_frame", "removing frame %zu of %zu of a %s thread failed", i, n, type_name(type));
        m.f.erase(m.f.begin() + i);
        return true;
    }
    case 1: { // remove everything above a frame
        op_name = "remove_frames_above";
        if (!n) return false;
        size_t i = W(n);
        struct sr_frame* f = frame_at(t, i);
        bool ok;
        if (type == SR_REPORT_GDB && W(2)) ok = LIB(sr_gdb_thread_remove_frames_above((struct sr_gdb_thread*)t, (struct sr_gdb_frame*)f));
        else if (type == SR_REPORT_JAVA && W(2)) ok = LIB(sr_java_thread_remove_frames_above((struct sr_java_thread*)t, (struct sr_java_frame*)f));
        else ok = LIB(sr_thread_remove_frames_above(t, f));
        if (!ok) violation("refused:remove_frames_above", "removing what is above frame %zu of %zu of a %s thread failed", i, n, type_name(type));
        m.f.erase(m.f.begin(), m.f.begin() + i);
        return true;
    }
    case 2: { // a frame that is not in this thread
        op_name = "remove_absent";
        struct sr_frame* f = alien_frame(type, &nd);
        if (!f) return false;
        probe("absent_frame");
        uint32_t k = W(2);
        bool ok = k ? LIB(sr_thread_remove_frame(t, f)) : LIB(sr_thread_remove_frames_above(t, f));
        if (ok) violation("accepted:remove_absent", "removing a frame that belongs to another %s thread reported success", type_name(type));
        if (type == SR_REPORT_GDB && (k ? LIB(sr_gdb_thread_remove_frame((struct sr_gdb_thread*)t, (struct sr_gdb_frame*)f)) : LIB(sr_gdb_thread_remove_frames_above((struct sr_gdb_thread*)t, (struct sr_gdb_frame*)f)))) violation("accepted:remove_absent", "gdb");
        if (type == SR_REPORT_JAVA && (k ? LIB(sr_java_thread_remove_frame((struct sr_java_thread*)t, (struct sr_java_frame*)f)) : LIB(sr_java_thread_remove_frames_above((struct sr_java_thread*)t, (struct sr_java_frame*)f)))) violation("accepted:remove_absent", "java");
        return true;
    }
    case 3: { // limit the depth
        op_name = "remove_frames_below_n";
        uint32_t k = W(n + 3);
        if (type == SR_REPORT_GDB) LIB(sr_gdb_thread_remove_frames_below_n((struct sr_gdb_thread*)t, k));
        else if (type == SR_REPORT_JAVA) LIB(sr_java_thread_remove_frames_below_n((struct sr_java_thread*)t, k));
        else return false;
        if (m.f.size() > k) m.f.resize(k);
        return true;
    }
    case 4: { // normalize
        op_name = "normalize";
        if (type == SR_REPORT_GDB && W(3) == 0) {
            // the combined copying operation
            op_name = "get_optimized";
            int maxf = W(4);
            struct sr_gdb_sharedlib* libs = nullptr;
            if (nd.kind == TRACE && W(2)) libs = ((struct sr_gdb_stacktrace*)nd.p)->libs;
            auto c = LIB(sr_gdb_thread_get_optimized((struct sr_gdb_thread*)t, libs, maxf));
            MThread cm = thread_of((struct sr_thread*)c);
            if (maxf && cm.f.size() > (size_t)maxf) violation("limit:get_optimized", "%zu frames instead of at most %d", cm.f.size(), maxf);
            for (auto& f : cm.f) if (!f.s.count("function_name") || f.s["function_name"] == "main") violation("kept:get_optimized", "a frame without a name, or main, was kept");
            Node* x = add(o, THREADS, type, c);
            x->th.push_back(cm);
            return true;
        }
        std::vector<void*> order;
        auto before = snapshot(t, &order);
        // the same on a copy, which must end up the same
        struct sr_thread* copy = W(2) ? LIB(sr_thread_dup(t)) : nullptr;
        LIB(sr_thread_normalize(t));
        in_order("normalize", t, order);
        normalize_model("normalize", t, m, before, true);
        if (copy) {
            LIB(sr_thread_normalize(copy));
            MThread a = thread_of(t), b = thread_of(copy);
            Str d = diff(a, b, "thread");
            if (!d.empty()) violation("copy-differs:normalize", "normalizing a copy and the original gives different results: %s", d.c_str());
            LIB(sr_thread_free(copy));
        }
        return true;
    }
    case 5: { // take the frames away
        op_name = "take_frames";
        struct sr_frame* f = LIB(sr_thread_frames(t));
        if (!f) return false;
        LIB(sr_thread_set_frames(t, nullptr));
        Node* x = add(o, FRAMES, type, f);
        x->fr = m.f;
        m.f.clear();
        return true;
    }
    case 6: { // append a list somebody owns
        op_name = "append_frames";
        for (size_t i = 0; i < o.held.size(); i++) {
            Node* x = o.held[i].get();
            if (x->kind != FRAMES || x->type != type || x == &nd) continue;
            bool front = type == SR_REPORT_KERNELOOPS && x->fr.size() == 1 && W(2);
            struct sr_frame* nf;
            if (front) nf = (struct sr_frame*)LIB(sr_koops_frame_prepend((struct sr_koops_frame*)sr_thread_frames(t), (struct sr_koops_frame*)x->p));
            else nf = frame_append(type, sr_thread_frames(t), (struct sr_frame*)x->p);
            LIB(sr_thread_set_frames(t, nf));
            m.f.insert(front ? m.f.begin() : m.f.end(), x->fr.begin(), x->fr.end());
            o.held.erase(o.held.begin() + i);
            return true;
        }
        return false;
    }
    case 7: { // copy the thread
        op_name = "thread_dup";
        if (multi(type)) {
            bool sib = W(2);
            if (sib) {
                auto c = thread_dup1(type, t, true);
                Node* x = add(o, THREADS, type, c);
                // the model of the rest of the list
                for (struct sr_thread* s = t; s; s = sr_thread_next(s)) x->th.push_back(thread_of(s));
                if ((int)x->th.size() != (int)threads_list((struct sr_thread*)c).size()) violation("count:thread_dup", "the copy of a list of %zu threads has another length", x->th.size());
            } else {
                auto c = W(2) ? LIB(sr_thread_dup(t)) : thread_dup1(type, t, false);
                Node* x = add(o, THREADS, type, c);
                x->th.push_back(m);
                if (sr_thread_next(c)) violation("siblings:thread_dup", "the copy of a single %s thread brings other threads along", type_name(type));
                if (type == SR_REPORT_CORE && ((struct sr_core_thread*)c)->id != ((struct sr_core_thread*)t)->id) violation("result:thread_dup", "id differs");
                int r = LIB(sr_thread_cmp(t, c));
                if (r) violation("cmp:thread_dup", "a %s thread and its copy compare as different (%d)", type_name(type), r);
            }
        } else {
            auto c = LIB(sr_thread_dup(t));
            add_trace(o, (struct sr_stacktrace*)c, nd.trace);
        }
        return true;
    }
    case 8: { // copy frames
        op_name = "frame_dup";
        if (!n) return false;
        size_t i = W(n);
        bool sib = W(2);
        struct sr_frame *f = frame_at(t, i), *c = frame_dup(type, f, sib);
        Node* x = add(o, FRAMES, type, c);
        x->fr.assign(m.f.begin() + i, sib ? m.f.end() : m.f.begin() + i + 1);
        int r = frames_cmp(type, f, c);
        if (r) violation("cmp:frame_dup", "a %s frame and its copy compare as different (%d)", type_name(type), r);
        return true;
    }
    case 9: { // change a frame in place
        op_name = "edit";
        if (!n) return false;
        size_t i = W(n);
        struct sr_frame* f = frame_at(t, i);
        char** slot = nullptr; const char* key = "function_name";
        MFrame before = m.f[i];
        auto was = (struct sr_frame*)frame_dup(type, f, false);
        auto finish = [&] { judge_frames("edit", type, was, before, f, frame_of(f)); LIB(sr_frame_free(was)); return true; };
        if (W(3) == 2) {                     // a number
            std::vector<std::pair<const char*, void*>> c64, c32;
            switch (type) {
            case SR_REPORT_CORE: { auto x = (struct sr_core_frame*)f; c64 = {{"build_id_offset", &x->build_id_offset}}; break; }
            case SR_REPORT_GDB: { auto x = (struct sr_gdb_frame*)f; c32 = {{"source_line", &x->source_line}, {"number", &x->number}}; break; }
            case SR_REPORT_JAVA: { auto x = (struct sr_java_frame*)f; c32 = {{"file_line", &x->file_line}}; break; }
            case SR_REPORT_KERNELOOPS: { auto x = (struct sr_koops_frame*)f;
                c64 = {{"address", &x->address}, {"function_offset", &x->function_offset}, {"function_length", &x->function_length}, {"from_address", &x->from_address}, {"from_function_offset", &x->from_function_offset}, {"from_function_length", &x->from_function_length}}; break; }
            case SR_REPORT_PYTHON: { auto x = (struct sr_python_frame*)f; c32 = {{"file_line", &x->file_line}}; break; }
            case SR_REPORT_RUBY: { auto x = (struct sr_ruby_frame*)f; c32 = {{"file_line", &x->file_line}, {"block_level", &x->block_level}, {"rescue_level", &x->rescue_level}}; break; }
            default: { auto x = (struct sr_js_frame*)f; c32 = {{"file_line", &x->file_line}, {"line_column", &x->line_column}}; break; }
            }
            uint64_t add = W(3) == 0 ? 1ULL << 32 : W(2) ? 1ULL << W(64) : 1 + W(3);
            if (!c64.empty()) { auto c = c64[W(c64.size())]; *(uint64_t*)c.second += add; m.f[i].n[c.first] = *(uint64_t*)c.second; }
            else { auto c = c32[W(c32.size())]; *(uint32_t*)c.second += (uint32_t)add; m.f[i].n[c.first] = *(uint32_t*)c.second; }
            return finish();
        }
        switch (type) {
        case SR_REPORT_CORE: slot = W(2) ? (key = "build_id", &((struct sr_core_frame*)f)->build_id) : &((struct sr_core_frame*)f)->function_name; break;
        case SR_REPORT_GDB: slot = W(2) ? (key = "library_name", &((struct sr_gdb_frame*)f)->library_name) : &((struct sr_gdb_frame*)f)->function_name; break;
        case SR_REPORT_JAVA: slot = W(2) ? (key = "message", &((struct sr_java_frame*)f)->message) : (key = "name", &((struct sr_java_frame*)f)->name); break;
        case SR_REPORT_KERNELOOPS: slot = W(2) ? (key = "from_module_name", &((struct sr_koops_frame*)f)->from_module_name) : &((struct sr_koops_frame*)f)->function_name; break;
        case SR_REPORT_PYTHON: slot = W(2) ? (key = "line_contents", &((struct sr_python_frame*)f)->line_contents) : &((struct sr_python_frame*)f)->function_name; break;
        case SR_REPORT_RUBY: slot = W(2) ? (key = "file_name", &((struct sr_ruby_frame*)f)->file_name) : &((struct sr_ruby_frame*)f)->function_name; break;
        default: slot = W(2) ? (key = "file_name", &((struct sr_js_frame*)f)->file_name) : &((struct sr_js_frame*)f)->function_name; break;
        }
        Str v = gen_ident();
        if (*slot && W(2)) { // in place, the bytes themselves
            for (char* c = *slot; *c; c++) *c = 'q';
            m.f[i].s[key] = *slot;
        } else { LIB(g_free(*slot)); *slot = LIB(g_strdup(v.c_str())); m.f[i].s[key] = v; }
        return finish();
    }
    case 10: { // computations that leave the data alone
        op_name = "read";
        if (LIB(sr_thread_frame_count(t)) != (int)n) violation("count:read", "a thread of %zu frames counts another number", n);
        if (W(2)) {                          // against threads and frames of anybody
            op_name = "compare";
            std::vector<std::pair<struct sr_thread*, MThread*>> c;
            std::vector<struct sr_frame*> other;
            for (auto& ow : owners) for (auto& h : ow.held) {
                struct sr_thread* u = h->kind == THREADS ? (struct sr_thread*)h->p : h->kind == TRACE ? sr_stacktrace_threads((struct sr_stacktrace*)h->p) : nullptr;
                if (!u) continue;
                if (h->type != type) { if (auto g = sr_thread_frames(u)) other.push_back(g); continue; }
                for (auto& um : h->kind == THREADS ? h->th : h->trace.t) { c.push_back({u, &um}); u = multi(type) ? sr_thread_next(u) : nullptr; if (!u) break; }
            }
            auto& u = c[W(c.size())];
            judge_threads("compare", type, t, m, u.first, *u.second);
            if (n && !u.second->f.empty()) { size_t i = W(n), k = W(2) ? W(u.second->f.size()) : std::min(i, u.second->f.size() - 1); judge_frames("compare", type, frame_at(t, i), m.f[i], frame_at(u.first, k), u.second->f[k]); }
            if (n && !other.empty()) { auto f = frame_at(t, W(n)); auto g = other[W(other.size())]; if (!LIB(sr_frame_cmp(f, g)) || !LIB(sr_frame_cmp(g, f))) violation("cmp-equal:compare", "frames of different types compare as equal"); }
            return true;
        }
        static const int fl[] = {SR_DUPHASH_NORMAL, SR_DUPHASH_NOHASH, SR_DUPHASH_NONORMALIZE, SR_DUPHASH_NONORMALIZE | SR_DUPHASH_NOHASH, SR_DUPHASH_KOOPS_COMPAT};
        int nf = W(6);
        auto flag = (enum sr_duphash_flags)fl[W(5)];
        char* a = LIB(sr_thread_get_duphash(t, nf, W(2) ? nullptr : (char*)"prefix", flag));
        LIB(g_free(a));
        if (type == SR_REPORT_GDB) {
            int ok = 0, all = 0;
            LIB(sr_gdb_thread_quality_counts((struct sr_gdb_thread*)t, &ok, &all));
            if (all != (int)n || ok > all) violation("count:quality", "%d of %d frames of a thread with %zu", ok, all, n);
            g_free(LIB(sr_gdb_thread_format_funs((struct sr_gdb_thread*)t)));
        }
        if (type == SR_REPORT_JAVA) {
            int ok = 0, all = 0;
            LIB(sr_java_thread_quality_counts((struct sr_java_thread*)t, &ok, &all));
            g_free(LIB(sr_java_thread_format_funs((struct sr_java_thread*)t)));
        }
        return true;
    }
    default: { // shared views: frames of this thread against those of another owner
        op_name = "pair_unknown";
        if (type != SR_REPORT_GDB) return false;
        struct sr_thread* u = nullptr; MThread* um = nullptr; Node* un = nullptr;
        for (auto& ow : owners) for (auto& h : ow.held) if (h.get() != &nd && h->type == type && !u) {
            if (h->kind == THREADS && h->p) { u = (struct sr_thread*)h->p; um = &h->th[0]; un = h.get(); }
            else if (h->kind == TRACE && !h->trace.t.empty()) { u = sr_stacktrace_threads((struct sr_stacktrace*)h->p); um = &h->trace.t[0]; un = h.get(); }
        }
        (void)un;
        if (!u) return false;
        std::vector<void*> o1, o2;
        auto b1 = snapshot(t, &o1), b2 = snapshot(u, &o2);
        LIB(sr_normalize_gdb_paired_unknown_function_names((struct sr_gdb_thread*)t, (struct sr_gdb_thread*)u));
        size_t c1 = m.f.size(), c2 = um->f.size();
        normalize_model("pair_unknown", t, m, b1, true);
        normalize_model("pair_unknown", u, *um, b2, true);
        if (m.f.size() != c1 || um->f.size() != c2) violation("lost-frame:pair_unknown", "pairing unknown functions removed frames");
        return true;
    }
    }
}
// -------------------------------------------------------- operations on a whole trace
bool trace_op(Owner& o, Node& nd) {
    auto s = (struct sr_stacktrace*)nd.p;
    int type = nd.type;
    auto gdb = (struct sr_gdb_stacktrace*)s;
    switch (W(10)) {
    case 0: { // copy
        op_name = "stacktrace_dup";
        auto c = trace_dup(type, s);
        if (c == s) violation("same:stacktrace_dup", "the copy is the original");
        Node* x = add_trace(o, c, nd.trace);
        (void)x;
        // the crash thread of the copy must be its own
        auto t1 = LIB(sr_stacktrace_find_crash_thread(s)), t2 = LIB(sr_stacktrace_find_crash_thread(c));
        int i1 = -1, i2 = -1, k = 0;
        for (auto t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), k++) if (t == t1) i1 = k;
        k = 0;
        for (auto t = sr_stacktrace_threads(c); t; t = sr_thread_next(t), k++) if (t == t2) i2 = k;
        if (!multi(type)) { if ((t1 != nullptr) != (t2 != nullptr)) violation("crash-thread:stacktrace_dup", "only one of original and copy has a crash thread"); }
        else if (i1 != i2 || (t2 && i2 < 0)) violation("crash-thread:stacktrace_dup", "crash thread %d of the %s original, %d of the copy", i1, type_name(type), i2);
        return true;
    }
    case 1: { // keep one thread
        op_name = "keep_one_thread";
        if (type != SR_REPORT_GDB || nd.trace.t.empty()) return false;
        size_t i = W(nd.trace.t.size());
        auto t = gdb->threads;
        for (size_t k = 0; k < i; k++) t = t->next;
        LIB(sr_gdb_stacktrace_remove_threads_except_one(gdb, t));
        MThread keep = nd.trace.t[i];
        nd.trace.t.assign(1, keep);
        return true;
    }
    case 2: { // limit the depth of every thread
        op_name = "limit_frame_depth";
        if (type != SR_REPORT_GDB) return false;
        uint32_t d = 1 + W(6);
        LIB(sr_gdb_stacktrace_limit_frame_depth(gdb, d));
        for (auto& t : nd.trace.t) if (t.f.size() > d) t.f.resize(d);
        return true;
    }
    case 3: { // normalize everything
        op_name = "normalize_trace";
        if (type != SR_REPORT_GDB && type != SR_REPORT_KERNELOOPS) return false;
        std::vector<std::map<void*, MFrame>> b;
        std::vector<std::vector<void*>> ord;
        for (auto t = sr_stacktrace_threads(s); t; t = multi(type) ? sr_thread_next(t) : nullptr) { ord.emplace_back(); b.push_back(snapshot(t, &ord.back())); }
        if (type == SR_REPORT_GDB) LIB(sr_normalize_gdb_stacktrace(gdb)); else LIB(sr_normalize_koops_stacktrace((struct sr_koops_stacktrace*)s));
        size_t i = 0;
        for (auto t = sr_stacktrace_threads(s); t; t = multi(type) ? sr_thread_next(t) : nullptr, i++) {
            if (i >= b.size()) violation("threads:normalize_trace", "more threads than before");
            in_order("normalize_trace", t, ord[i]);
            normalize_model("normalize_trace", t, nd.trace.t[i], b[i], true);
        }
        if (i != b.size()) violation("threads:normalize_trace", "%zu of %zu threads left", i, b.size());
        if (type == SR_REPORT_GDB) { // the crash frame and the remembered crash thread may change
            MTrace now = trace_of(s);
            nd.trace.n["crash_tid"] = now.n["crash_tid"];
            if (nd.trace.crash_frame) nd.trace.crash_frame = now.crash_frame;
            bool known = nd.trace.n["crash_tid"] == (uint32_t)-1 || true;
            (void)known;
        }
        return true;
    }
    case 4: { // take the threads away
        op_name = "take_threads";
        if (!multi(type) || nd.trace.t.empty()) return false;
        auto t = LIB(sr_stacktrace_threads(s));
        LIB(sr_stacktrace_set_threads(s, nullptr));
        if (type == SR_REPORT_CORE) { ((struct sr_core_stacktrace*)s)->crash_thread = nullptr; nd.trace.crash = -1; }
        Node* x = add(o, THREADS, type, t);
        x->th = nd.trace.t;
        nd.trace.t.clear();
        return true;
    }
    case 5: { // give it threads
        op_name = "give_threads";
        if (!multi(type)) return false;
        for (size_t i = 0; i < o.held.size(); i++) {
            Node* x = o.held[i].get();
            if (x->kind != THREADS || x->type != type) continue;
            auto last = sr_stacktrace_threads(s);
            if (!last) LIB(sr_stacktrace_set_threads(s, (struct sr_thread*)x->p));
            else { while (sr_thread_next(last)) last = sr_thread_next(last); LIB(sr_thread_set_next(last, (struct sr_thread*)x->p)); }
            nd.trace.t.insert(nd.trace.t.end(), x->th.begin(), x->th.end());
            o.held.erase(o.held.begin() + i);
            return true;
        }
        return false;
    }
    case 6: { // serialise, hash, describe
        op_name = "describe";
        uint32_t what = W(5);
        if (what == 0 && type != SR_REPORT_GDB) LIB(g_free(sr_stacktrace_to_json(s)));
        else if (what == 1) { static const int fl[] = {SR_BTHASH_NORMAL, SR_BTHASH_NOHASH}; LIB(g_free(sr_stacktrace_get_bthash(s, (enum sr_bthash_flags)fl[W(2)]))); }
        else if (what == 2) LIB(g_free(sr_stacktrace_to_short_text(s, W(5))));
        else if (what == 3 && type != SR_REPORT_GDB) LIB(g_free(sr_stacktrace_get_reason(s)));
        else if (type == SR_REPORT_GDB) {
            if (W(2)) LIB(g_free(sr_gdb_stacktrace_to_text(gdb, W(2))));
            else {
                auto f = LIB(sr_gdb_stacktrace_get_crash_frame(gdb));
                if (f) { Node* x = add(o, FRAMES, type, f); x->fr.push_back(frame_of((struct sr_frame*)f)); if (f->next) violation("siblings:get_crash_frame", "the crash frame brings other frames along"); }
            }
        }
        return true;
    }
    case 7: { // library names
        op_name = "set_libnames";
        if (type != SR_REPORT_GDB) return false;
        std::vector<std::vector<void*>> ord;
        LIB(sr_gdb_stacktrace_set_libnames(gdb));
        MTrace now = trace_of(s);
        if (now.t.size() != nd.trace.t.size()) violation("threads:set_libnames", "number of threads changed");
        for (size_t i = 0; i < now.t.size(); i++) for (size_t k = 0; k < now.t[i].f.size() && k < nd.trace.t[i].f.size(); k++) {
            auto& a = nd.trace.t[i].f[k]; auto& b = now.t[i].f[k];
            Str want;
            // the library whose range holds the address
            const MObj* hit = nullptr;
            for (auto& l : nd.trace.libs) if (!hit && a.n["address"] != NOADDR && l.n.at("from") <= a.n["address"] && a.n["address"] <= l.n.at("to")) hit = &l;
            if (hit && hit->s.count("soname") && !b.s.count("library_name")) violation("result:set_libnames", "no library name for a frame inside %s", show(hit->s.at("soname")).c_str());
            if (b.s.count("library_name")) a.s["library_name"] = b.s["library_name"]; else a.s.erase("library_name");
        }
        return true;
    }
    case 8: { // libraries of a gdb trace
        op_name = "copy_libs";
        if (type != SR_REPORT_GDB || !gdb->libs) return false;
        bool sib = W(2);
        auto c = LIB(sr_gdb_sharedlib_dup(gdb->libs, sib));
        Node* x = add(o, LIBS, type, c);
        x->libs.assign(nd.trace.libs.begin(), sib ? nd.trace.libs.end() : nd.trace.libs.begin() + 1);
        return true;
    }
    default: { // compare a trace's threads with each other
        op_name = "compare";
        auto t = sr_stacktrace_threads(s);
        if (!multi(type) || !t || !sr_thread_next(t)) return false;
        judge_threads("compare", type, t, nd.trace.t[0], sr_thread_next(t), nd.trace.t[1]);
        return true;
    }
    }
}
bool list_op(Owner& o, Node& nd) {
    int type = nd.type;
    if (nd.kind == DIST) {
        op_name = "distances_dup";
        auto d = (struct sr_distances*)nd.p;
        if (W(2)) { auto c = LIB(sr_distances_dup(d)); Node* x = add(o, DIST, 0, c); x->dist = nd.dist; x->m = nd.m; x->n = nd.n; }
        else {
            op_name = "distances_set";
            int i = W(nd.m), j = i + 1 + W(nd.n - i - 1);
            if (j >= nd.n) return false;
            float v = W(1000) / 1000.0f;
            LIB(sr_distances_set_distance(d, i, j, v));
            size_t k = 0;
            for (int a = 0; a < nd.m; a++) for (int b = a + 1; b < nd.n; b++, k++) if (a == i && b == j) nd.dist[k] = v;
        }
        return true;
    }
    if (nd.kind == LIBS) {
        if (W(2)) {
            op_name = "libs_append";
            for (size_t i = 0; i < o.held.size(); i++) {
                Node* x = o.held[i].get();
                if (x->kind != LIBS || x == &nd) continue;
                nd.p = LIB(sr_gdb_sharedlib_append((struct sr_gdb_sharedlib*)nd.p, (struct sr_gdb_sharedlib*)x->p));
                nd.libs.insert(nd.libs.end(), x->libs.begin(), x->libs.end());
                o.held.erase(o.held.begin() + i);
                return true;
            }
            return false;
        }
        op_name = "libs_find";
        if (LIB(sr_gdb_sharedlib_count((struct sr_gdb_sharedlib*)nd.p)) != (int)nd.libs.size()) violation("count:libs", "a list of %zu libraries counts another number", nd.libs.size());
        uint64_t a = W(2) ? gen_u64() : nd.libs[W(nd.libs.size())].n["from"] + W(3);
        auto f = LIB(sr_gdb_sharedlib_find_address((struct sr_gdb_sharedlib*)nd.p, a));
        int at = -1, k = 0, want = -1;
        for (auto l = (struct sr_gdb_sharedlib*)nd.p; l; l = l->next, k++) if (l == f) at = k;
        for (size_t i = nd.libs.size(); i-- > 0;) if (nd.libs[i].n["from"] <= a && a <= nd.libs[i].n["to"]) want = i;
        if (f && at < 0) violation("foreign:libs_find", "searching a library list returned an element of another list");
        if (at != want) violation("result:libs_find", "searching address %lx returned entry %d, expected %d", (unsigned long)a, at, want);
        return true;
    }
    if (nd.kind == THREADS) {
        if (W(3) == 0) {
            op_name = "threads_append";
            for (size_t i = 0; i < o.held.size(); i++) {
                Node* x = o.held[i].get();
                if (x->kind != THREADS || x == &nd || x->type != type) continue;
                switch (type) {
                case SR_REPORT_CORE: nd.p = LIB(sr_core_thread_append((struct sr_core_thread*)nd.p, (struct sr_core_thread*)x->p)); break;
                case SR_REPORT_GDB: nd.p = LIB(sr_gdb_thread_append((struct sr_gdb_thread*)nd.p, (struct sr_gdb_thread*)x->p)); break;
                default: nd.p = LIB(sr_java_thread_append((struct sr_java_thread*)nd.p, (struct sr_java_thread*)x->p)); break;
                }
                nd.th.insert(nd.th.end(), x->th.begin(), x->th.end());
                o.held.erase(o.held.begin() + i);
                return true;
            }
            return false;
        }
        size_t i = W(nd.th.size());
        auto t = (struct sr_thread*)nd.p;
        for (size_t k = 0; k < i; k++) t = sr_thread_next(t);
        return thread_op(o, nd, t, nd.th[i]);
    }
    // FRAMES
    if (W(2)) {
        op_name = "frames_dup";
        size_t i = W(nd.fr.size());
        auto f = (struct sr_frame*)nd.p;
        for (size_t k = 0; k < i; k++) f = sr_frame_next(f);
        bool sib = W(2);
        auto c = frame_dup(type, f, sib);
        Node* x = add(o, FRAMES, type, c);
        x->fr.assign(nd.fr.begin() + i, sib ? nd.fr.end() : nd.fr.begin() + i + 1);
        return true;
    }
    op_name = "frames_append";
    for (size_t i = 0; i < o.held.size(); i++) {
        Node* x = o.held[i].get();
        if (x->kind != FRAMES || x == &nd || x->type != type) continue;
        if (type == SR_REPORT_KERNELOOPS && x->fr.size() == 1 && W(2)) {
            op_name = "frames_prepend";
            nd.p = LIB(sr_koops_frame_prepend((struct sr_koops_frame*)nd.p, (struct sr_koops_frame*)x->p));
            nd.fr.insert(nd.fr.begin(), x->fr[0]);
        } else {
            nd.p = frame_append(type, (struct sr_frame*)nd.p, (struct sr_frame*)x->p);
            nd.fr.insert(nd.fr.end(), x->fr.begin(), x->fr.end());
        }
        o.held.erase(o.held.begin() + i);
        return true;
    }
    if (type == SR_REPORT_JAVA) {
        op_name = "frame_get_last";
        auto l = LIB(sr_java_frame_get_last((struct sr_java_frame*)nd.p));
        if (!l || l->next) violation("result:get_last", "not the last frame");
        return true;
    }
    return false;
}
} // namespace

WORLD(own) {
    owners.clear();
    uint32_t n = 1 + W(3);
    plan_faults({F_OWNER_CRASH, F_PREEMPT}, 30);
    owners.resize(n);
    int type = gen_type(true);
    for (uint32_t i = 0; i < n; i++) {
        int ty = W(4) ? type : gen_type(true);
        MTrace m = gen_trace(ty);
        if (i && W(2)) { // a copy of somebody else's trace from the start
            Node* src = owners[W(i)].held[0].get();
            add_trace(owners[i], trace_dup(src->type, (struct sr_stacktrace*)src->p), src->trace);
        } else add_trace(owners[i], LIB(trace_to(m)), m);
        owners[i].steps = 2 + W(12);
        if (W(12) == 11) {
            int dm = 1 + W(4), dn = dm + 1 + W(3);
            auto d = LIB(sr_distances_new(dm, dn));
            Node* x = add(owners[i], DIST, 0, d);
            x->m = d->m; x->n = d->n;
            for (int a = 0; a < x->m; a++) for (int b = a + 1; b < x->n; b++) { float v = W(100) / 100.0f; LIB(sr_distances_set_distance(d, a, b, v)); x->dist.push_back(v); }
        }
    }
    check_all("creation", nullptr);
    size_t cur = 0;
    uint32_t ops = 0;
    while (true) {
        // which owner runs next is the schedule's choice
        std::vector<size_t> alive;
        for (size_t i = 0; i < n; i++) if (owners[i].steps && !owners[i].held.empty()) alive.push_back(i);
        if (alive.empty()) break;
        bool here = false;
        for (size_t i : alive) if (i == cur) here = true;
        if (!here) cur = alive[0];
        if (alive.size() > 1 && fault(F_PREEMPT)) cur = alive[F(alive.size())];
        Owner& o = owners[cur];
        if (fault(F_OWNER_CRASH)) { // gives up half way and releases everything, last things first
            ev("owner %zu gives up with %zu objects", cur, o.held.size());
            while (!o.held.empty()) {
                size_t i = F(2) ? o.held.size() - 1 : F(o.held.size());
                release(*o.held[i]);
                o.held.erase(o.held.begin() + i);
                check_all("release", nullptr);
            }
            continue;
        }
        o.steps--;
        size_t hi = W(o.held.size());
        Node* nd = o.held[hi].get();
        op_name = "";
        bool done;
        if (W(9) == 8) {
            op_name = "release";
            ev("owner %zu: release %s %s", cur, type_name(nd->type), kind_name[nd->kind]);
            release(*nd);
            o.held.erase(o.held.begin() + hi);
            check_all("release", nullptr);
            ops++;
            continue;
        }
        if (nd->kind == TRACE) {
            if (!nd->trace.t.empty() && W(2)) {
                size_t i = W(nd->trace.t.size());
                auto t = sr_stacktrace_threads((struct sr_stacktrace*)nd->p);
                for (size_t k = 0; k < i; k++) t = sr_thread_next(t);
                done = thread_op(o, *nd, t, nd->trace.t[i]);
            } else done = trace_op(o, *nd);
        } else done = list_op(o, *nd);
        ev("owner %zu: %s %s on %s%s", cur, op_name, type_name(nd->type), kind_name[nd->kind], done ? "" : " (nothing to do)");
        if (done) ops++;
        check_all(op_name, nd);
        if (o.held.size() > 14) o.steps = 0;
        uint64_t h = 7;
        for (auto& x : o.held) h = h * 131 + x->kind * 7 + x->type * 31 + x->th.size() + x->fr.size() * 3 + (x->kind == TRACE ? x->trace.t.size() * 5 : 0);
        state(h ^ hash_str(op_name));
    }
    if (ops > 1) nontrivial();
    // releases in an order of the schedule's choice
    std::vector<std::pair<size_t, size_t>> left;
    for (;;) {
        left.clear();
        for (size_t i = 0; i < n; i++) for (size_t k = 0; k < owners[i].held.size(); k++) left.push_back({i, k});
        if (left.empty()) break;
        auto p = left[F(left.size())];
        ev("owner %zu releases its %s %s", p.first, type_name(owners[p.first].held[p.second]->type), kind_name[owners[p.first].held[p.second]->kind]);
        release(*owners[p.first].held[p.second]);
        owners[p.first].held.erase(owners[p.first].held.begin() + p.second);
        check_all("release", nullptr);
    }
    if (ledger_live()) violation("leak:own", "%zu blocks are still allocated after every owner released everything", ledger_live());
    owners.clear();
}
