// S10 and S11: pairwise distances computed in parts by a cluster of simulated nodes,
// and the clustering every node derives from what it gathered.
#include "model.h"
#include <algorithm>
#include <cmath>
extern "C" {
#include "distance.h"
#include "cluster.h"
#include "thread.h"
}
using namespace sim;

namespace {
struct Inputs {                         // one version of the set of crashes
    int type = 0;
    std::vector<MThread> t;
    std::vector<int> lengths() const { std::vector<int> v; for (auto& x : t) v.push_back((int)x.f.size()); return v; }
};
struct Wire {                           // a part as it travels between nodes
    int version = 0;
    int m = 0, n = 0, mb = 0, nb = 0; size_t len = 0; int dt = 0;
    uint32_t sum = 0; bool done = false, damaged = false;
    std::vector<float> d;
};
struct Msg { uint64_t at, seq; int to; bool result; Wire w; };
struct Worker { int version = -1; std::vector<sr_thread*> th; uint64_t busy_until = 0; };
}

static Inputs gen_inputs(int n) {
    Inputs in;
    static const int types[] = {SR_REPORT_GDB, SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT};
    in.type = types[W(7)];
    std::vector<MFrame> pool;
    uint32_t np = 2 + W(7);
    for (uint32_t i = 0; i < np; i++) {
        MFrame f = gen_frame(in.type);
        if (in.type == SR_REPORT_GDB && W(3) == 0) f.s["function_name"] = "??";
        pool.push_back(f);
    }
    for (int i = 0; i < n; i++) {
        MThread t;
        if (in.type == SR_REPORT_CORE || in.type == SR_REPORT_GDB || in.type == SR_REPORT_JAVA) {
            MTrace x = gen_trace(in.type, 1, 1);
            if (x.t.size()) { t = x.t[0]; t.f.clear(); }
        }
        if (i && W(4) == 0) t.f = in.t[W(i)].f;      // near duplicates of earlier crashes
        else for (uint32_t k = W(7); k > 0; k--) t.f.push_back(pool[W(np)]);
        if (W(4) == 0 && t.f.size()) t.f[W(t.f.size())] = pool[W(np)];
        in.t.push_back(t);
    }
    return in;
}
static Inputs change_inputs(const Inputs& o) {
    Inputs in = o;
    switch (W(4)) {
    case 0: in.t.push_back(in.t[W(in.t.size())]); break;                                   // one more crash came in
    case 1: { auto& t = in.t[W(in.t.size())]; if (t.f.size()) t.f.pop_back(); else t.f.push_back(gen_frame(in.type)); break; }
    case 2: { uint32_t a = W(in.t.size()), b = W(in.t.size()); std::swap(in.t[a], in.t[b]); break; }
    default: if (in.t.size() > 2) in.t.pop_back(); else in.t.push_back(in.t[0]); break;
    }
    return in;
}
static std::vector<sr_thread*> build(const Inputs& in) {
    std::vector<sr_thread*> v;
    for (auto& t : in.t) {
        struct sr_thread* x = thread_to(in.type, t);
        if (!x) { MTrace m; m.type = in.type; m.t.push_back(t); x = (struct sr_thread*)trace_to(m); }   // the trace is its only thread
        v.push_back(x);
    }
    return v;
}
static void release(std::vector<sr_thread*>& v) {
    for (auto t : v) sr_thread_free(t);
    v.clear();
}
static void unmodified(const Inputs& in, const std::vector<sr_thread*>& v, const char* what) {
    for (size_t i = 0; i < v.size(); i++) {
        Str d = diff(in.t[i], thread_of(v[i]), "thread " + std::to_string(i));
        if (d.size()) violation("modified:threads", "%s changed its input: %s", what, d.c_str());
    }
}
static std::vector<uint32_t> bits_of(struct sr_distances* d) {
    std::vector<uint32_t> v;
    for (int i = 0; i < d->m; i++)
        for (int j = i + 1; j < d->n; j++) {
            float f = LIB(sr_distances_get_distance(d, i, j));
            uint32_t u; memcpy(&u, &f, 4);
            v.push_back(u);
        }
    return v;
}
static const char* dt_name(int t) { static const char* n[] = {"jaro-winkler", "jaccard", "levenshtein", "damerau-levenshtein"}; return n[t]; }

// the reference: one computation in one place
struct Single { std::vector<uint32_t> bits; int m, n; };
static Single single(const Inputs& in, int m, int dt) {
    auto th = build(in);
    size_t live = ledger_live();
    struct sr_distances* d = LIB(sr_threads_compare(th.data(), m, (int)th.size(), (enum sr_distance_type)dt));
    Single s; s.m = d->m; s.n = d->n;
    int wm = std::min(m, (int)th.size() - 1);
    if (d->m != wm || d->n != (int)th.size()) violation("shape:single", "comparing %zu threads, first %d rows: matrix is %dx%d", th.size(), m, d->m, d->n);
    s.bits = bits_of(d);
    for (int i = 0, k = 0; i < d->m; i++) for (int j = i + 1; j < d->n; j++, k++) {
        float f; memcpy(&f, &s.bits[k], 4);
        if (f != f) violation("range", "%s distance of threads %d and %d is not a number", dt_name(dt), i, j);
        float g = LIB(sr_distances_get_distance(d, j, i));
        if (memcmp(&f, &g, 4)) violation("symmetry", "entry (%d,%d) differs from entry (%d,%d)", i, j, j, i);
        // the entry belongs to this pair: a matrix of just these two holds the same
        if (W(6) == 0) {
            struct sr_thread* two[2] = {th[i], th[j]};
            struct sr_distances* p = LIB(sr_threads_compare(two, 1, 2, (enum sr_distance_type)dt));
            float h = LIB(sr_distances_get_distance(p, 0, 1));
            LIB(sr_distances_free(p));
            if (memcmp(&f, &h, 4)) violation("pair", "%s distance of threads %d and %d is %g in the matrix and %g on its own", dt_name(dt), i, j, f, h);
        }
    }
    LIB(sr_distances_free(d));
    unmodified(in, th, "the comparison");
    if (ledger_live() != live) violation("leak:single", "comparing leaves %zd blocks", (ssize_t)(ledger_live() - live));
    release(th);
    return s;
}

static Wire to_wire(const struct sr_distances_part* p, int version) {
    Wire w; w.version = version; w.m = p->m; w.n = p->n; w.mb = p->m_begin; w.nb = p->n_begin; w.len = p->len; w.dt = p->dist_type; w.sum = p->checksum;
    if (p->distances) { w.done = true; w.d.assign(p->distances, p->distances + p->len); }
    return w;
}
static struct sr_distances_part* from_wire(const Wire& w) {
    struct sr_distances_part* p = sr_distances_part_new(w.m, w.n, (enum sr_distance_type)w.dt, w.mb, w.nb, w.len);
    p->checksum = w.sum;
    if (w.done) { p->distances = (float*)g_malloc(w.len * sizeof(float)); memcpy(p->distances, w.d.data(), w.len * sizeof(float)); }
    return p;
}

static std::vector<Wire> split(int m, int n, int dt, unsigned nparts, int version) {
    struct sr_distances_part* p = LIB(sr_distances_part_create(m, n, (enum sr_distance_type)dt, nparts));
    std::vector<Wire> v;
    int wm = std::min(m, n - 1);
    size_t pairs = (size_t)wm * n - (size_t)wm * (wm + 1) / 2;
    std::set<std::pair<int, int>> seen;
    for (auto it = p; it; it = it->next) {
        if (it->m != wm || it->n != n || it->dist_type != dt) violation("split:shape", "a part of a %dx%d %s split says %dx%d, kind %d", wm, n, dt_name(dt), it->m, it->n, it->dist_type);
        if (it->distances) violation("split:computed", "a fresh part claims to be computed");
        if (!it->len) violation("split:empty", "a part without any pair (%u parts of %zu pairs)", nparts, pairs);
        int i = it->m_begin, j = it->n_begin;
        for (size_t k = 0; k < it->len; k++) {
            if (i < 0 || i >= wm || j <= i || j >= n) violation("split:range", "split of %dx%d into %u parts: a part reaches pair (%d,%d)", wm, n, nparts, i, j);
            if (!seen.insert({i, j}).second) violation("split:twice", "split of %dx%d into %u parts: pair (%d,%d) belongs to two parts", wm, n, nparts, i, j);
            if (++j >= n) { i++; j = i + 1; }
        }
        v.push_back(to_wire(it, version));
    }
    if (seen.size() != pairs) violation("split:missing", "split of %dx%d into %u parts covers %zu of %zu pairs", wm, n, nparts, seen.size(), pairs);
    if (v.size() > nparts) violation("split:count", "split into %u parts returned %zu", nparts, v.size());
    if (v.size() != std::min((size_t)nparts, pairs)) violation("split:count", "split of %zu pairs into %u parts returned %zu parts", pairs, nparts, v.size());
    LIB(sr_distances_part_free(p, true));
    return v;
}
static Wire compute(const Wire& job, const Inputs& in, std::vector<sr_thread*>& th, int version) {
    struct sr_distances_part* p = LIB(sr_distances_part_new(job.m, job.n, (enum sr_distance_type)job.dt, job.mb, job.nb, job.len));
    size_t live = ledger_live();
    if (W(5) == 0) {
        // the same part was computed before, from what were other crashes of the same lengths then
        Inputs old = in;
        for (auto& t : old.t) for (auto& f : t.f) if (W(2)) f = gen_frame(in.type);
        auto oth = W(3) ? build(old) : build(in);
        LIB(sr_distances_part_compute(p, oth.data()));
        release(oth);
        live += 1;                          // the distances
        LIB(sr_distances_part_compute(p, th.data()));
        if (ledger_live() != live) violation("leak:recompute", "computing a part again leaves %zd blocks", (ssize_t)(ledger_live() - live));
        probe("part computed again");
    } else
    LIB(sr_distances_part_compute(p, th.data()));
    if (p->m != job.m || p->n != job.n || p->m_begin != job.mb || p->n_begin != job.nb || p->len != job.len || p->dist_type != job.dt) violation("compute:shape", "computing a part changed what it is a part of");
    Wire r = to_wire(p, version);
    if (!r.done) violation("compute:none", "a computed part holds no distances");
    LIB(sr_distances_part_free(p, true));
    if (W(4) == 0) unmodified(in, th, "computing a part");
    return r;
}

struct Merged { bool ok = false; struct sr_distances* d = nullptr; };
// Merges a list of parts, and decides whether that was right.
static struct sr_distances* merge(const std::vector<Wire>& list, const std::vector<Inputs>& versions, std::map<std::tuple<int, int, int>, Single>& ref) {
    struct sr_distances_part *head = nullptr, **tail = &head;
    size_t live = ledger_live();
    for (auto& w : list) { *tail = LIB(from_wire(w)); tail = &(*tail)->next; }
    struct sr_distances* d = LIB(sr_distances_part_merge(head));
    size_t k = 0;
    for (auto it = head; it; it = it->next, k++) {
        Wire w = to_wire(it, list[k].version);
        const Wire& o = list[k];
        if (w.m != o.m || w.n != o.n || w.mb != o.mb || w.nb != o.nb || w.len != o.len || w.dt != o.dt || w.sum != o.sum || w.done != o.done || (o.d.size() && memcmp(w.d.data(), o.d.data(), o.d.size() * 4)))
            violation("modified:parts", "merging changed part %zu of the list", k);
    }
    if (k != list.size()) violation("modified:parts", "merging changed the list of parts");
    LIB(sr_distances_part_free(head, true));
    // what it should have been
    bool same = !list.empty(), undone = false, one_version = true;
    Str why = list.empty() ? "there are no parts" : "";
    std::map<std::pair<int, int>, std::vector<uint32_t>> have;
    for (auto& w : list) {
        const Wire& o = list[0];
        if (w.m != o.m || w.n != o.n) { same = false; why = "parts of matrices of different shapes"; }
        if (w.dt != o.dt) { same = false; why = "parts of different distance kinds"; }
        if (!w.done) { undone = true; why = "a part was never computed"; }
        if (w.version != o.version || w.damaged) one_version = false;
        if (w.done && versions[w.version].lengths() != versions[o.version].lengths()) { same = false; why = "parts computed from different crashes"; }
        if (w.done) {
            int i = w.mb, j = w.nb;
            for (size_t x = 0; x < w.len; x++) { if (i >= w.m || j <= i || j >= w.n) { same = false; why = "a part reaches outside of the matrix"; probe("merge of a part that reaches outside"); break; } uint32_t u; memcpy(&u, &w.d[x], 4); have[{i, j}].push_back(u); if (++j >= w.n) { i++; j = i + 1; } }
        }
    }
    size_t pairs = list.empty() ? 0 : (size_t)list[0].m * list[0].n - (size_t)list[0].m * (list[0].m + 1) / 2;
    if (same && !undone && have.size() < pairs) { same = false; why = "the parts cover " + std::to_string(have.size()) + " of " + std::to_string(pairs) + " pairs"; }
    bool want = same && !undone;
    if (!want) {
        probe("merge refused");
        if (d) violation("merge:accepted", "merging %zu parts succeeded although %s", list.size(), why.c_str());
        if (ledger_live() != live) violation("leak:merge", "a refused merge leaves %zd blocks", (ssize_t)(ledger_live() - live));
        return nullptr;
    }
    if (!d) violation("merge:refused", "merging %zu parts that cover all %zu pairs of one %dx%d matrix failed", list.size(), pairs, list[0].m, list[0].n);
    if (d->m != list[0].m || d->n != list[0].n) violation("merge:shape", "merged matrix is %dx%d, the parts are of %dx%d", d->m, d->n, list[0].m, list[0].n);
    auto bits = bits_of(d);
    size_t x = 0;
    if (one_version) {
        auto key = std::make_tuple(list[0].version, list[0].m, list[0].dt);
        if (!ref.count(key)) { FaultPlan s = plan(); no_faults(); ref[key] = single(versions[list[0].version], list[0].m, list[0].dt); plan() = s; }
        auto& r = ref[key].bits;
        for (int i = 0; i < d->m; i++) for (int j = i + 1; j < d->n; j++, x++)
            if (bits[x] != r[x]) {
                float a, b; memcpy(&a, &bits[x], 4); memcpy(&b, &r[x], 4);
                violation("merge:value", "%s distance of threads %d and %d merged from %zu parts is %.9g, computed at once %.9g", dt_name(list[0].dt), i, j, list.size(), a, b);
            }
        probe("merged set equals the single computation");
    } else {
        for (int i = 0; i < d->m; i++) for (int j = i + 1; j < d->n; j++, x++) {
            auto& c = have[{i, j}];
            if (std::find(c.begin(), c.end(), bits[x]) == c.end()) { float a; memcpy(&a, &bits[x], 4); violation("merge:invented", "entry (%d,%d) of the merged matrix is %.9g, which no part says", i, j, a); }
        }
    }
    return d;
}

// ------------------------------------------------------------------ the cluster of nodes
struct Net {
    std::vector<Msg> q; uint64_t seq = 0;
    std::map<int, uint64_t> cut_until;       // partitions: worker -> end
    void send(int to, bool result, const Wire& w, int worker) {
        uint64_t lat = 50 + F(200);
        if (fault(F_PARTITION)) { cut_until[worker] = now_us() + 500 + F(4000); ev("worker %d is cut off", worker); }
        if (cut_until.count(worker) && cut_until[worker] > now_us()) { count_fault(F_MSG_LOSS); ev("message to %d lost in the partition", to); return; }
        if (fault(F_MSG_LOSS)) { ev("message to %d lost", to); return; }
        if (fault(F_MSG_DELAY)) lat += 1000 + F(8000);
        if (fault(F_MSG_REORDER)) lat = F(30);
        q.push_back({now_us() + lat, seq++, to, result, w});
        if (fault(F_MSG_DUP)) { q.push_back({now_us() + lat + F(3000), seq++, to, result, w}); ev("message to %d doubled", to); }
    }
    bool pop(Msg& m) {
        if (q.empty()) return false;
        size_t b = 0;
        for (size_t i = 1; i < q.size(); i++) if (q[i].at < q[b].at || (q[i].at == q[b].at && q[i].seq < q[b].seq)) b = i;
        m = q[b]; q.erase(q.begin() + b);
        if (m.at > now_us()) sim_time(m.at - now_us());
        return true;
    }
};
static const int COORD = -1;

WORLD(dist) {
    uint32_t n0 = W(12) == 11 ? 14 + W(14) : 2 + W(8);
    std::vector<Inputs> versions{gen_inputs(n0)};
    std::vector<Worker> workers(1 + W(4));
    int m = 1 + W(n0 + 2), dt = W(4);
    std::map<std::tuple<int, int, int>, Single> ref;
    size_t live0;
    plan_faults({F_MSG_LOSS, F_MSG_DUP, F_MSG_REORDER, F_MSG_DELAY, F_WORKER_CRASH, F_WORKER_STALL, F_OWNER_CRASH, F_PARTITION}, 40);
    nontrivial();
    Net net;
    std::vector<Wire> got;                    // every result the collector ever received (survives as its spool)
    std::vector<Wire> jobs; std::vector<bool> done; std::vector<uint64_t> sent_at;
    int version = 0;
    live0 = ledger_live();
    auto resplit = [&] {
        unsigned np = W(5) == 4 ? 1 + W(60) : 1 + W(6);
        jobs = split(m, (int)versions[version].t.size(), dt, np, version);
        done.assign(jobs.size(), false); sent_at.assign(jobs.size(), 0);
        ev("split %dx%zu %s into %u: %zu parts", m, versions[version].t.size(), dt_name(dt), np, jobs.size());
    };
    auto same_job = [](const Wire& a, const Wire& b) { return a.version == b.version && a.m == b.m && a.n == b.n && a.dt == b.dt && a.mb == b.mb && a.nb == b.nb && a.len == b.len; };
    resplit();
    uint32_t changes = W(3), steps = 0;
    bool quiet = false; uint64_t quiet_since = 0;
    uint64_t next_timer = 0;
    struct sr_distances* final_d = nullptr;
    while (!final_d) {
        steps++;
        if (steps > 1500 && !quiet) { no_faults(); net.cut_until.clear(); quiet = true; quiet_since = now_us(); ev("the faults stop"); }
        if (quiet && now_us() > quiet_since + 60000000 + 100000 * jobs.size()) violation("progress", "the matrix is still not complete a simulated minute after the last fault");
        // retransmission timer of the coordinator
        if (now_us() >= next_timer) {
            next_timer = now_us() + 2000;
            uint32_t budget = 8;
            for (size_t k = 0; k < jobs.size() && budget; k++)
                if (!done[k] && (sent_at[k] == 0 || now_us() - sent_at[k] > 4000)) {
                    int w = (int)F(workers.size());
                    sent_at[k] = now_us() + 1; budget--;
                    net.send(w, false, jobs[k], w);
                }
            if (fault(F_OWNER_CRASH)) {
                ev("the coordinator dies and starts over from its spool of results");
                resplit();
                // results it spooled earlier still count if they belong to the new split
                for (size_t k = 0; k < jobs.size(); k++) for (auto& g : got) if (same_job(g, jobs[k]) && g.done) done[k] = true;
            }
            if (changes && W(12) == 0) {
                changes--;
                versions.push_back(change_inputs(versions[version])); version++;
                if (W(3) == 0) dt = W(4);
                if (W(3) == 0) m = 1 + W(versions[version].t.size() + 1);
                ev("the set of crashes changes (version %d)", version);
                resplit();
            }
        }
        Msg msg;
        if (net.q.empty() || net.q[0].at > next_timer + 100000) sim_time(next_timer > now_us() ? next_timer - now_us() : 1);
        if (!net.pop(msg)) { if (std::all_of(done.begin(), done.end(), [](bool b) { return b; })) {} else continue; }
        else if (msg.to == COORD) {
            bool known = false;
            for (size_t k = 0; k < jobs.size(); k++) if (same_job(msg.w, jobs[k])) { done[k] = true; known = true; }
            ev("result (%d,%d)+%zu v%d arrives%s", msg.w.mb, msg.w.nb, msg.w.len, msg.w.version, known ? "" : " late");
            got.push_back(msg.w);
            state(hash_bytes(&msg.w.mb, 8, got.size() * 31 + msg.w.version));
            // an impatient collector merges whatever it has
            if (W(6) == 0) {
                std::vector<Wire> l;
                uint32_t how = W(4);
                for (auto& g : got) {
                    if (how == 0) l.push_back(g);
                    else if (how == 1) { if (g.version == version) l.push_back(g); }
                    else if (how == 2) { if (W(4)) l.push_back(g); }
                    else if (g.version == version && g.dt == dt && W(6)) l.push_back(g);
                }
                if (W(8) == 0) for (size_t k = 0; k < jobs.size(); k++) if (!done[k]) { l.push_back(jobs[k]); break; }
                if (l.size() > 80) l.resize(80);
                if (l.size() && W(5) == 0) {         // one was damaged on its way
                    Wire& g = l[W(l.size())];
                    switch (W(5)) {
                    case 0: g.mb = W(g.n + 2); break;
                    case 1: g.nb = W(g.n + 2); break;
                    case 2: if (g.len > 1) { g.len--; if (g.done) g.d.pop_back(); } break;
                    case 3: { uint32_t k = 1 + W(g.n * 2); g.len += k; if (g.done) g.d.resize(g.len, 0.5f); break; }
                    default: if (g.done) for (int i = 0, j = 1; ; ) {       // all of the rest of the matrix, and then some
                        while (i < g.m && !(i == g.mb && j == g.nb)) if (++j >= g.n) { i++; j = i + 1; }
                        g.len = 1 + W(2);
                        for (; i < g.m; ) { g.len++; if (++j >= g.n) { i++; j = i + 1; } }
                        g.d.resize(g.len, 0.25f);
                        break;
                    }
                    }
                    g.damaged = true;
                }
                for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[F(i)]);
                auto d = merge(l, versions, ref);
                if (d) LIB(sr_distances_free(d));
            }
        } else {
            Worker& w = workers[msg.to];
            if (fault(F_WORKER_CRASH)) { ev("worker %d dies with its job", msg.to); release(w.th); w.version = -1; w.busy_until = 0; continue; }
            if (fault(F_WORKER_STALL)) { w.busy_until = now_us() + 1000 + F(20000); ev("worker %d stalls", msg.to); }
            if (w.busy_until > now_us()) { msg.at = w.busy_until; net.q.push_back(msg); continue; }
            if (w.version != msg.w.version) { release(w.th); w.th = build(versions[msg.w.version]); w.version = msg.w.version; }
            Wire r = compute(msg.w, versions[w.version], w.th, w.version);
            ev("worker %d computes (%d,%d)+%zu v%d", msg.to, r.mb, r.nb, r.len, r.version);
            net.send(COORD, true, r, msg.to);
        }
        if (std::all_of(done.begin(), done.end(), [](bool b) { return b; })) {
            std::vector<Wire> l;
            for (auto& g : got) for (auto& j : jobs) if (same_job(g, j)) { l.push_back(g); break; }
            for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[F(i)]);
            // leave the doubles in most of the time
            if (W(3) == 0) { std::vector<Wire> u; for (auto& g : l) { bool dup = false; for (auto& x : u) if (same_job(x, g)) dup = true; if (!dup) u.push_back(g); } l = u; }
            if (l.size() > 200) { std::vector<Wire> u; for (auto& j : jobs) for (auto& g : l) if (same_job(g, j)) { u.push_back(g); break; } l = u; }
            ev("all parts are there: merge %zu", l.size());
            final_d = merge(l, versions, ref);
        }
    }
    for (auto& w : workers) { if (w.version >= 0) unmodified(versions[w.version], w.th, "computing parts"); release(w.th); }
    struct sr_distances* dup = LIB(sr_distances_dup(final_d));
    if (dup->m != final_d->m || dup->n != final_d->n || bits_of(dup) != bits_of(final_d)) violation("dup", "a copied matrix differs from its original");
    LIB(sr_distances_free(dup));
    LIB(sr_distances_free(final_d));
    if (ledger_live() != live0) violation("leak:dist", "the computation leaves %zd blocks", (ssize_t)(ledger_live() - live0));
}

// ------------------------------------------------------------------ clustering
namespace {
struct Dendro { std::vector<int> order; std::vector<uint32_t> levels; bool operator==(const Dendro& o) const { return order == o.order && levels == o.levels; } };
struct Replay {                          // is this dendrogram an average-linkage clustering of those distances?
    int m, n; std::vector<std::vector<float>> dist;
    std::vector<int> order; std::vector<float> lev;
    long nodes = 0; Str why;
    struct St { std::vector<std::pair<int, int>> iv; std::vector<std::vector<double>> D; std::vector<std::vector<bool>> known; std::vector<int> size; std::vector<bool> alive; };
    static double tol(double x) { return 2e-5 + 2e-5 * fabs(x); }
    int slot(const std::pair<int, int>& r) { int s = n; for (int i = r.first; i <= r.second; i++) s = std::min(s, order[i]); return s; }
    // boundaries merged so far are those inside the intervals of st
    bool run(St st) {
        if (st.iv.size() == 1) return true;
        if (++nodes > 4000) return true;                      // too many ties to explore: no verdict
        double lo = 1e300;
        for (size_t k = 0; k + 1 < st.iv.size(); k++) lo = std::min(lo, (double)lev[st.iv[k].second]);
        // the closest pair of clusters
        double best = 1e300;
        for (int i = 0; i < n; i++) if (st.alive[i]) for (int j = i + 1; j < n; j++) if (st.alive[j] && st.known[i][j]) best = std::min(best, st.D[i][j]);
        bool candidate = false;
        for (size_t k = 0; k + 1 < st.iv.size(); k++) {
            double L = lev[st.iv[k].second];
            if (L > lo + tol(lo)) continue;
            int a = slot(st.iv[k]), b = slot(st.iv[k + 1]);
            if (a > b) std::swap(a, b);
            if (!st.known[a][b] || fabs(st.D[a][b] - L) > tol(L)) continue;
            candidate = true;
            if (L > best + tol(best)) continue;
            St nx = st;
            for (int i = 0; i < n; i++) {
                if (!nx.alive[i] || i == a || i == b) continue;
                if (!st.known[std::min(i, b)][std::max(i, b)]) continue;
                double v = (st.D[std::min(i, a)][std::max(i, a)] * st.size[a] + st.D[std::min(i, b)][std::max(i, b)] * st.size[b]) / (st.size[a] + st.size[b]);
                nx.D[std::min(i, a)][std::max(i, a)] = v;
            }
            nx.size[a] += nx.size[b]; nx.alive[b] = false;
            nx.iv[k].second = nx.iv[k + 1].second;
            nx.iv.erase(nx.iv.begin() + k + 1);
            if (run(nx)) return true;
        }
        char t[200];
        snprintf(t, sizeof t, "with %zu clusters left the closest pair is %.6g apart, the next merge level is %.6g%s", st.iv.size(), best, lo, candidate ? "" : ", which is not the average distance of any two neighbouring clusters");
        if (why.empty()) why = t;
        return false;
    }
    bool ok() {
        St st;
        st.D.assign(n, std::vector<double>(n, 0)); st.known.assign(n, std::vector<bool>(n, false)); st.size.assign(n, 1); st.alive.assign(n, true);
        for (int i = 0; i < n; i++) { st.iv.push_back({i, i}); for (int j = i + 1; j < n; j++) if (i < m) { st.D[i][j] = dist[i][j]; st.known[i][j] = true; } }
        return run(st);
    }
};
}
static Dendro clustering(struct sr_distances* d, int node) {
    auto before = bits_of(d);
    int m = d->m, n = d->n;
    size_t live = ledger_live();
    struct sr_dendrogram* g = LIB(sr_distances_cluster_objects(d));
    if (d->m != m || d->n != n || bits_of(d) != before) violation("modified:distances", "clustering changed the distances");
    if (!g) violation("none", "clustering %d objects returned nothing", n);
    if (g->size != n) violation("size", "dendrogram of %d objects says %d", n, g->size);
    Dendro r;
    r.order.assign(g->order, g->order + n);
    for (int i = 0; i + 1 < n; i++) { uint32_t u; memcpy(&u, &g->merge_levels[i], 4); r.levels.push_back(u); }
    std::set<int> s(r.order.begin(), r.order.end());
    if ((int)s.size() != n || *s.begin() != 0 || *s.rbegin() != n - 1) violation("order", "the order of a dendrogram of %d objects is not a permutation", n);
    // structure
    Replay rp; rp.m = m; rp.n = n; rp.order = r.order;
    rp.lev.assign(g->merge_levels, g->merge_levels + n - 1);
    rp.dist.assign(n, std::vector<float>(n, 0));
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) rp.dist[i][j] = LIB(sr_distances_get_distance(d, i, j));
    if (n <= 40 && !rp.ok()) violation("linkage", "node %d: %dx%d: not an average-linkage clustering: %s", node, m, n, rp.why.c_str());
    if (rp.nodes <= 4000) probe("linkage replayed");
    // cuts
    std::vector<float> levels(g->merge_levels, g->merge_levels + n - 1), all = levels;
    for (float l : levels) { all.push_back(nextafterf(l, 1e30f)); all.push_back(nextafterf(l, -1e30f)); }
    all.push_back(-1e30f); all.push_back(1e30f); all.push_back(0.5f);
    std::sort(all.begin(), all.end());
    if (all.size() > 24) { std::vector<float> p; for (size_t i = 0; i < 24; i++) p.push_back(all[W(all.size())]); std::sort(p.begin(), p.end()); all = p; }
    std::vector<int> prev(n); for (int i = 0; i < n; i++) prev[i] = i;
    for (float lv : all) {
        // expected: two neighbours belong together when no merge above the level separates them
        std::vector<int> want(n); int c = 0;
        for (int i = 0; i < n; i++) { if (i && !(levels[i - 1] <= lv)) c++; want[r.order[i]] = c; }
        int min_size = W(3) == 0 ? 1 : W(n + 2);
        std::vector<size_t> count(c + 1, 0);
        for (int x : want) count[x]++;
        size_t live2 = ledger_live();
        struct sr_cluster* cl = LIB(sr_dendrogram_cut(g, lv, min_size));
        std::vector<int> in(n, -1); int k = 0;
        for (auto it = cl; it; it = it->next, k++) {
            if (it->size <= 0 || it->size < min_size) violation("cut:small", "cutting at %g with minimum size %d returned a cluster of %d", lv, min_size, it->size);
            for (int i = 0; i < it->size; i++) {
                int o = it->objects[i];
                if (o < 0 || o >= n) violation("cut:range", "cutting returned object %d of %d", o, n);
                if (in[o] >= 0) violation("cut:twice", "cutting at %g puts object %d into two clusters", lv, o);
                in[o] = k;
                if (want[o] != want[it->objects[0]]) violation("cut:mixed", "cutting at %g puts objects %d and %d together, which merged above that level", lv, it->objects[0], o);
            }
            if ((size_t)it->size != count[want[it->objects[0]]]) violation("cut:split", "cutting at %g returned %d of the %zu objects merged below that level", lv, it->size, count[want[it->objects[0]]]);
        }
        for (int o = 0; o < n; o++) if (in[o] < 0 && (int)count[want[o]] >= min_size) violation("cut:lost", "cutting at %g with minimum size %d lost object %d of a cluster of %zu", lv, min_size, o, count[want[o]]);
        // raising the level only merges
        for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (prev[a] == prev[b] && want[a] != want[b]) violation("cut:nested", "objects %d and %d are together at a lower level than %g but not at that level", a, b, lv);
        prev = want;
        while (cl) { auto nx = cl->next; LIB(sr_cluster_free(cl)); cl = nx; }
        if (ledger_live() != live2) violation("leak:cut", "a cut leaves %zd blocks", (ssize_t)(ledger_live() - live2));
    }
    if (memcmp(g->order, r.order.data(), n * sizeof(int)) || memcmp(g->merge_levels, r.levels.data(), (n - 1) * 4)) violation("modified:dendrogram", "cutting changed the dendrogram");
    LIB(sr_dendrogram_free(g));
    if (ledger_live() != live) violation("leak:cluster", "clustering leaves %zd blocks", (ssize_t)(ledger_live() - live));
    return r;
}

WORLD(cluster) {
    uint32_t rounds = 1 + W(3);
    plan_faults({F_MSG_LOSS, F_MSG_DUP, F_MSG_REORDER, F_WORKER_CRASH, F_OWNER_CRASH}, 30);
    struct Old { std::vector<uint32_t> bits; int m, n; Dendro g; };
    std::vector<Old> history;
    for (uint32_t r = 0; r < rounds; r++) {
        int n = W(10) == 9 ? 12 + W(20) : 2 + W(9);
        int m = W(2) ? n - 1 : 1 + W(n);
        nontrivial();
        bool synthetic = W(2);
        Inputs in; int dt = W(4);
        std::vector<Wire> parts;
        std::vector<Inputs> versions;
        std::map<std::tuple<int, int, int>, Single> ref;
        std::vector<float> vals;
        int wm = std::min(m, n - 1);
        if (synthetic) {
            uint32_t kind = W(5);
            for (int i = 0; i < wm; i++) for (int j = i + 1; j < n; j++)
                vals.push_back(kind == 0 ? W(1000001) / 1000000.0f : kind == 1 ? W(3) / 2.0f : kind == 2 ? (float)W(100000) : kind == 3 ? (i % 3 == j % 3 ? W(10) / 100.0f : 0.5f + W(50) / 100.0f) : abs(j - i) + W(10) / 1000.0f);
        } else {
            in = gen_inputs(n); versions.push_back(in);
            auto th = build(in);
            for (auto& j : split(m, n, dt, 1 + W(6), 0)) parts.push_back(compute(j, in, th, 0));
            release(th);
        }
        uint32_t nodes = 2 + W(2);
        bool have = false; Dendro first; std::vector<uint32_t> fb;
        for (uint32_t k = 0; k < nodes; k++) {
            struct sr_distances* d = nullptr;
            bool again = true;
            uint32_t tries = 0;
            while (again) {
                again = false;
                if (++tries > 6) no_faults();
                if (synthetic) {
                    d = LIB(sr_distances_new(m, n));
                    // values arrive in some order, some of them twice
                    std::vector<size_t> ix; std::vector<std::pair<int, int>> at;
                    for (int i = 0; i < wm; i++) for (int j = i + 1; j < n; j++) at.push_back({i, j});
                    for (size_t x = 0; x < at.size(); x++) { ix.push_back(x); if (fault(F_MSG_DUP)) ix.push_back(x); }
                    for (size_t x = ix.size(); x > 1; x--) std::swap(ix[x - 1], ix[F(x)]);
                    for (size_t x : ix) { bool sw = F(2); int a = at[x].first, b = at[x].second; LIB(sr_distances_set_distance(d, sw ? b : a, sw ? a : b, vals[x])); }
                    for (size_t x = 0; x < at.size(); x++) { float f = LIB(sr_distances_get_distance(d, at[x].first, at[x].second)); if (memcmp(&f, &vals[x], 4)) violation("store", "entry (%d,%d) reads back as %g, stored %g", at[x].first, at[x].second, f, vals[x]); }
                    for (int i = 0; i < n; i++) if (LIB(sr_distances_get_distance(d, i, i)) != 0.0f) violation("store", "distance of an object to itself is not 0");
                } else {
                    std::vector<Wire> l;
                    for (auto& p : parts) { if (fault(F_MSG_LOSS)) continue; l.push_back(p); if (fault(F_MSG_DUP)) l.push_back(p); }
                    for (size_t x = l.size(); x > 1; x--) std::swap(l[x - 1], l[F(x)]);
                    d = merge(l, versions, ref);
                    if (!d) { ev("node %u: incomplete, asks again", k); again = true; continue; }
                }
                if (fault(F_OWNER_CRASH)) {
                    // the node dies after clustering and before telling anyone
                    clustering(d, k); ev("node %u dies and recomputes", k);
                    LIB(sr_distances_free(d)); d = nullptr; again = true;
                }
            }
            Dendro g = clustering(d, k);
            auto bits = bits_of(d);
            ev("node %u: %dx%d clustered %08lx", k, wm, n, (unsigned long)(hash_bytes(g.order.data(), g.order.size() * 4) & 0xffffffff));
            state(hash_bytes(g.order.data(), g.order.size() * 4, hash_bytes(g.levels.data(), g.levels.size() * 4)));
            if (!have) { first = g; fb = bits; have = true; history.push_back({bits, wm, n, g}); }
            else {
                if (bits != fb) violation("node:distances", "node %u gathered other distances than node 0", k);
                if (!(g == first)) violation("node:dendrogram", "node %u derives another dendrogram than node 0 from the same distances", k);
            }
            LIB(sr_distances_free(d));
        }
        // an earlier set of distances clustered once more in the same process
        if (history.size() > 1 && W(2)) {
            Old& o = history[W(history.size())];
            struct sr_distances* d = LIB(sr_distances_new(o.m, o.n));
            size_t x = 0;
            for (int i = 0; i < o.m; i++) for (int j = i + 1; j < o.n; j++, x++) { float f; memcpy(&f, &o.bits[x], 4); LIB(sr_distances_set_distance(d, i, j, f)); }
            if (!(clustering(d, 9) == o.g)) violation("history", "the same distances cluster differently after other clusterings");
            LIB(sr_distances_free(d));
        }
    }
}
