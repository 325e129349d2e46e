// S09: package lookups against a simulated package database, and histories of
// package list operations.
#include "model.h"
#include <algorithm>
extern "C" {
#include "rpm.h"
#include <rpm/rpmlib.h>
#include <rpm/rpmdb.h>
#include <rpm/rpmts.h>
#include <rpm/header.h>
}
using namespace sim;

namespace {
struct DbPkg { MPkg m; std::set<int> missing; std::vector<Str> paths; bool has_epoch = true; };
struct Iter { std::vector<size_t> hits; size_t at = 0; Header cur = nullptr; };
std::vector<DbPkg> db;
std::set<void*> live_ts; std::set<Iter*> live_iters;
std::vector<size_t> returned;             // what the iteration really handed out
bool config_failed, init_failed, cut_short;
long stage;                               // 0 nothing, 1 configured
bool hurt_header;                         // a header lost a tag in transit
}
static Header make_header(const DbPkg& p) {
    Out o;
    Header h = headerNew();
    auto str = [&](rpmTag t, const char* k) { if (p.m.s.count(k) && !p.missing.count(t)) headerPutString(h, t, p.m.s.at(k).c_str()); };
    str(RPMTAG_NAME, "name"); str(RPMTAG_VERSION, "version"); str(RPMTAG_RELEASE, "release"); str(RPMTAG_ARCH, "architecture");
    uint32_t e = (uint32_t)p.m.n.at("epoch"), t = (uint32_t)p.m.n.at("install_time");
    if (p.has_epoch && !p.missing.count(RPMTAG_EPOCH)) headerPutUint32(h, RPMTAG_EPOCH, &e, 1);
    if (!p.missing.count(RPMTAG_INSTALLTIME)) headerPutUint32(h, RPMTAG_INSTALLTIME, &t, 1);
    headerPutString(h, RPMTAG_SUMMARY, "a package");
    return h;
}
extern "C" {
int __wrap_rpmReadConfigFiles(const char*, const char*) {
    if (fault(F_RPM_ERR)) { config_failed = true; ev("rpm configuration unreadable"); return -1; }
    stage = 1;
    return 0;
}
rpmts __wrap_rpmtsCreate(void) { Out o; void* t = malloc(64); live_ts.insert(t); return (rpmts)t; }
rpmts __wrap_rpmtsFree(rpmts ts) {
    Out o;
    if (!ts) return nullptr;
    if (!live_ts.erase(ts)) violation("handle:ts", "a transaction set is released that is not live");
    free(ts);
    return nullptr;
}
int __wrap_rpmtsOpenDB(rpmts ts, int) { if (!live_ts.count(ts)) violation("handle:ts", "a dead transaction set is used"); if (fault(F_RPM_ERR)) { init_failed = true; return 1; } return 0; }
int __wrap_rpmtsCloseDB(rpmts ts) { if (!live_ts.count(ts)) violation("handle:ts", "a dead transaction set is used"); return 0; }
rpmdbMatchIterator __wrap_rpmtsInitIterator(const rpmts ts, rpmDbiTagVal tag, const void* key, size_t len) {
    Out o;
    if (!live_ts.count(ts)) violation("handle:ts", "a dead transaction set is queried");
    if (!stage) violation("protocol", "the database is queried before the configuration was read");
    if (fault(F_RPM_ERR)) { init_failed = true; ev("database cannot be opened"); return nullptr; }
    Str k = len ? Str((const char*)key, len) : Str((const char*)key);
    std::unique_ptr<Iter> it(new Iter);
    for (size_t i = 0; i < db.size(); i++) {
        bool hit = false;
        if (tag == RPMTAG_NAME || tag == RPMDBI_NAME) hit = db[i].m.s.count("name") && db[i].m.s.at("name") == k;
        else if (tag == RPMTAG_BASENAMES || tag == RPMDBI_INSTFILENAMES) hit = std::count(db[i].paths.begin(), db[i].paths.end(), k);
        else violation("protocol", "the database is asked for index %d", (int)tag);
        if (hit) it->hits.push_back(i);
    }
    if (it->hits.empty()) return nullptr;
    Iter* r = it.release();
    live_iters.insert(r);
    return (rpmdbMatchIterator)r;
}
Header __wrap_rpmdbNextIterator(rpmdbMatchIterator mi) {
    Out o;
    if (!mi) return nullptr;
    Iter* it = (Iter*)mi;
    if (!live_iters.count(it)) violation("handle:iterator", "a dead iterator is advanced");
    if (it->cur) { headerFree(it->cur); it->cur = nullptr; }        // headers belong to the iterator
    if (it->at >= it->hits.size()) return nullptr;
    if (fault(F_RPM_SHORT)) { cut_short = true; it->at = it->hits.size(); ev("iteration ends early"); return nullptr; }
    size_t i = it->hits[it->at++];
    DbPkg p = db[i];
    if (fault(F_RPM_MISSING)) {
        static const int tags[] = {RPMTAG_NAME, RPMTAG_VERSION, RPMTAG_RELEASE, RPMTAG_ARCH, RPMTAG_EPOCH, RPMTAG_INSTALLTIME};
        int t = tags[F(6)];
        p.missing.insert(t); ev("header %zu without tag %d", i, t);
        if (t != RPMTAG_EPOCH) hurt_header = true;
    }
    returned.push_back(i);
    it->cur = make_header(p);
    return it->cur;
}
rpmdbMatchIterator __wrap_rpmdbFreeIterator(rpmdbMatchIterator mi) {
    Out o;
    if (!mi) return nullptr;
    Iter* it = (Iter*)mi;
    if (!live_iters.erase(it)) violation("handle:iterator", "an iterator is released that is not live");
    if (it->cur) headerFree(it->cur);
    delete it;
    return nullptr;
}
int __wrap_rpmdbGetIteratorCount(rpmdbMatchIterator mi) { return mi ? (int)((Iter*)mi)->hits.size() : 0; }
}

static MPkg db_pkg() {
    static const char *names[] = {"bash", "kernel", "glibc", "python3-libs"}, *vers[] = {"1.0", "1.1", "5.14"}, *rels[] = {"1.fc40", "2.fc40"}, *archs[] = {"x86_64", "i686", "noarch"};
    MPkg m;
    m.s["name"] = W(8) ? names[W(4)] : gen_ident(); m.s["version"] = vers[W(3)]; m.s["release"] = rels[W(2)]; m.s["architecture"] = archs[W(3)];
    m.n["epoch"] = W(3) ? W(3) : gen_u32(); m.n["install_time"] = gen_u32(); m.n["role"] = 0;
    return m;
}
static void lookup(const char* const* paths, size_t npaths) {
    bool by_path = W(2);
    Str key;
    if (by_path) key = W(6) ? paths[W(npaths)] : "/no/such/file";
    else key = W(6) && db.size() ? db[W(db.size())].m.s["name"] : Str("nosuchpackage");
    std::vector<size_t> match;
    for (size_t i = 0; i < db.size(); i++)
        if (by_path ? std::count(db[i].paths.begin(), db[i].paths.end(), key) > 0 : db[i].m.s["name"] == key) match.push_back(i);
    returned.clear(); config_failed = init_failed = cut_short = hurt_header = false; stage = 0;
    char* err = nullptr;
    char* k = strdup(key.c_str());
    size_t live = ledger_live();
    uint32_t ff = faults_fired();
    struct sr_rpm_package* p = by_path ? LIB(sr_rpm_package_get_by_path(k, &err)) : LIB(sr_rpm_package_get_by_name(k, &err));
    memset(k, 'X', strlen(k)); free(k);                    // the result may not point into the question
    bool faulty = faults_fired() != ff;
    ev("%s %s: %d package(s)%s", by_path ? "owner of" : "package", key.c_str(), p ? sr_rpm_package_count(p) : 0, err ? " and a message" : "");
    if (live_iters.size()) violation("leak:iterator", "a lookup leaves a database iterator open");
    if (live_ts.size()) violation("leak:ts", "a lookup leaves a transaction set open");
    if (!p) {
        bool allowed = false;
        if (match.empty() || init_failed) allowed = true;     // nothing found: no package, with or without a message
        if (cut_short && returned.empty()) allowed = true;
        if (err && (config_failed || hurt_header)) allowed = true;
        for (size_t i : returned) if (err && db[i].missing.size()) allowed = true;
        if (!allowed) violation(err ? "refused" : "silent", "%s %s has %zu match(es) in a %s database but the lookup %s", by_path ? "file" : "package", key.c_str(), match.size(), faulty ? "failing" : "healthy", err ? (Str("failed: ") + err).c_str() : "returned nothing without a message");
        if ((config_failed || hurt_header) && !err) violation("silent", "a failing lookup gives no message");
    } else {
        if (err) violation("both", "a lookup returns packages and a message: %s", err);
        auto got = pkgs_of(p);
        if (config_failed || init_failed) violation("invented", "packages are returned although the database could not be read");
        if (!cut_short && returned.size() != match.size()) violation("incomplete", "%zu of %zu matching packages were read", returned.size(), match.size());
        std::vector<MPkg> want;
        for (size_t i : returned) {
            MPkg w = db[i].m;
            if (!db[i].has_epoch) w.n["epoch"] = 0;
            for (int t : db[i].missing) if (t != RPMTAG_EPOCH) violation("invented", "a package without tag %d is returned", t); else w.n["epoch"] = 0;
            want.push_back(w);
        }
        if (hurt_header) violation("invented", "a header without a required tag gave a package");
        if (got.size() == want.size() && faulty) for (size_t i = 0; i < got.size(); i++) if (got[i].n["epoch"] == 0) want[i].n["epoch"] = 0;   // its epoch tag may be the one that was lost
        Str d = diff_pkgs(want, got);
        if (d.size()) violation("wrong", "%s %s: %s", by_path ? "owner of" : "package", key.c_str(), d.c_str());
        for (auto q = p; q; q = q->next) if (q->consistency) violation("wrong", "a looked up package carries consistency data nobody gathered");
        LIB(sr_rpm_package_free(p, true));
        probe(faulty ? "found in a failing database" : "found");
    }
    if (err) LIB(g_free(err));
    if (ledger_live() != live) violation("leak:lookup", "a lookup leaves %zd blocks", (ssize_t)(ledger_live() - live));
}

static Str opt(const MPkg& m, const char* k) { auto i = m.s.find(k); return i == m.s.end() ? Str("\x01") : i->second; }
static std::tuple<Str, Str, Str, uint64_t> ident(const MPkg& m) { return std::make_tuple(opt(m, "name"), opt(m, "version"), opt(m, "release"), m.n.at("epoch")); }
static bool same_nevra(const MPkg& a, const MPkg& b) { return ident(a) == ident(b) && opt(a, "architecture") == opt(b, "architecture"); }
static int sgn(int x) { return (x > 0) - (x < 0); }

static MPkg list_pkg() {
    MPkg m = db_pkg();
    if (W(3) == 0) m.s.erase("architecture");
    if (W(12) == 0) m.s.erase("release");
    if (W(16) == 0) m.s.erase("version");
    m.n["epoch"] = W(2) ? 0 : W(2) ? W(3) : (uint32_t)(0x7fffffffu * (uint64_t)W(3) + W(3));
    m.n["install_time"] = W(2) ? 0 : W(2) ? gen_u32() : (uint64_t)W(3) << 32;
    m.n["role"] = W(4) == 0;
    return m;
}
static void lists() {
    std::vector<MPkg> model;
    size_t live = ledger_live();
    struct sr_rpm_package* list = nullptr;
    uint32_t n = W(4) ? W(8) : W(40);
    auto check_same = [&](const char* what) {
        Str d = diff_pkgs(model, pkgs_of(list));
        if (d.size()) violation("list:wrong", "after %s: %s", what, d.c_str());
        if (LIB(sr_rpm_package_count(list)) != (int)model.size()) violation("list:count", "a list of %zu packages counts %d", model.size(), sr_rpm_package_count(list));
    };
    for (uint32_t i = 0; i < n; i++) {
        MPkg m = model.size() && W(3) == 0 ? model[W(model.size())] : list_pkg();
        if (model.size() && W(6) == 0) m.n["role"] = 1;
        if (W(8) == 0) m.s.erase("architecture");
        model.push_back(m);
        list = LIB(sr_rpm_package_append(list, pkg_to(m)));
    }
    check_same("appending");
    // comparisons
    std::vector<struct sr_rpm_package*> v;
    for (auto p = list; p; p = p->next) v.push_back(p);
    for (uint32_t k = 0; v.size() && k < 12; k++) {
        size_t a = W(v.size()), b = W(v.size());
        int c1 = LIB(sr_rpm_package_cmp_nevra(v[a], v[b])), c2 = LIB(sr_rpm_package_cmp_nevra(v[b], v[a]));
        if ((c1 == 0) != same_nevra(model[a], model[b])) violation("cmp", "comparing two packages by identity gives %d although they are %s", c1, same_nevra(model[a], model[b]) ? "the same" : "different");
        if (sgn(c1) != -sgn(c2)) violation("cmp:order", "two packages compare %d one way and %d the other way", c1, c2);
        int f1 = LIB(sr_rpm_package_cmp(v[a], v[b])), f2 = LIB(sr_rpm_package_cmp(v[b], v[a]));
        bool same = same_nevra(model[a], model[b]) && model[a].n["install_time"] == model[b].n["install_time"];
        if ((f1 == 0) != same) violation("cmp:full", "comparing two packages gives %d although they are %s", f1, same ? "the same" : "different");
        if (sgn(f1) != -sgn(f2)) violation("cmp:order", "two packages compare %d one way and %d the other way", f1, f2);
    }
    uint32_t rounds = 1 + W(3);
    bool sorted = false;
    for (uint32_t r = 0; r < rounds; r++) {
        bool sort = W(2) || r == 0;
        if (sort) {
            list = LIB(sr_rpm_package_sort(list));
            auto got = pkgs_of(list);
            auto key = [](const MPkg& m) { Str s; for (auto& x : m.s) s += x.first + "=" + x.second + ";"; for (auto& x : m.n) s += x.first + "=" + std::to_string(x.second) + ";"; return s; };
            std::multiset<Str> a, b;
            for (auto& m : model) a.insert(key(m));
            for (auto& m : got) b.insert(key(m));
            if (a != b) violation("sort:lost", "sorting %zu packages returned %zu, not the same ones", model.size(), got.size());
            for (auto p = list; p && p->next; p = p->next) if (LIB(sr_rpm_package_cmp_nevra(p, p->next)) > 0) violation("sort:order", "a sorted list is out of order");
            for (size_t i = 0; i < got.size(); i++) for (size_t j = i + 1; j < got.size(); j++) if (same_nevra(got[i], got[j])) for (size_t k = i + 1; k < j; k++) if (!same_nevra(got[i], got[k])) violation("sort:order", "two equal packages are not neighbours in a sorted list");
            model = got; sorted = true;
            ev("sorted %zu", got.size());
        } else {
            auto before = model;
            list = LIB(sr_rpm_package_uniq(list));
            auto got = pkgs_of(list);
            ev("%zu -> %zu unique", before.size(), got.size());
            if (got.size() < before.size()) probe("duplicates removed");
            // every distinct package is still there and nothing else came up
            std::map<std::tuple<Str, Str, Str, uint64_t>, std::vector<MPkg>> gb, gg;
            for (auto& m : before) gb[ident(m)].push_back(m);
            for (auto& m : got) gg[ident(m)].push_back(m);
            for (auto& g : gg) if (!gb.count(g.first)) violation("uniq:invented", "a package comes out of the list that was not in it");
            for (auto& g : gb) {
                auto it = gg.find(g.first);
                if (it == gg.end()) violation("uniq:lost", "package %s disappears from the list", std::get<0>(g.first).c_str());
                std::set<Str> ab, ag; bool null_b = false; size_t null_g = 0; bool aff_b = false, aff_g = false;
                for (auto& m : g.second) { if (m.s.count("architecture")) ab.insert(m.s["architecture"]); else null_b = true; aff_b |= m.n["role"] == 1; }
                std::map<Str, size_t> cnt;
                for (auto& m : it->second) {
                    if (m.s.count("architecture")) { ag.insert(m.s["architecture"]); cnt[m.s["architecture"]]++; } else null_g++;
                    aff_g |= m.n["role"] == 1;
                    bool time_ok = false, any_role = false;
                    for (auto& o : g.second) {
                        bool kin = !o.s.count("architecture") || !m.s.count("architecture") || o.s["architecture"] == m.s["architecture"];
                        if (kin && o.n["install_time"] == m.n["install_time"]) time_ok = true;
                        if (kin && o.n["role"] == m.n["role"]) any_role = true;
                    }
                    if (!time_ok) violation("uniq:mixed", "the remaining package has an install time none of its copies had");
                    if (!any_role) violation("uniq:mixed", "the remaining package has a role none of its copies had");
                }
                if (ab != ag) violation("uniq:arch", "package %s: %zu architectures go in, %zu come out", std::get<0>(g.first).c_str(), ab.size(), ag.size());
                if (null_g && !null_b) violation("uniq:arch", "a package loses its architecture");
                if (aff_b != aff_g) violation("uniq:role", "package %s is %s the affected one", std::get<0>(g.first).c_str(), aff_b ? "no longer" : "suddenly");
                for (auto& m : g.second) if (m.n["role"] == 1 && m.s.count("architecture")) {
                    bool ok = false;
                    for (auto& o : it->second) if (o.n["role"] == 1 && o.s.count("architecture") && o.s["architecture"] == m.s["architecture"]) ok = true;
                    if (!ok) violation("uniq:role", "package %s.%s is no longer the affected one", std::get<0>(g.first).c_str(), m.s["architecture"].c_str());
                }
                if (sorted) {
                    for (auto& c : cnt) if (c.second > 1) violation("uniq:duplicate", "package %s.%s is still there %zu times", std::get<0>(g.first).c_str(), c.first.c_str(), c.second);
                    if (null_g > 1 || (null_g && ag.size())) violation("uniq:duplicate", "package %s is still there twice", std::get<0>(g.first).c_str());
                }
                bool timed_b = false, timed_g = false;
                for (auto& m : g.second) timed_b |= m.n["install_time"] != 0;
                for (auto& m : it->second) timed_g |= m.n["install_time"] != 0;
                if (timed_b && !timed_g) violation("uniq:time", "the install time of package %s is lost", std::get<0>(g.first).c_str());
            }
            model = got;
        }
    }
    if (W(2)) {
        // two lists become one
        std::vector<MPkg> m2; struct sr_rpm_package* l2 = nullptr;
        for (uint32_t i = W(4); i; i--) { m2.push_back(list_pkg()); l2 = LIB(sr_rpm_package_append(l2, pkg_to(m2.back()))); }
        list = LIB(sr_rpm_package_append(list, l2));
        model.insert(model.end(), m2.begin(), m2.end());
        check_same("joining");
    }
    LIB(sr_rpm_package_free(list, true));
    if (ledger_live() != live) violation("leak:list", "list operations leave %zd blocks", (ssize_t)(ledger_live() - live));
}

WORLD(rpm) {
    db.clear(); live_ts.clear(); live_iters.clear();
    static const char* paths[] = {"/usr/bin/bash", "/usr/lib64/libc.so.6", "/usr/bin/python3", "/etc/passwd", "/usr/lib/.build-id"};
    uint32_t n = W(9);
    for (uint32_t i = 0; i < n; i++) {
        DbPkg p; p.m = db_pkg();
        p.has_epoch = W(4) != 0;
        for (auto x : paths) if (W(3) == 0) p.paths.push_back(x);
        if (W(16) == 0) { static const int tags[] = {RPMTAG_VERSION, RPMTAG_RELEASE, RPMTAG_ARCH, RPMTAG_INSTALLTIME}; p.missing.insert(tags[W(4)]); }
        db.push_back(p);
    }
    plan_faults({F_RPM_ERR, F_RPM_MISSING, F_RPM_SHORT}, 20);
    uint32_t ops = 1 + W(6);
    if (ops > 1) nontrivial();
    for (uint32_t k = 0; k < ops; k++) {
        uint32_t what = W(5);
        if (what < 3) lookup(paths, 5);
        else if (what == 3) lists();
        else {
            // the database changes between the lookups
            DbPkg p; p.m = db_pkg(); p.has_epoch = W(4) != 0;
            for (auto x : paths) if (W(3) == 0) p.paths.push_back(x);
            if (db.size() && W(2)) { size_t i = W(db.size()); if (W(2)) db.erase(db.begin() + i); else db[i] = p; } else db.push_back(p);
            ev("the database changes: %zu packages", db.size());
        }
        uint64_t h = db.size();
        for (size_t i : returned) h = h * 31 + hash_str(db.size() > i ? db[i].m.s["name"] : Str());
        state(h);
    }
    if (faults_fired()) nontrivial();
}
