// S04: reports travel through a chain of nodes that store, re-format, forward and
// reload them, with losses, cuts, duplications and damage in transit.
#include "model.h"
extern "C" {
#include "utils.h"
}
using namespace sim;

static Str to_json_checked(struct sr_report* r, const MReport& truth, const JVal& expect, bool auth_order, const char* where) {
    char* j = LIB(sr_report_to_json(r));
    if (!j) violation("report:no-json", "%s: serialisation returned nothing", where);
    Str text(j);
    LIB(g_free(j));
    JVal got;
    Str err;
    if (!json_parse(text, &got, &err)) violation("report:not-json", "%s: the %s report is not well-formed JSON: %s", where, type_name(truth.type), err.c_str());
    JVal* reason = got.get("reason");
    if (!reason || reason->t != JVal::STR) violation("report:no-reason", "%s: no reason string", where);
    if (truth.has_trace) {
        Str want = reason_of(truth.trace);
        if (!want.empty() && want != reason->s) violation("report:wrong-reason", "%s: reason '%s' instead of '%s'", where, show(reason->s).c_str(), show(want).c_str());
    }
    for (size_t i = 0; i < got.o.size(); i++) if (got.o[i].first == "reason") { got.o.erase(got.o.begin() + i); break; }
    Str d = json_diff(expect, got);
    if (!d.empty()) violation("report:wrong-json", "%s: %s", where, d.c_str());
    MReport now = report_of(r);
    d = diff(truth, now, auth_order);
    if (!d.empty()) violation("report:serialising-changes", "%s: writing the report changed it: %s", where, d.c_str());
    return text;
}
static void must_refuse(const Str& text, const char* what) {
    char* err = nullptr;
    struct sr_report* r = LIB(sr_report_from_json_text(text.c_str(), &err));
    if (r) violation(Str("report:accepted-") + what, "a copy that was %s was accepted: %s", what, show(text, 400).c_str());
    if (!err || !*err) violation("report:no-message", "a copy that was %s was refused without a message", what);
    LIB(g_free(err));
    // a caller that is not interested in the message
    r = LIB(sr_report_from_json_text(text.c_str(), nullptr));
    if (r) violation(Str("report:accepted-") + what, "accepted on the second delivery");
}
// nodes whose type the reader requires
static void typed_nodes(JVal& v, const Str& path, std::vector<std::pair<Str, JVal*>>& out) {
    if (path == ".reason" || path == ".os.desktop" || path == ".os.variant" || path == ".os.cpe") return;
    if (path.compare(0, 6, ".auth.") == 0) return;
    out.push_back({path, &v});
    if (v.t == JVal::OBJ) for (auto& m : v.o) typed_nodes(m.second, path + "." + m.first, out);
    if (v.t == JVal::ARR) for (size_t i = 0; i < v.a.size(); i++) typed_nodes(v.a[i], path + "[" + std::to_string(i) + "]", out);
}
static JVal other_type(const JVal& v) {
    std::vector<JVal> c;
    JVal n; c.push_back(n);
    if (v.t != JVal::STR) c.push_back(JVal::str("1"));
    if (v.t != JVal::NUM) c.push_back(JVal::num(1));
    if (v.t != JVal::BOOL) c.push_back(JVal::boolean(true));
    if (v.t != JVal::ARR) c.push_back(JVal::arr());
    if (v.t != JVal::OBJ) c.push_back(JVal::obj());
    if (v.t == JVal::NUM) { JVal d = JVal::num(1); d.s = "1.5"; c.push_back(d); }
    return c[F((uint32_t)c.size())];
}

WORLD(report) {
    int type = W(12) == 11 ? SR_REPORT_INVALID : gen_type(false);
    MReport truth = gen_report(type);
    bool no_trace = type != SR_REPORT_INVALID && W(25) == 24;
    if (no_trace) { truth.has_trace = false; truth.trace = MTrace(); probe("report_without_trace"); }
    ev("report %s threads %zu pkgs %zu auth %zu", type_name(type), truth.trace.t.size(), truth.pkgs.size(), truth.auth.size());
    state(model_hash(truth.trace) ^ hash_str(truth.s["component_name"]) ^ truth.pkgs.size());
    JVal expect = jval_of(truth);
    Out dummy; (void)dummy;
    struct sr_report* r = LIB(report_to(truth));
    Str text = to_json_checked(r, truth, expect, true, "origin");
    LIB(report_free_all(r));
    if (no_trace) return; // read back it has an (empty) stack trace; only writing is specified
    plan_faults({F_OPEN_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_WRITE_ERR, F_WRITE_EINTR, F_WRITE_SHORT, F_DISK_FULL, F_CLOSE_ERR, F_CRASH,
                 F_MSG_LOSS, F_MSG_DUP, F_TEAR, F_TYPE_CHANGE, F_REFORMAT, F_EXTRA_MEMBER, F_REORDER_MEMBER, F_BITFLIP, F_POWER_LOSS}, 10);
    bool auth_order = true, reformatted = false;
    Str wire = text;
    uint32_t hops = 1 + W(4);
    for (uint32_t h = 0; h < hops; h++) {
        char where[32];
        snprintf(where, sizeof where, "hop %u", h);
        if (W(2)) { // stored on this node's disk, reloaded after a restart
            Str old = W(2) ? wire : Str("{}");
            fs.put("/var/spool/report.json", old);
            for (int attempt = 0;; attempt++) {
                if (attempt == 4) no_faults();
                bool ok = false;
                char* err = nullptr;
                bool alive = process_life([&] { ok = LIB(sr_string_to_file("/var/spool/report.json", (char*)wire.c_str(), &err)); });
                if (alive && err) LIB(g_free(err));
                Str disk = fs.get("/var/spool/report.json");
                if (!alive && fault(F_POWER_LOSS)) { disk.resize(F((uint32_t)disk.size() + 1)); fs.put("/var/spool/report.json", disk); ok = false; }
                if (!ok && disk != old && disk != wire && wire.compare(0, disk.size(), disk) == 0) {
                    // what a restart finds is a torn copy
                    probe("torn_copy_reloaded");
                    count_fault(F_TEAR);
                    ev("torn copy of %zu of %zu bytes", disk.size(), wire.size());
                    must_refuse(disk, "cut");
                }
                if (!ok) continue;
                err = nullptr;
                char* back = LIB(sr_file_to_string("/var/spool/report.json", &err));
                if (!back) { LIB(g_free(err)); continue; }
                if (wire != back) violation("report:store-changes", "the stored copy differs from what was stored");
                LIB(g_free(back));
                break;
            }
        }
        if (fault(F_REFORMAT) || fault(F_REORDER_MEMBER) || fault(F_EXTRA_MEMBER)) {
            JVal v;
            Str err;
            json_parse(wire, &v, &err);
            JStyle st;
            st.ws = F(3);
            st.esc = F(3);
            st.shuffle = F(2);
            st.extra = F(2) ? 200 : 0;
            if (st.shuffle) auth_order = false;
            wire = json_write(v, st);
            reformatted = true;
            ev("%s reformatted ws %d esc %d shuffle %d extra %d", where, st.ws, st.esc, st.shuffle, st.extra);
            probe("reformatted");
        }
        if (fault(F_TEAR)) {
            size_t end = wire.find_last_of('}');
            size_t cut = F((uint32_t)end + 1);
            ev("cut at %zu of %zu", cut, wire.size());
            must_refuse(wire.substr(0, cut), "cut");
        }
        if (fault(F_TYPE_CHANGE)) {
            JVal v;
            Str err;
            json_parse(wire, &v, &err);
            std::vector<std::pair<Str, JVal*>> nodes;
            typed_nodes(v, "", nodes);
            // extra members of other nodes are not read
            std::vector<std::pair<Str, JVal*>> known;
            for (auto& n : nodes) if (n.first.find(".x_extra") == Str::npos && n.first.find(".note") == Str::npos && n.first.find(".frame_no") == Str::npos && n.first.find(".vendor") == Str::npos && n.first.find(".x") == Str::npos) known.push_back(n);
            auto& pick_ = known[F((uint32_t)known.size())];
            JVal nv = other_type(*pick_.second);
            if (type == SR_REPORT_INVALID && pick_.first.compare(0, 9, ".problem.") == 0 && pick_.first != ".problem.type") nv = *pick_.second;
            else {
                ev("type of %s changed to %d", pick_.first.c_str(), nv.t);
                *pick_.second = nv;
                Str t = json_write(v, JStyle());
                char cls[64];
                snprintf(cls, sizeof cls, "retyped");
                char* e = nullptr;
                struct sr_report* rr = LIB(sr_report_from_json_text(t.c_str(), &e));
                if (rr) violation("report:accepted-retyped", "a copy whose '%s' has the wrong type was accepted", pick_.first.c_str());
                if (t != "null" && (!e || !*e)) violation("report:no-message", "a copy whose '%s' has the wrong type was refused without a message", pick_.first.c_str());
                if (e) LIB(g_free(e));
                probe("type_changed");
            }
        }
        if (fault(F_BITFLIP)) {
            Str bad = wire;
            uint32_t n = 1 + F(4);
            for (uint32_t i = 0; i < n; i++) bad[F((uint32_t)bad.size())] ^= 1 << F(8);
            bad = bad.c_str();
            char* buf = (char*)malloc(bad.size() + 1);
            memcpy(buf, bad.c_str(), bad.size() + 1);
            char* e = nullptr;
            struct sr_report* rr = LIB(sr_report_from_json_text(buf, &e));
            free(buf);
            if (rr) { char* j = LIB(sr_report_to_json(rr)); LIB(g_free(j)); LIB(report_free_all(rr)); }
            else if (!e) violation("report:no-message", "a damaged copy was refused without a message");
            if (e) LIB(g_free(e));
        }
        if (fault(F_MSG_LOSS)) { ev("%s copy lost, sent again", where); sim_time(30000000); }
        int deliveries = fault(F_MSG_DUP) ? 2 : 1;
        Str next;
        for (int k = 0; k < deliveries; k++) {
            sim_time(1000 + wire.size());
            char* err = nullptr;
            char* buf = (char*)malloc(wire.size() + 1);
            memcpy(buf, wire.c_str(), wire.size() + 1);
            struct sr_report* in = LIB(sr_report_from_json_text(buf, W(8) == 7 ? nullptr : &err));
            if (memcmp(buf, wire.c_str(), wire.size() + 1)) violation("report:reader-changes-input", "reading changed the text");
            free(buf);
            if (!in) violation("report:refused", "%s: an intact copy was refused: %s", where, err ? err : "(no message)");
            if (err) violation("report:message-on-success", "%s: a report and a message '%s'", where, err);
            Str d = diff(truth, report_of(in), auth_order);
            if (!d.empty()) violation("report:changed", "%s: %s", where, d.c_str());
            next = to_json_checked(in, truth, expect, auth_order, where);
            LIB(report_free_all(in));
        }
        if (auth_order && next != text) violation("report:rewrite-differs", "%s: the report is the same but its text is not: '%s' became '%s'", where, show(text, 200).c_str(), show(next, 200).c_str());
        wire = next;
        (void)reformatted;
    }
    if (hops > 1) nontrivial();
}
