// Reference model of crash data: plain values, independent of the library.
#pragma once
#include "core.h"
#include "jsonv.h"
extern "C" {
#include "report_type.h"
#include "stacktrace.h"
#include "thread.h"
#include "frame.h"
#include "report.h"
#include "rpm.h"
#include "operating_system.h"
#include "location.h"
#include "core/stacktrace.h"
#include "core/thread.h"
#include "core/frame.h"
#include "gdb/stacktrace.h"
#include "gdb/thread.h"
#include "gdb/frame.h"
#include "gdb/sharedlib.h"
#include "java/stacktrace.h"
#include "java/thread.h"
#include "java/frame.h"
#include "koops/stacktrace.h"
#include "koops/frame.h"
#include "python/stacktrace.h"
#include "python/frame.h"
#include "ruby/stacktrace.h"
#include "ruby/frame.h"
#include "js/stacktrace.h"
#include "js/frame.h"
#include "js/platform.h"
}
#include <glib.h>
namespace sim {
struct MObj {
    std::map<Str, Str> s;          // strings that are present
    std::map<Str, uint64_t> n;     // numbers and flags
    bool operator==(const MObj& o) const { return s == o.s && n == o.n; }
};
struct MFrame : MObj {};
struct MThread : MObj { std::vector<MFrame> f; };
struct MTrace : MObj {
    int type = 0;
    std::vector<MThread> t;
    int crash = -1;                // crash thread (core)
    std::vector<Str> modules;      // koops
    bool has_modules = false;
    std::vector<MObj> libs;        // gdb
    std::shared_ptr<MFrame> crash_frame; // gdb
};
struct MPkg : MObj {};
struct MReport : MObj {
    int type = 0;
    bool has_os = false;
    MObj os;
    std::vector<MPkg> pkgs;
    bool has_trace = false;
    MTrace trace;
    std::vector<std::pair<Str, Str>> auth;   // in list order
};
static const uint64_t NOADDR = ~0ULL;
MFrame frame_of(const struct sr_frame* f);
MThread thread_of(struct sr_thread* t);
MTrace trace_of(struct sr_stacktrace* st);
MReport report_of(struct sr_report* r);
MPkg pkg_of(struct sr_rpm_package* p);
std::vector<MPkg> pkgs_of(struct sr_rpm_package* p);
MObj os_of(struct sr_operating_system* os);
struct sr_frame* frame_to(int type, const MFrame& m);         // library objects built through plain field writes
struct sr_thread* thread_to(int type, const MThread& m);
struct sr_stacktrace* trace_to(const MTrace& m);
struct sr_report* report_to(const MReport& m);
struct sr_rpm_package* pkg_to(const MPkg& m);
struct sr_operating_system* os_to(const MObj& m);
void report_free_all(struct sr_report* r);                      // including the reporter strings a reader allocated
Str diff(const MObj& want, const MObj& got, const Str& path);
Str diff(const MThread& want, const MThread& got, const Str& path);
Str diff(const MTrace& want, const MTrace& got, const Str& path = "trace");
Str diff(const MReport& want, const MReport& got, bool auth_order = true);
Str diff_pkgs(const std::vector<MPkg>& want, const std::vector<MPkg>& got, const Str& path = "packages");
JVal jval_of(const MTrace& m);
JVal jval_of(const MReport& m);                                // "reason" left out
Str reason_of(const MTrace& m);                                // documented one-line reason ("" when not modelled)
// generators (workload tape)
Str gen_text(int kind = -1);                                   // arbitrary non-empty-ish UTF-8 text, JSON specials included
Str gen_ident();
Str gen_path();
uint64_t gen_u64();
uint32_t gen_u32();
void noise_frame(Str* function, Str* file);                      // functions normalization knows about
MFrame gen_frame(int type);
MTrace gen_trace(int type, uint32_t max_threads = 4, uint32_t max_frames = 6);
MPkg gen_pkg();
MReport gen_report(int type);
int gen_type(bool with_gdb);
uint64_t model_hash(const MTrace& m);
const char* type_name(int type);
extern const char* taint_names[];   // member names in the documented order
}
