// A problem directory on the simulated disk and what the documentation says it means.
#pragma once
#include "text.h"
#include "damage.h"
namespace sim {
struct ProbDir {
    Str path;
    int type = 0;                 // what `type` says (SR_REPORT_INVALID: unsupported)
    std::map<Str, Str> files;
    // what the files mean
    bool must_fail = false;       // a required item is missing or invalid
    Str why;
    bool may_fail = false;        // validity of some content is not specified
    MReport want;
    Str desktop_alt;              // (unused)
    bool packaged = false;
    MObj os_info, os_fallback;    // what each OS source says
    bool os_info_ok = false, os_fallback_ok = false;
    std::vector<MPkg> dso, main_pkg, interp;
    std::set<Str> optional_broken; // optional files whose content is not specified
    Str trace_file;
    void write() const;
};
ProbDir gen_probdir(const Str& path, int type /* 0: draw */, bool perfect);
// Checks one conversion result; hurt = what faults hit during it.
void check_report_of_dir(const ProbDir& d, struct sr_report* r, const char* err, const std::set<Str>& hurt, const char* what);
Str check_packages(const ProbDir& d, const std::vector<MPkg>& got, const std::set<Str>& hurt);
bool any_hurt(const ProbDir& d, const std::set<Str>& hurt);
Str check_os(const ProbDir& d, const MObj& got, const std::set<Str>& hurt);
}
