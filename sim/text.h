// Crash texts rendered from the reference model.
#pragma once
#include "model.h"
namespace sim {
struct FPos { int t, f; size_t end; };       // frame f of thread t lies completely before `end`
struct Rendered {
    int type = 0;
    Str text;
    MTrace want;
    std::vector<FPos> pos;
    size_t begin = 0;                        // where the backtrace itself starts (noise before it)
};
Rendered render(int type);                   // draws a crash and writes it down
struct sr_stacktrace* parse_trace(int type, const char** input, struct sr_location* loc);
Str pick_str(std::initializer_list<const char*> l);
Str hex(uint64_t v);
}
