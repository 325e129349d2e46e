// Simulated processes and core dumps behind the unwinder (libdwfl) seam.
#pragma once
#include "text.h"
namespace sim {
struct USym { uint64_t start, size; Str name, shown; };
struct UMod {
    uint64_t start = 0, end = 0;
    Str name, path;               // module name; path of its ELF ("" when it cannot be found)
    Str build_id;                 // raw bytes, "" when there is none
    bool exe = false;             // found through the find_elf callback of the library
    std::vector<USym> syms;
};
struct UFrame { uint64_t pc; bool activation; };
struct UThread { int tid; std::vector<UFrame> f; };
struct UImage {
    int id = 0;
    Str exe;                      // path of the executable
    int sig = 0;
    std::vector<UMod> mods;
    std::vector<UThread> t;
    Str core;                     // bytes of the core dump
    std::vector<size_t> note_end; // thread i's PRSTATUS note lies completely before this offset
    bool exe_gone = false;        // the executable is not there any more when the dump is read
};
// Draws a crashed process; its executable is put on the simulated disk.
UImage& gen_image(const Str& exe);
void unwind_reset();
void stdin_closed();
// A process that waits in the kernel for its crash handler to finish reading the core.
void crash_process(UImage& img, int tid);
MFrame resolved(const UImage& img, uint64_t pc, bool activation);
std::vector<MFrame> expected_frames(const UImage& img, const UThread& t);
MTrace expected_trace(const UImage& img);
size_t live_sessions();
void set_details_hurt(bool);
void unwind_process_died();      // the simulated process died: its sessions and images' open handles are gone
bool details_hurt();              // a fault hit a step that only supplies details of a frame
struct Delivered { std::vector<UFrame> f; bool cut = false; bool stopped = false; };
std::map<int, Delivered>& delivered();   // by tid, since the last reset_delivered()
void reset_delivered();
// "" when got is what the unwinder delivered (details may be missing when a fault hit them)
Str check_unwound(const UImage& img, const UThread& t, const MThread& got);
}
