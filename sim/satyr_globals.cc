#include "satyr_globals.h"
#include "core.h"
extern "C" {
#include <libelf.h>
extern bool sr_debug_parser;
unsigned __real_elf_version(unsigned);
Elf* __real_elf_begin(int, Elf_Cmd, Elf*);
}
// libelf refuses to work in a process that has not told it the version it was built for
static bool elf_told, elf_told_early;
static bool in_run;
extern "C" unsigned __wrap_elf_version(unsigned v) {
    if (v == EV_CURRENT) { elf_told = true; if (!in_run) elf_told_early = true; }
    return __real_elf_version(v);
}
bool elf_version_told() { return elf_told; }
void reset_library_globals() { sr_debug_parser = false; elf_told = elf_told_early; }
void init_library() { __real_elf_version(EV_CURRENT); in_run = true; }
