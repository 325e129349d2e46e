#pragma once
// Library-wide mutable state the simulator resets at the start of every run so
// that a run is a pure function of its tapes.
void reset_library_globals();
void init_library();
bool elf_version_told();
