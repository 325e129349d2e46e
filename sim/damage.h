#pragma once
#include "text.h"
namespace sim {
Str damage_bytes(const Str& s);                  // tears, flips, lost/swapped/duplicated blocks (fault tape)
void use_fully(struct sr_stacktrace* st);        // every documented use of a stack trace; frees nothing
const std::vector<std::pair<Str, Str>>& corpus();
}
