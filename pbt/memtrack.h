// Interposed allocator for the library under test (linked with --wrap).
#pragma once
#include <cstddef>
#include <cstdint>
void mt_reset();                 // forget everything, no faults
void mt_fail_at(long n);         // the n-th allocation from now (0-based) fails; -1 none
void mt_fail_from(long n);       // all allocations from the n-th on fail
void mt_fail_off();
long mt_count();                 // allocations attempted since mt_reset
long mt_live();                  // live allocations
long mt_bad_frees();             // frees of pointers that are not live
uint64_t mt_faults();            // injected faults delivered
void mt_poison(uint8_t b);       // byte new memory is filled with
