#pragma once
// Common macros of the verification harnesses.  A harness only *calls* the code under
// verification: everything the verifier sees of it comes from the headers in /repo/include.
#include <cstddef>
#include <cstdint>
#include <memory>
#include <vector>
// Layout constants (no assumption on layout is written down by hand in the contracts).
#define VP_CONST(name, value) extern "C" { extern const unsigned long vpk_##name; const unsigned long vpk_##name = (value); }
#define VP_OFFSET(name, T, member) VP_CONST(name, __builtin_offsetof(T, member))
#pragma clang diagnostic ignored "-Winvalid-offsetof"
