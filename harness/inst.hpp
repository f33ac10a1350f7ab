// Entry points for the verifier and for native replay: thin extern "C" wrappers over the public API of /repo's headers.
// Nothing of the library is restated here; every wrapper calls the real function.
#pragma once
#include <cstdint>
#include <cstddef>
#include <eirin/fixed.hpp>
#include <eirin/math.hpp>
#define W extern "C" __attribute__((used, noinline))
template <class N> static inline N mk(typename N::value_type v) { return N::from_internal_value(v); }
typedef __int128 i128;
