// Independent oracles used by the executable (real-valued) postconditions.
#pragma once
#include <cmath>
#include <cstdint>
// exact integer power when it fits 2^100, else a huge value
static inline __int128 ipow_(__int128 b, uint64_t e)
{
    __int128 r = 1, lim = (__int128)1 << 100;
    if(b == 0 || b == 1) return e == 0 ? 1 : b;
    if(b == -1) return e & 1 ? -1 : 1;
    for(uint64_t k = 0; k < e; k++) { r *= b; if(r > lim || r < -lim) return lim * 8; }
    return r;
}
// signed real power with an integer exponent
static inline long double rpow_(long double b, long e)
{
    long double m = powl(b < 0 ? -b : b, (long double)e);
    return b < 0 && (e & 1) ? -m : m;
}
