// Shared by the text harnesses: exact decimal oracle (big integers), instantiations, input generation.
#pragma once
#include "inst.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <random>
#include <string>
#include <unistd.h>
#include <csignal>
using big = boost::multiprecision::cpp_int;
static long cases = 0;
static std::string cur;
static std::string show(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
extern "C" const char* __asan_default_options() { return "detect_leaks=1"; }
static void dump_at() { fflush(stdout); std::string l = "AT " + cur + "\n"; (void)!write(1, l.data(), l.size()); }
extern "C" void __asan_on_error() { dump_at(); }
extern "C" void __ubsan_on_report() { dump_at(); }
static void on_alarm(int) { static long last = -1; if (cases == last) { std::string l = "FAIL does not terminate | " + cur + "\n"; (void)!write(1, l.data(), l.size()); _exit(1); } last = cases; alarm(10); }
static void on_crash(int) { dump_at(); _exit(3); }
static void setup() { signal(SIGALRM, on_alarm); alarm(10); signal(SIGABRT, on_crash); }
[[noreturn]] static void fail(const std::string& what) { printf("FAIL %s | %s\n", what.c_str(), cur.c_str()); fflush(stdout); _exit(1); }
template <class T> static std::string str(T v) { return big((std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>)v).str(); }

// the written number of a maximal prefix  -? digits* (. digits*)?
struct Written { bool neg = false; big mag = 0; big den = 1; size_t end = 0; size_t fdig = 0; bool dot = false; };
static Written read_prefix(const std::string& s)
{
    Written w;
    size_t p = 0;
    if (p < s.size() && s[p] == '-') { w.neg = true; p++; }
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') w.mag = w.mag * 10 + (s[p++] - '0');
    if (p < s.size() && s[p] == '.')
    {
        p++; w.dot = true;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') { w.mag = w.mag * 10 + (s[p++] - '0'); w.den *= 10; w.fdig++; }
    }
    w.end = p;
    return w;
}
template <class N> struct TI;
template <class T_, class I_, unsigned f_, bool r_> struct TI<eirin::fixed_num<T_, I_, f_, r_>> { using T = T_; using I = I_; static constexpr unsigned f = f_; };
template <class N> static big lo() { return big((__int128)std::numeric_limits<typename TI<N>::T>::min()); }
template <class N> static big hi() { return big((unsigned long long)std::numeric_limits<typename TI<N>::T>::max()); }
// is the written number, truncated towards zero to the grid, representable?
template <class N> static bool in_range(const Written& w)
{
    big t = (w.mag << TI<N>::f) / w.den;
    return w.neg ? -t >= lo<N>() : t <= hi<N>();
}
// only representable thanks to the truncation of the fraction: either answer is right
template <class N> static bool edge(const Written& w) { big t = (w.mag << TI<N>::f) / w.den; return w.neg && -t < lo<N>() && -t > lo<N>() - 11; }
// number of fraction digits that are certainly taken into account
template <class N> static size_t exact_digits()
{
    big m = ((big(1) << TI<N>::f) - 1) / 10; size_t k = 1; big p = 1;
    while (p * 10 - 1 <= m && k < 17) { p *= 10; k++; }
    return k;
}
template <class N> static void value_ok(const Written& w, typename TI<N>::T raw)
{
    big r = big((__int128)raw);
    if (w.mag == 0) { if (r != 0) fail("value of a written zero"); return; }
    if (r != 0 && (r < 0) != w.neg) fail("sign of the value (stored raw " + r.str() + ")");
    big m = r < 0 ? -r : r;
    big exact = (w.mag << TI<N>::f);          // |written| * 2^f * den
    if (m * w.den > exact) fail("stored magnitude exceeds the written one (raw " + r.str() + ")");
    if (w.fdig <= exact_digits<N>() && m != exact / w.den) fail("short number is not truncated exactly (raw " + r.str() + ")");
    if (exact >= (m + 11) * w.den) fail("truncation error of 11 or more units (raw " + r.str() + ")");
}
static std::string digits(std::mt19937_64& g, size_t n, int mode)
{
    std::string s;
    for (size_t i = 0; i < n; i++) s += mode == 0 ? '0' : mode == 1 ? '9' : (char)('0' + g() % 10);
    return s;
}
// numbers near the limits of the type, long fractions, and damaged versions of them
template <class N> static std::string gen(std::mt19937_64& g)
{
    std::string s;
    if (g() % 2) s += '-';
    big L = (hi<N>() >> TI<N>::f);
    switch (g() % 8)
    {
    case 0: s += (L + (long)(g() % 5) - 2 < 0 ? big(0) : L + (long)(g() % 5) - 2).str(); break;
    case 1: s += digits(g, g() % 4, 0) + big(L + g() % 3).str(); break;
    case 2: s += big(big(g()) % (L + 2)).str(); break;
    case 3: s += digits(g, g() % 30, 2); break;
    case 4: s += digits(g, g() % 50, 0) + digits(g, g() % 3, 2); break;
    case 5: break;
    case 6: s += big((big(1) << (g() % 70)) + (long)(g() % 3)).str(); break;
    default: s += digits(g, g() % 3, 2);
    }
    if (g() % 4)
    {
        s += '.';
        switch (g() % 7)
        {
        case 0: break;
        case 1: s += digits(g, g() % 60, 1); break;
        case 2: s += digits(g, g() % 40, 0) + digits(g, g() % 5, 2); break;
        case 3: s += digits(g, g() % 6, 2); break;
        case 4: s += digits(g, g() % 300, 2); break;
        case 5: { big q = ((big(g() % (1 << 20)) * 10000000000000000000ull) >> 20); std::string d = q.str(); s += std::string(19 - std::min<size_t>(19, d.size()), '0') + d; break; }
        default: s += digits(g, g() % 25, 2);
        }
    }
    if (g() % 8 == 0 && !s.empty())
    {
        static const char bad[] = "+-. eE,x/:\xff\x80'\n";
        char c = g() % 10 == 0 ? '\0' : bad[g() % (sizeof bad - 1)];
        if (g() % 2) s[g() % s.size()] = c; else s.insert(s.begin() + g() % (s.size() + 1), c);
    }
    return s;
}
static const char ALPHA[] = "-.0195x";
// every string over ALPHA of length up to n
static void all(size_t n, const std::function<void(const std::string&)>& f)
{
    std::string s;
    std::function<void(size_t)> rec = [&](size_t k) { f(s); if (k == 0) return; for (const char* c = ALPHA; *c; c++) { s.push_back(*c); rec(k - 1); s.pop_back(); } };
    rec(n);
}
using f32 = eirin::fixed_num<int32_t, int64_t, 16, false>;
using f64 = eirin::fixed_num<int64_t, __int128, 32, false>;
using f32_20 = eirin::fixed_num<int32_t, int64_t, 20, false>;
using f32_8 = eirin::fixed_num<int32_t, int64_t, 8, false>;
using f32_30 = eirin::fixed_num<int32_t, int64_t, 30, false>;
using f32_24 = eirin::fixed_num<int32_t, int64_t, 24, false>;
using f64_16 = eirin::fixed_num<int64_t, __int128, 16, false>;
using f64_40 = eirin::fixed_num<int64_t, __int128, 40, false>;
using f64_62 = eirin::fixed_num<int64_t, __int128, 62, false>;
using f16_8 = eirin::fixed_num<int16_t, int32_t, 8, false>;
using f8_4 = eirin::fixed_num<int8_t, int16_t, 4, false>;
using r32 = eirin::fixed_num<int32_t, int64_t, 16, true>;
using u32_16 = eirin::fixed_num<uint32_t, uint64_t, 16, false>;
