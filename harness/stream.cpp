// C18 / C19: stream extraction and insertion.
#include "text.hpp"
#include <iostream>
#include <sstream>
using namespace eirin;
template <class N> static N sentinel() { return N::from_internal_value((typename TI<N>::T)0x5a5a5a5a5a5a5a5aull); }
template <class N, class C> static void in(const std::string& s)
{
    cases++; cur = std::string(sizeof(C) > 1 ? "wide " : "") + "operator>> " + show(s);
    Written w = read_prefix(s);
    if (sizeof(C) > 1) for (char c : s) if (c & 0x80) return;
    std::basic_istringstream<C> is(std::basic_string<C>(s.begin(), s.end()));
    N v = sentinel<N>();
    is >> v;
    bool bad = is.fail();
    bool nodigits = true;
    for (size_t i = 0; i < w.end; i++) if (s[i] >= '0' && s[i] <= '9') nodigits = false;
    is.clear();
    std::basic_string<C> rest(std::istreambuf_iterator<C>(is), {});
    std::string r(rest.begin(), rest.end());
    if (r != s.substr(w.end)) fail("consumed something else than the number, rest " + show(r));
    bool keep = v.internal_value() == sentinel<N>().internal_value();
    if (s.empty()) { if (!keep || !bad) fail("empty input must fail and keep the variable"); return; }
    if (nodigits) { if (!keep && (bad || v.internal_value() != 0)) fail("no number: variable changed"); return; }
    if (edge<N>(w)) { if (bad && !keep) fail("variable changed on failure"); return; }
    if (bad == in_range<N>(w)) fail(bad ? "stream failed for a number in range" : "stream good for a number out of range");
    if (bad) { if (!keep) fail("variable changed on failure"); }
    else value_ok<N>(w, v.internal_value());
}
template <class N> static void chain(const std::string& a, const std::string& b)
{
    cases++; cur = "operator>> twice " + show(a + " " + b);
    std::istringstream is(a + " " + b);
    N v = sentinel<N>(), u = sentinel<N>();
    is >> v;
    if (is.fail()) { is >> u; if (u.internal_value() != sentinel<N>().internal_value()) fail("read from a failed stream changed the variable"); if (!is.fail()) fail("failure forgotten"); return; }
    if (is.eof() || read_prefix(a).end != a.size()) return;
    is.get(); is >> u;
    Written w = read_prefix(b);
    if (!b.empty() && w.end && !edge<N>(w) && in_range<N>(w) && (is.fail() || (value_ok<N>(w, u.internal_value()), false))) fail("second number");
}
template <class N> static void run_in(size_t len, long rnd, uint64_t seed)
{
    all(len, [](const std::string& s) { in<N, char>(s); });
    all(3, [](const std::string& s) { in<N, wchar_t>(s); });
    std::mt19937_64 g(seed);
    for (long i = 0; i < rnd; i++) { std::string s = gen<N>(g); in<N, char>(s); if (i % 8 == 0) { in<N, wchar_t>(s); chain<N>(s, gen<N>(g)); } }
}
// ---- output
template <class N> static std::string expand(typename TI<N>::T raw, int base, bool up)
{
    const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef";
    big v = big((__int128)raw); std::string s;
    bool neg = v < 0; if (neg) v = -v;
    big ip = v >> TI<N>::f, fr = v - (ip << TI<N>::f), one = big(1) << TI<N>::f;
    do { s.insert(s.begin(), d[(int)(ip % base)]); ip /= base; } while (ip != 0);
    if (neg) s.insert(s.begin(), '-');
    if (fr != 0) { s += '.'; while (fr != 0) { fr *= base; s += d[(int)(fr / one)]; fr %= one; } }
    return s;
}
template <class N> static void out(typename TI<N>::T raw)
{
    static std::ostringstream os;
    for (int k = 0; k < 6; k++)
    {
        cases++; cur = "operator<< raw " + str(raw) + " mode " + std::to_string(k);
        int base = k < 2 ? 10 : k < 4 ? 16 : k == 4 ? 8 : 2; bool up = k == 1 || k == 3;
        os.str(""); os.clear();
        os.flags(std::ios_base::fmtflags{});
        if (base == 10) os.setf(std::ios_base::dec); if (base == 16) os.setf(std::ios_base::hex); if (base == 8) os.setf(std::ios_base::oct);
        if (up) os.setf(std::ios_base::uppercase);
        os << N::from_internal_value(raw);
        std::string e = expand<N>(raw, base, up);
        if (os.str() != e) fail("wrote " + show(os.str()) + " instead of " + show(e));
        if (!os.good()) fail("stream not good");
        if (k == 0)
        {
            std::istringstream is(e); N v = sentinel<N>(); is >> v;
            big d = big((__int128)raw) - big((__int128)v.internal_value());
            if (is.fail() || d > 10 || d < -10) fail("text does not read back: " + e);
            char buf[300]; char* end = N::copy_as_chars_to(N::from_internal_value(raw), buf);
            if (std::string(buf, end) != e) fail("copy_as_chars_to wrote " + show(std::string(buf, end)));
        }
    }
}
template <class N> static void run_out(long rnd, uint64_t seed)
{
    using T = typename TI<N>::T;
    std::mt19937_64 g(seed);
    { std::ostringstream os; os << N::from_internal_value((T)3); if (os.str() != expand<N>((T)3, 10, false)) { cur = "default stream"; fail("wrote " + os.str()); } }
    if (sizeof(T) <= 2) { for (long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); v++) out<N>((T)v); return; }
    for (int k = 0; k < (int)sizeof(T) * 8; k++) for (long d = -3; d <= 3; d++) { out<N>((T)(((uint64_t)1 << k) + (uint64_t)d)); out<N>((T)((uint64_t)d - ((uint64_t)1 << k))); }
    for (long i = 0; i < rnd; i++) out<N>((T)((int64_t)g() >> (g() % 64)));
}
int main(int argc, char** argv)
{
    setup();
    std::string dir = argv[1], which = argv[2]; bool th = !strcmp(argv[3], "thorough"); uint64_t seed = atol(argv[4]);
    size_t len = th ? 6 : 5; long rnd = th ? 500000 : 30000;
    if (dir == "in")
    {
        if (which == "a") { run_in<f32>(len, rnd, seed); run_in<f64>(4, rnd, seed); }
        if (which == "b") { run_in<f16_8>(len, rnd, seed); run_in<f32_24>(4, rnd, seed); run_in<u32_16>(4, rnd, seed); }
        if (which == "c") { run_in<f32_20>(4, rnd, seed); run_in<f64_40>(4, rnd, seed); run_in<f64_16>(4, rnd, seed); run_in<r32>(4, rnd / 2, seed); }
    }
    else
    {
        if (which == "a") { run_out<f32>(rnd * 2, seed); run_out<r32>(rnd / 4, seed); }
        if (which == "b") { run_out<f64>(rnd, seed); run_out<f64_16>(rnd / 4, seed); }
        if (which == "c") { run_out<f16_8>(rnd, seed); run_out<f8_4>(rnd, seed); run_out<u32_16>(rnd / 2, seed); run_out<f32_8>(rnd / 2, seed); }
        if (which == "d") { run_out<f32_20>(rnd / 2, seed); run_out<f32_30>(rnd / 2, seed); run_out<f64_40>(rnd / 2, seed); run_out<f64_62>(rnd / 2, seed); }
    }
    printf("OK %ld\n", cases);
}
