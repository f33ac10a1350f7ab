// C20: std::format of fixed-point values against an exact model of the documented grammar.
#include "text.hpp"
#include <eirin/io/format.hpp>
#include <format>
using namespace eirin;
struct Spec { char fill = ' ', align = 0, sign = '-'; bool alt = false, zero = false; long width = -1, prec = -2; char type = 0; };
static std::string write(const Spec& s)
{
    std::string t;
    if (s.align) { if (s.fill != ' ') t += s.fill; t += s.align; }
    if (s.sign != '-') t += s.sign;
    if (s.alt) t += '#';
    if (s.zero) t += '0';
    if (s.width > 0) t += std::to_string(s.width);
    if (s.prec > -2) { t += '.'; if (s.prec >= 0) t += std::to_string(s.prec); }
    if (s.type) t += s.type;
    return t;
}
static std::string radix(big v, int base, bool up)
{
    const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef"; std::string s;
    do { s.insert(s.begin(), d[(int)(v % base)]); v /= base; } while (v != 0);
    return s;
}
template <class N> static std::string model(const Spec& s, typename TI<N>::T raw)
{
    char type = s.type ? s.type : 'g';
    big v = big((__int128)raw); bool neg = v < 0; if (neg) v = -v;
    std::string pre = neg ? "-" : s.sign == '-' ? "" : std::string(1, s.sign), body;
    big ip = v >> TI<N>::f, fr = v - (ip << TI<N>::f), one = big(1) << TI<N>::f;
    switch (type)
    {
    case 'd': body = radix(ip, 10, false); break;
    case 'x': case 'X': body = radix(ip, 16, type == 'X'); if (s.alt) pre += type == 'X' ? "0X" : "0x"; break;
    case 'o': body = radix(ip, 8, false); if (s.alt) pre += "0"; break;
    case 'b': case 'B': body = radix(ip, 2, false); if (s.alt) pre += type == 'B' ? "0B" : "0b"; break;
    case '?': body = radix(v, 16, false); if (s.alt) pre += "0x"; break;
    default:
    {
        bool pad = type == 'f' || type == 'F';
        long p = s.prec == -2 ? 6 : s.prec < 0 ? 0 : s.prec, k = 0;
        body = radix(ip, 10, false);
        std::string ds;
        for (; k < p && fr != 0; k++) { fr *= 10; ds += (char)('0' + (int)(fr / one)); fr %= one; }
        if (pad) for (; k < p; k++) ds += '0';
        if (!ds.empty()) body += "." + ds;
    }
    }
    long w = s.width < 0 ? 0 : s.width, have = pre.size() + body.size();
    if (have >= w) return pre + body;
    if (s.zero) return pre + std::string(w - have, '0') + body;
    long n = w - have, left = s.align == '<' ? 0 : s.align == '^' ? n / 2 : n;
    return std::string(left, s.fill) + pre + body + std::string(n - left, s.fill);
}
template <class N> static void one(const Spec& s, typename TI<N>::T raw)
{
    std::string f = "{:" + write(s) + "}";
    cases++; cur = "std::format(" + show(f) + ", raw " + str(raw) + ")";
    N v = N::from_internal_value(raw);
    std::string r, e = model<N>(s, raw);
    try { r = std::vformat(f, std::make_format_args(v)); } catch (const std::exception& x) { fail(std::string("valid specification rejected: ") + x.what()); }
    if (r != e) fail("wrote " + show(r) + " instead of " + show(e));
    if (cases % 16 == 0)
    {
        std::wstring wf(f.begin(), f.end()), wr = std::vformat(wf, std::make_wformat_args(v));
        if (std::string(wr.begin(), wr.end()) != e) fail("wide text differs");
        r = std::vformat("<" + f + ">" + f, std::make_format_args(v, v));
        if (r != "<" + e + ">" + e) fail("embedded text differs: " + show(r));
        if (f == "{:}") { r = std::vformat("{}^", std::make_format_args(v)); if (r != e + "^") fail("{} differs"); }
    }
}
template <class N> static void bad(const std::string& spec)
{
    std::string f = "{:" + spec + "}";
    cases++; cur = "std::format(" + show(f) + ")";
    N v = N::from_internal_value(5);
    try { auto r = std::vformat(f, std::make_format_args(v)); fail("invalid specification accepted: " + show(r)); } catch (const std::format_error&) {}
}
static const char TY[] = "gGfFdxXobB?";
static Spec gen_spec(std::mt19937_64& g)
{
    Spec s; static const char fills[] = "*x<>^:0-+#.gd5 _";
    if (g() % 2) { s.align = "<>^"[g() % 3]; if (g() % 2) s.fill = fills[g() % (sizeof fills - 1)]; }
    s.sign = "-+ -"[g() % 4]; s.alt = g() % 2; s.zero = g() % 3 == 0;
    if (g() % 3) s.width = 1 + g() % (g() % 4 ? 40 : 300);
    if (g() % 3) s.prec = (long)(g() % (g() % 4 ? 30 : 100)) - 1;
    s.type = g() % 8 ? TY[g() % 11] : 0;
    return s;
}
template <class N> static typename TI<N>::T gen_val(std::mt19937_64& g)
{
    using T = typename TI<N>::T; uint64_t x = g();
    switch (g() % 6)
    {
    case 0: return (T)((int64_t)x >> (g() % 64));
    case 1: return (T)((x & 7) - 3 + ((uint64_t)1 << (g() % 64)));
    case 2: return (T)((x & 7) - 3 - ((uint64_t)1 << (g() % 64)));
    case 3: return (T)(x << TI<N>::f);
    case 4: return (T)(x << (g() % 64));
    default: return (T)x;
    }
}
template <class N> static void run(long rnd, bool th, uint64_t seed)
{
    using T = typename TI<N>::T;
    // every combination of the parts of the grammar
    const T vals[] = {0, 1, (T)-1, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)((uint64_t)5 << (TI<N>::f - 1)), (T)(0 - ((uint64_t)0xab << (TI<N>::f - 2)))};
    for (char fill : {' ', '*', ':', '<'}) for (char al : {'\0', '<', '>', '^'}) for (char sg : {'-', '+', ' '}) for (int alt = 0; alt < 2; alt++) for (int z = 0; z < 2; z++)
        for (long w : {-1l, 1l, 5l, 30l}) for (long p : {-2l, -1l, 0l, 3l, 40l}) for (const char* t = "gfFdxXobB?"; ; t++)
        {
            if (!(fill != ' ' && !al)) { Spec s; s.fill = fill; s.align = al; s.sign = sg; s.alt = alt; s.zero = z; s.width = w; s.prec = p; s.type = *t; for (int i = 0; i < 2; i++) one<N>(s, vals[(cases + i * 3) % 7]); }
            if (!*t) break;
        }
    for (const T v : vals) one<N>(Spec{}, v);
    for (int c = 1; c < 256; c++) if (c != '}' && c != '{' && !strchr("gGfFdxXobB?<>^+- #.0123456789", c)) { bad<N>(std::string(1, (char)c)); bad<N>("08.3" + std::string(1, (char)c)); if (th) bad<N>("+" + std::string(1, (char)c)); }
    for (const char* s : {"2147483648", "99999999999", "08589934593", ".2147483648", ".4294967299f", "10.99999999999g", "fx", "ff", "g5", "#+", "+ ", "<<<", ".5.5", "-+d", "d#"}) bad<N>(s);
    std::mt19937_64 g(seed);
    for (long i = 0; i < rnd; i++) one<N>(gen_spec(g), gen_val<N>(g));
}
int main(int argc, char** argv)
{
    setup();
    std::string which = argv[1]; bool th = !strcmp(argv[2], "thorough"); uint64_t seed = atol(argv[3]);
    long rnd = th ? 2000000 : 100000;
    if (which == "a") { run<f32>(rnd, th, seed); run<r32>(rnd / 8, th, seed); }
    if (which == "b") { run<f64>(rnd, th, seed); run<f64_40>(rnd / 8, th, seed); }
    if (which == "c") { run<f16_8>(rnd, th, seed); run<f8_4>(rnd, th, seed); run<u32_16>(rnd / 2, th, seed); }
    if (which == "d") { run<f32_20>(rnd / 2, th, seed); run<f32_30>(rnd / 2, th, seed); run<f64_62>(rnd / 4, th, seed); }
    printf("OK %ld\n", cases);
}
