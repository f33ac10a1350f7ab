// C17: string parsers against the exact written number.
#include "text.hpp"
#include <eirin/io/parse.hpp>
using namespace eirin;
// heap copy of exactly n bytes (+1 terminator if asked), so that any read past the end is caught
struct Buf { char* p; Buf(const std::string& s, const std::string& tail = "") { p = (char*)malloc(s.size() + tail.size() + !(s.size() + tail.size())); memcpy(p, s.data(), s.size()); memcpy(p + s.size(), tail.data(), tail.size()); } ~Buf() { free(p); } };
template <class N> static N sentinel() { return N::from_internal_value((typename TI<N>::T)0x5a5a5a5a5a5a5a5aull); }
template <class N> static void outcome(bool ok, bool expect, const Written& w, N v)
{
    if (ok != expect && !(ok && edge<N>(w))) fail(expect ? "valid text rejected" : "invalid or out-of-range text accepted");
    if (!ok && v.internal_value() != sentinel<N>().internal_value()) fail("output modified on failure");
    if (ok) value_ok<N>(w, v.internal_value());
}
template <class N> static void strict(const std::string& s)
{
    cases++; cur = "detail::parse " + show(s);
    Written w = read_prefix(s); Buf b(s); N v = sentinel<N>();
    bool ok = eirin::detail::parse(b.p, s.size(), v);
    if (ok && w.end != s.size()) fail("malformed text accepted");
    outcome<N>(ok, w.end == s.size() && in_range<N>(w), w, v);
}
template <class N> static void prefix(const std::string& s)
{
    cases++; cur = "fixed_from_cstring " + show(s);
    Written w = read_prefix(s); Buf b(s); N v = sentinel<N>();
    bool ok = fixed_from_cstring(b.p, s.size(), v);
    outcome<N>(ok, in_range<N>(w), w, v);
}
static void f32cstr(const std::string& s)
{
    cases++; cur = "f32_from_cstring " + show(s);
    Written w = read_prefix(s); Buf b(s); fixed32 v = sentinel<fixed32>();
    bool ok = f32_from_cstring(b.p, s.size(), v);
    outcome<fixed32>(ok, w.end == s.size() && in_range<fixed32>(w), w, v);
}
static void view(const std::string& s)
{
    cases++; cur = "io::parse(view) " + show(s);
    Written w = read_prefix(s); Buf b(s); fixed32 v = sentinel<fixed32>();
    const char* e = eirin::io::parse(std::string_view(b.p, s.size()), v);
    bool expect = w.end == s.size() && in_range<fixed32>(w);
    if (expect) { if (e != b.p + s.size()) fail("end position"); value_ok<fixed32>(w, v.internal_value()); }
    else if (e != b.p) fail("start not returned on failure");
    else if (v.internal_value() != sentinel<fixed32>().internal_value()) fail("output modified on failure");
}
static void range(const std::string& s, char stop)
{
    // reads up to the first character equal to the one at stop
    std::string t = s + stop; size_t n = t.find(stop); std::string u = s.substr(0, n);
    cases++; cur = "io::parse(start, stop) " + show(t);
    Written w = read_prefix(u); Buf b(t); fixed32 v = sentinel<fixed32>();
    const char* e = eirin::io::parse(b.p, b.p + s.size(), v);
    bool expect = w.end == u.size() && in_range<fixed32>(w);
    if (expect) { if (e != b.p + n) fail("end position"); value_ok<fixed32>(w, v.internal_value()); }
    else if (e != b.p) fail("start not returned on failure");
    else if (v.internal_value() != sentinel<fixed32>().internal_value()) fail("output modified on failure");
}
template <class N> static void run(size_t len, long rnd, uint64_t seed)
{
    all(len, [](const std::string& s) { strict<N>(s); prefix<N>(s); });
    std::mt19937_64 g(seed);
    for (long i = 0; i < rnd; i++) { std::string s = gen<N>(g); strict<N>(s); prefix<N>(s); }
}
template <class N> static void wide(size_t len)
{
    all(len, [](const std::string& s) {
        cases++; cur = "detail::parse wchar_t " + show(s);
        std::wstring q(s.begin(), s.end()); std::unique_ptr<wchar_t[]> p(new wchar_t[q.size() + !q.size()]); memcpy(p.get(), q.data(), q.size() * sizeof(wchar_t));
        Written w = read_prefix(s); N v = sentinel<N>();
        bool ok = eirin::detail::parse(p.get(), q.size(), v);
        outcome<N>(ok, w.end == s.size() && in_range<N>(w), w, v);
    });
}
static void check_literals()
{
    cur = "literals"; cases++;
    fixed32 a = "12.75"_f32, b = "-0.5"_f32; fixed64 c = "2147483647.5"_f64, d = "-2147483648"_f64;
    if (a.internal_value() != 12 * 65536 + 49152 || b.internal_value() != -32768) fail("_f32 string literal");
    if (c.internal_value() != (int64_t)((2147483647ll << 32) + (1ll << 31)) || d.internal_value() != std::numeric_limits<int64_t>::min()) fail("_f64 string literal");
    if ((1.5_f64).internal_value() != (3ll << 31) || (7_f64).internal_value() != (7ll << 32)) fail("_f64 numeric literal");
    if ((1.5_f32).internal_value() != 98304 || (7_f32).internal_value() != (7 << 16)) fail("_f32 numeric literal");
}
int main(int argc, char** argv)
{
    setup();
    std::string which = argv[1]; bool th = !strcmp(argv[2], "thorough"); uint64_t seed = atol(argv[3]);
    size_t len = th ? 7 : 6; long rnd = th ? 1000000 : 60000;
    if (which == "f32") { run<f32>(len, rnd, seed); check_literals(); wide<f32>(5); }
    if (which == "f32io")
    {
        all(len, [](const std::string& s) { f32cstr(s); view(s); range(s, '\0'); range(s, 'x'); });
        std::mt19937_64 g(seed);
        for (long i = 0; i < rnd; i++) { std::string s = gen<f32>(g); f32cstr(s); view(s); range(s, g() % 2 ? '\0' : ','); }
    }
    if (which == "f64") { run<f64>(len, rnd, seed); }
    if (which == "other32") { run<f32_20>(5, rnd / 2, seed); run<f32_8>(5, rnd / 2, seed); run<f32_30>(5, rnd / 2, seed); run<f32_24>(5, rnd / 2, seed); run<r32>(5, rnd / 2, seed); }
    if (which == "other64") { run<f64_16>(5, rnd / 2, seed); run<f64_40>(5, rnd / 2, seed); run<f64_62>(5, rnd / 2, seed); }
    if (which == "small") { run<f16_8>(len, rnd, seed); run<f8_4>(5, rnd / 2, seed); run<u32_16>(5, rnd / 2, seed); }
    printf("OK %ld\n", cases);
}
