// The same answers however the library is built: P27.
#include "lib.hpp"
#include <dlfcn.h>
#include <fstream>

using namespace model;

typedef void (*Sink)(void*, const char*, size_t);
typedef void (*Call)(int, const char*, size_t, const char16_t*, size_t, const char32_t*, size_t, int64_t, Sink, void*);
struct Variant { std::string name; Call call; };

// VARIANTS names a file with a line "path<tab>how it was built" for each build
static std::vector<Variant>& variants(int* calls = nullptr)
{
    static int n;
    static std::vector<Variant> v = [] {
        std::vector<Variant> r;
        std::ifstream in(getenv("VARIANTS") ? getenv("VARIANTS") : "");
        std::string line;
        while (std::getline(in, line))
        {
            size_t tab = line.find('\t');
            void* h = dlopen(line.substr(0, tab).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
            Variant x; x.name = line.substr(tab + 1); x.call = (Call)dlsym(h, "variantCall");
            int k = ((int (*)())dlsym(h, "variantCalls"))();
            if (r.empty()) n = k;
            if (!x.call || k != n) { fprintf(stderr, "%s is not a variant\n", line.c_str()); exit(3); }
            r.push_back(x);
        }
        if (r.size() < 2) { fprintf(stderr, "no variants\n"); exit(3); }
        return r;
    }();
    if (calls) *calls = n;
    return v;
}
static void take(void* to, const char* p, size_t n) { ((std::string*)to)->assign(p, n); }
static std::string hexOf(const std::string& s) { Vec v; for (char ch : s) v.push_back((unsigned char)ch); return show(v); }

// s0: the text; p0: argument
static void compare(const Vec& a, const Vec& b, const Vec& d, const Case& c, Obs& o)
{
    int calls; const std::vector<Variant>& vs = variants(&calls);
    int64_t arg = std::max<int64_t>(c.P(0), 0);
    Z8 z8(a); Z16 z16(b); Z32 z32(d);
    for (uint32_t x : d) o.nt(x >= 0x80);
    for (uint32_t x : a) o.nt(x >= 0x80);
    bool one = d.size() > 4000;     // long texts: a few functions and builds at a time
    std::string want, got;
    for (int fn = 0; fn < calls; ++fn)
    {
        if (one && (fn + arg) % 8) continue;
        vs[0].call(fn, z8, a.size(), z16, b.size(), z32, d.size(), arg, take, &want);
        for (size_t k = 1; k < vs.size(); ++k)
        {
            if (one && (k + (size_t)(arg / 8)) % 3) continue;
            vs[k].call(fn, z8, a.size(), z16, b.size(), z32, d.size(), arg, take, &got);
            REQUIRE(got == want, "call %d (argument %lld) on %s | %s | %s gives %s built with %s, but %s built with %s", fn, (long long)arg, show(a).c_str(), show(b).c_str(), show(d).c_str(),
                hexOf(want).c_str(), vs[0].name.c_str(), hexOf(got).c_str(), vs[k].name.c_str());
        }
    }
}
static void bytes(const Case& c, Obs& o)
{
    Vec v = c.S(0); for (uint32_t& x : v) x &= 0xff;
    o.cls("bytes");
    compare(v, v, v, c, o);
}
static void units(const Case& c, Obs& o)
{
    Vec v = c.S(0), lo; for (uint32_t& x : v) { x &= 0xffff; lo.push_back(x & 0xff); }
    o.cls("16-bit units");
    compare(lo, v, v, c, o);
}
static void wide(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); Vec a, b;
    for (uint32_t x : v) { a.push_back(x & 0xff); b.push_back(x & 0xffff); }
    o.cls("32-bit units");
    compare(a, b, v, c, o);
}
static void characters(const Case& c, Obs& o)
{
    Vec v = cleanCps(c.S(0), 0x10ffff);
    o.cls("well-formed text");
    compare(encUtf8(v), encUtf16(v), v, c, o);
}
// quick: the versions differ in their tables alone, so only the latest gets the whole enumeration
static void enumVar(Kind& k, uint64_t (*size)(int), Vec (*at)(uint64_t, int), uint64_t stride)
{
    enumWith(k, size, at, ucdVersion() == 16 ? stride : stride * 20);
}
static Prop* mk27()
{
    Prop* p = new Prop; p->id = "P27"; p->rule = "the text contains a unit of 80 or above";
    // all characters, 32 at a time
    Kind e; e.name = "characters"; e.widths = { 4 }; e.params = 1; e.weight = 10; e.check = characters; e.costly = 4;
    e.gen = [](Rng& r) { Case c; c.p = { (int64_t)(r.chance(1, 2) ? r.below(70) : r.below(100000)) }; c.s.push_back(gen::text(r, gen::maxFor(r))); return c; };
    e.enumSize = [](int level) { return (uint64_t)(level ? 3 : 1) * (0x110000 / 32) / (level || ucdVersion() == 16 ? 1 : 4); };
    e.enumAt = [](uint64_t i, int level) { Case c; if (!level && ucdVersion() != 16) i = i * 4 + i / 4 % 4; c.p = { (int64_t)(i % 4093) }; Vec v; for (uint32_t k = 0; k < 32; ++k) v.push_back((uint32_t)(i % (0x110000 / 32)) * 32 + k); c.s.push_back(v); return c; };
    p->kinds.push_back(e);
    // each character by itself
    Kind s = e; s.name = "character"; s.weight = 4;
    s.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(4096) }; c.s.push_back(Vec{ gen::cp(r, 0x10ffff) }); return c; };
    s.enumSize = [](int level) { return (uint64_t)(level ? 0x110000 : ucdVersion() == 16 ? 0x3400 : 0x600); };
    s.enumAt = [](uint64_t i, int) { Case c; c.p = { (int64_t)(i % 4093) }; c.s.push_back(Vec{ (uint32_t)i }); return c; };
    p->kinds.push_back(s);
    Kind b = strKind("bytes", 1, 20, gen::u8, 1, bytes); enumVar(b, gen::enumU8, gen::enumU8At, 24); b.costly = 4; p->kinds.push_back(b);
    // every single byte and every pair of them
    Kind q = b; q.name = "byte-pairs"; q.weight = 0;
    q.enumSize = [](int level) { return (uint64_t)(level ? 256 + 65536 : 256 + 65536 / 4); };
    q.enumAt = [](uint64_t i, int level) { Case c; c.p = { (int64_t)(i % 4093) }; if (i < 256) c.s.push_back(Vec{ (uint32_t)i }); else { i = (i - 256) * (level ? 1 : 4) + (level ? 0 : i % 4); i &= 0xffff; c.s.push_back(Vec{ (uint32_t)(i >> 8), (uint32_t)(i & 0xff) }); } return c; };
    p->kinds.push_back(q);
    Kind u = strKind("units", 2, 10, gen::u16, 1, units); enumVar(u, gen::enumU16, gen::enumU16At, 24); u.costly = 4; p->kinds.push_back(u);
    Kind w = strKind("wide", 4, 10, gen::u32, 1, wide); enumVar(w, gen::enumU32, gen::enumU32At, 96); w.costly = 4; p->kinds.push_back(w);
    Kind bl = strKind("bytes-long", 1, 1, gen::u8Long, 1, bytes); bl.costly = 200; p->kinds.push_back(bl);
    Kind ul = strKind("units-long", 2, 1, gen::u16Long, 1, units); ul.costly = 200; p->kinds.push_back(ul);
    Kind wl = strKind("wide-long", 4, 1, gen::u32Long, 1, wide); wl.costly = 200; p->kinds.push_back(wl);
    return p;
}
static Register r27(mk27());
