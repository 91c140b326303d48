// A small property-based testing engine: plain-data cases, seeded generators, exhaustive
// enumerators, generic shrinking, coverage-guided fuzzing over a byte encoding of cases.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef ONLY                // compile one property of a file only: -DONLY=number
#define ONLY 0
#endif
#define WANT(n) (ONLY == 0 || ONLY == (n))

typedef std::vector<uint32_t> Vec;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567)
    {   // two scrambled halves, so that neighbouring seeds do not walk the same sequence
        uint64_t a = next(); s = a ^ (seed << 32); uint64_t b = next(); s = a * 0x2545F4914F6CDD1Dull ^ b;
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }   // inclusive
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
};

struct Case {
    int kind = 0;
    std::vector<int64_t> p;
    std::vector<Vec> s;
    int64_t P(size_t i, int64_t dflt = 0) const { return i < p.size() ? p[i] : dflt; }
    const Vec& S(size_t i) const { static const Vec none; return i < s.size() ? s[i] : none; }
};

struct Failure : std::runtime_error { explicit Failure(const std::string& m) : std::runtime_error(m) {} };

struct Obs {                // what a check saw
    bool nontrivial = false;
    std::map<std::string, uint64_t>* classes = nullptr;
    std::string* known = nullptr;       // a listed finding was met
    void cls(const char* l) { if (classes) ++(*classes)[l]; }
    void nt(bool b = true) { nontrivial = nontrivial || b; }
};

struct Kind {
    std::string name;
    std::vector<int> widths;        // per string: bytes per unit (1, 2, 4; 3 = a code point)
    int params = 0;                 // how many parameters
    int weight = 10;                // share of the random cases
    std::function<Case(Rng&)> gen;
    std::function<void(const Case&, Obs&)> check;
    std::function<uint64_t(int level)> enumSize;            // optional exhaustive part
    std::function<Case(uint64_t i, int level)> enumAt;
    double costly = 1;              // relative cost; divides the number of fuzz/random runs
};

struct Prop {
    std::string id;
    std::string rule;               // when a case counts as non-trivial
    std::vector<Kind> kinds;
};

std::vector<Prop*>& registry();
struct Register { explicit Register(Prop* p) { registry().push_back(p); } };

[[noreturn]] void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(cond, ...) do { if (!(cond)) failf(__VA_ARGS__); } while (0)

std::string show(const Vec& v);         // hex, shortened
int ucdVersion();                       // the Unicode version this binary is meant to be built for

// listed findings: returns true (and remembers it) if this failure is listed
bool knownFinding(Obs& o, const std::string& key);
