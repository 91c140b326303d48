#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

std::vector<Prop*>& registry() { static std::vector<Prop*> r; return r; }

void failf(const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure(buf);
}

std::string show(const Vec& v)
{
    std::string r = "[";
    char b[16];
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i >= 40) { snprintf(b, sizeof b, " ..+%zu", v.size() - i); r += b; break; }
        snprintf(b, sizeof b, i ? " %x" : "%x", v[i]); r += b;
    }
    return r + "]";
}

int ucdVersion() { static int v = getenv("UCD_VERSION") ? atoi(getenv("UCD_VERSION")) : 16; return v; }

static std::set<std::string> g_known;
static std::map<std::string, uint64_t> g_knownHits;
static std::string g_fuzzKnown;
bool knownFinding(Obs&, const std::string& key)
{
    static bool loaded = false;
    if (!loaded)
    {
        loaded = true;
        if (const char* f = getenv("KNOWN_FILE"))
        {
            std::ifstream in(f); std::string l;
            while (std::getline(in, l)) if (!l.empty()) g_known.insert(l);
        }
    }
    if (!g_known.count(key)) return false;
    ++g_knownHits[key];
    return true;
}

static const Prop* findProp(const std::string& id)
{
    for (Prop* p : registry()) if (p->id == id) return p;
    fprintf(stderr, "no property %s\n", id.c_str());
    exit(3);
}

//////////////////////////////////////////////////////////////// text form of cases

static std::string toText(const Prop& pr, const Case& c)
{
    std::string r = "property " + pr.id + "\nkind " + pr.kinds[c.kind].name + "\n";
    char b[32];
    snprintf(b, sizeof b, "unicode %d\n", ucdVersion()); r += b;
    r += "p";
    for (int64_t x : c.p) { snprintf(b, sizeof b, " %lld", (long long)x); r += b; }
    r += "\n";
    for (const Vec& v : c.s)
    {
        r += "s";
        for (uint32_t x : v) { snprintf(b, sizeof b, " %x", x); r += b; }
        r += "\n";
    }
    return r;
}

static Case fromText(const Prop& pr, const std::string& text)
{
    Case c;
    std::istringstream in(text); std::string line;
    while (std::getline(in, line))
    {
        std::istringstream ls(line); std::string w; ls >> w;
        if (w == "kind")
        {
            ls >> w; bool ok = false;
            for (size_t i = 0; i < pr.kinds.size(); ++i) if (pr.kinds[i].name == w) { c.kind = (int)i; ok = true; }
            if (!ok) { fprintf(stderr, "unknown kind %s\n", w.c_str()); exit(3); }
        }
        else if (w == "p") { long long x; while (ls >> x) c.p.push_back(x); }
        else if (w == "s") { Vec v; uint32_t x; while (ls >> std::hex >> x) v.push_back(x); c.s.push_back(v); }
    }
    return c;
}

//////////////////////////////////////////////////////////////// byte form of cases (fuzzing)

static uint32_t widthMask(int w) { return w == 1 ? 0xff : w == 2 ? 0xffff : w == 3 ? 0x1fffff : 0xffffffff; }

static Case fromBytes(const Prop& pr, const uint8_t* d, size_t n)
{
    Case c;
    size_t i = 0;
    auto get = [&]() -> uint32_t { return i < n ? d[i++] : 0; };
    c.kind = get() % pr.kinds.size();
    const Kind& k = pr.kinds[c.kind];
    for (int j = 0; j < k.params; ++j) { uint32_t lo = get(); c.p.push_back((int16_t)(lo | (get() << 8))); }
    for (size_t j = 0; j < k.widths.size(); ++j)
    {
        size_t units = (size_t)-1;
        if (j + 1 < k.widths.size()) units = get();
        Vec v;
        while (i < n && v.size() < units)
        {
            uint32_t x = 0;
            for (int b = 0; b < k.widths[j]; ++b) x |= get() << (8 * b);
            v.push_back(x & widthMask(k.widths[j]));
        }
        c.s.push_back(v);
    }
    return c;
}

static std::string toBytes(const Prop& pr, const Case& c)
{
    std::string r(1, (char)c.kind);
    const Kind& k = pr.kinds[c.kind];
    for (int j = 0; j < k.params; ++j) { int64_t x = c.P(j); r += (char)x; r += (char)(x >> 8); }
    for (size_t j = 0; j < k.widths.size(); ++j)
    {
        const Vec& v = c.S(j);
        size_t n = v.size();
        if (j + 1 < k.widths.size()) { n = std::min<size_t>(n, 255); r += (char)n; }
        for (size_t q = 0; q < n; ++q) for (int b = 0; b < k.widths[j]; ++b) r += (char)(v[q] >> (8 * b));
    }
    return r;
}

//////////////////////////////////////////////////////////////// running

static uint64_t hashCase(const Case& c)
{
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
    mix(c.kind);
    for (int64_t x : c.p) mix((uint64_t)x + 77);
    for (const Vec& v : c.s) { mix(v.size() + 0x10001); for (uint32_t x : v) mix(x + 13); }
    return h;
}

static char* g_shm = nullptr;
static const size_t kShm = 8u << 20;
static void publish(const Prop& pr, const Case& c)
{
    // binary, so that it is cheap: kind, p, s
    if (!g_shm) return;
    uint32_t* o = (uint32_t*)g_shm; uint32_t* end = (uint32_t*)(g_shm + kShm) - 4;
    (void)pr;
    *o++ = 1; *o++ = c.kind; *o++ = (uint32_t)c.p.size();
    for (int64_t x : c.p) { *o++ = (uint32_t)x; *o++ = (uint32_t)((uint64_t)x >> 32); }
    *o++ = (uint32_t)c.s.size();
    for (const Vec& v : c.s)
    {
        *o++ = (uint32_t)v.size();
        for (uint32_t x : v) { if (o >= end) { ((uint32_t*)g_shm)[0] = 0; return; } *o++ = x; }
    }
}
static bool published(Case& c, const char* shm)
{
    const uint32_t* o = (const uint32_t*)shm;
    if (*o++ != 1) return false;
    c.kind = *o++;
    uint32_t n = *o++;
    for (uint32_t i = 0; i < n; ++i) { uint64_t lo = *o++; uint64_t hi = *o++; c.p.push_back((int64_t)(lo | (hi << 32))); }
    n = *o++;
    for (uint32_t i = 0; i < n; ++i) { uint32_t m = *o++; c.s.push_back(Vec(o, o + m)); o += m; }
    return true;
}

static bool run(const Prop& pr, const Case& c, Obs& o, std::string& msg)
{
    try { pr.kinds[c.kind].check(c, o); return true; }
    catch (const Failure& f) { msg = f.what(); }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
    return false;
}

// run in a child; 0 pass, 1 fail (crash, sanitizer report and hang included)
static int runForked(const Prop& pr, const Case& c, std::string& msg, int secs = 60)
{
    int fd[2];
    if (pipe(fd)) return 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
        alarm(secs);
        Obs o; std::string m;
        bool ok = run(pr, c, o, m);
        if (!ok) { ssize_t w = write(fd[1], m.data(), std::min<size_t>(m.size(), 2000)); (void)w; }
        _exit(ok ? 0 : 1);
    }
    close(fd[1]);
    char b[2048]; ssize_t n; msg.clear();
    while ((n = read(fd[0], b, sizeof b)) > 0) msg.append(b, n);
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (msg.empty())
    {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) msg = "does not return";
        else msg = "crash or sanitizer report";
    }
    return 1;
}

//////////////////////////////////////////////////////////////// shrinking

static Case shrink(const Prop& pr, Case c, std::string& msg, double secs)
{
    auto t0 = std::chrono::steady_clock::now();
    auto timeUp = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
    auto tryIt = [&](const Case& d) { std::string m; if (runForked(pr, d, m, 20)) { c = d; msg = m; return true; } return false; };
    bool progress = true;
    while (progress && !timeUp())
    {
        progress = false;
        for (size_t j = 0; j < c.s.size(); ++j)
        {
            for (size_t chunk = std::max<size_t>(c.s[j].size(), 1); chunk >= 1; chunk /= 2)
                for (size_t at = 0; at < c.s[j].size() && !timeUp(); )
                {
                    Case d = c;
                    d.s[j].erase(d.s[j].begin() + at, d.s[j].begin() + std::min(at + chunk, d.s[j].size()));
                    if (tryIt(d)) progress = true; else at += chunk;
                }
            if (c.s[j].size() <= 4096)
            for (size_t i = 0; i < c.s[j].size() && !timeUp(); ++i)
            {
                uint32_t x = c.s[j][i];
                if (x == 'a') continue;
                for (uint32_t y : { (uint32_t)'a', x / 2, x & 0xff, x - 1 })
                {
                    if (y >= x || (y == 0)) if (!(y == 'a' && x != 'a' && x > 0 && x < 'a')) continue;
                    Case d = c; d.s[j][i] = y;
                    if (tryIt(d)) { progress = true; break; }
                }
            }
        }
        for (size_t i = 0; i < c.p.size() && !timeUp(); ++i)
            for (int64_t y : { (int64_t)0, c.p[i] / 2, c.p[i] > 0 ? c.p[i] - 1 : c.p[i] + 1 })
            {
                if (y == c.p[i]) continue;
                Case d = c; d.p[i] = y;
                if (tryIt(d)) { progress = true; break; }
            }
        while (!c.p.empty() && !timeUp()) { Case d = c; d.p.pop_back(); if (!tryIt(d)) break; progress = true; }
        // many parameters: drop from the middle
        for (size_t i = 0; c.p.size() > 3 && i < c.p.size() && !timeUp(); )
        { Case d = c; d.p.erase(d.p.begin() + i); if (tryIt(d)) progress = true; else ++i; }
        if (pr.kinds[c.kind].widths.empty())    // free-form list of strings
            for (size_t i = 0; i < c.s.size() && !timeUp(); )
            { Case d = c; d.s.erase(d.s.begin() + i); if (tryIt(d)) progress = true; else ++i; }
    }
    return c;
}

//////////////////////////////////////////////////////////////// main

static std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if ((unsigned char)ch < 0x20 || (unsigned char)ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}

static std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); return ss.str();
}

#ifndef FUZZ_MAIN

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    const Prop& pr = *findProp(a["--prop"]);
    if (a.count("--replay"))
    {
        Case c = fromText(pr, slurp(a["--replay"]));
        Obs o; std::string m;
        alarm(120);
        if (run(pr, c, o, m)) { printf("PASS\n"); return 0; }
        printf("FAIL %s\n", m.c_str());
        return 1;
    }
    if (a.count("--shrink"))            // --shrink case --to file
    {
        Case c = fromText(pr, slurp(a["--shrink"])); std::string m;
        if (!runForked(pr, c, m)) { printf("PASS\n"); return 0; }
        c = shrink(pr, c, m, atof(a["--time"].c_str()));
        std::ofstream(a["--to"]) << toText(pr, c) << "# " << m << "\n";
        printf("FAIL %s\n", m.c_str());
        return 1;
    }
    if (a.count("--dump"))              // decode a published case: --dump shmfile --to case
    {
        std::string d = slurp(a["--dump"]); d.resize(kShm); Case c;
        if (!published(c, d.data())) return 2;
        std::ofstream(a["--to"]) << toText(pr, c);
        return 0;
    }
    if (a.count("--frombytes"))         // fuzzer input to case
    {
        std::string d = slurp(a["--frombytes"]);
        std::ofstream(a["--to"]) << toText(pr, fromBytes(pr, (const uint8_t*)d.data(), d.size()));
        return 0;
    }
    uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
    if (a.count("--corpus"))            // write seed inputs for the fuzzer
    {
        Rng r(seed * 7919 + 5);
        int n = atoi(a["--count"].c_str());
        for (int i = 0; i < n; ++i)
        {
            int ki = i % (int)pr.kinds.size();
            if (!pr.kinds[ki].gen || pr.kinds[ki].widths.empty()) continue;
            Case c = pr.kinds[ki].gen(r); c.kind = ki;
            std::string b = toBytes(pr, c);
            if (b.size() > 600) continue;
            char nm[32]; snprintf(nm, sizeof nm, "/s%d", i);
            std::ofstream(a["--corpus"] + nm, std::ios::binary) << b;
        }
        return 0;
    }
    int worker = atoi(a["--worker"].c_str()), workers = std::max(1, atoi(a["--workers"].c_str()));
    uint64_t count = strtoull(a["--count"].c_str(), nullptr, 10);
    double cap = atof(a["--time"].c_str());
    int level = atoi(a["--level"].c_str());
    if (a.count("--shm"))
    {
        int fd = open(a["--shm"].c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, kShm)) return 3;
        g_shm = (char*)mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_shm == MAP_FAILED) return 3;
        close(fd);
    }
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::map<std::string, uint64_t> classes;
    std::unordered_set<uint64_t> seen;
    uint64_t evals = 0, enums = 0, randoms = 0, nontriv = 0;
    bool enumComplete = true, truncated = false;
    std::vector<std::string> samples;
    std::string failText, failMsg;
    Obs o; o.classes = &classes;
    auto one = [&](const Case& c) -> bool
    {
        publish(pr, c);
        o.nontrivial = false;
        std::string m;
        bool ok = run(pr, c, o, m);
        ++evals;
        if (o.nontrivial)
        {
            ++nontriv;
            if (seen.size() < 400000) seen.insert(hashCase(c));
            bool want = samples.size() < 3 || (samples.size() < 8 && (evals & (evals - 1)) == 0);
            if (want) { std::string t = toText(pr, c); if (t.size() < 300) samples.push_back(t); }
        }
        if (!ok) { failText = toText(pr, c); failMsg = m; }
        return ok;
    };
    bool ok = true;
    for (size_t ki = 0; ok && ki < pr.kinds.size(); ++ki)
    {
        const Kind& k = pr.kinds[ki];
        if (!k.enumSize || level == 9) continue;      // 9: random cases only
        uint64_t n = k.enumSize(level);
        for (uint64_t i = worker; ok && i < n; i += workers)
        {
            Case c = k.enumAt(i, level); c.kind = (int)ki;
            ok = one(c); ++enums;
            if ((i / workers) % 4096 == 0 && elapsed() > cap) { enumComplete = false; truncated = true; break; }
        }
    }
    Rng r(seed * 1000003 + worker * 7919 + 17 + ucdVersion() * 131);
    std::vector<int> wheel;
    for (size_t ki = 0; ki < pr.kinds.size(); ++ki) if (pr.kinds[ki].gen) for (int j = 0; j < pr.kinds[ki].weight; ++j) wheel.push_back((int)ki);
    double tr = elapsed();
    for (uint64_t i = 0; ok && i < count && !wheel.empty(); ++i)
    {
        int ki = r.pick(wheel);
        Case c = pr.kinds[ki].gen(r); c.kind = ki;
        ok = one(c); ++randoms;
        if (i % 256 == 0 && elapsed() - tr > cap) { truncated = true; break; }
    }
    if (a.count("--hashes"))
    {
        std::ofstream h(a["--hashes"], std::ios::binary);
        for (uint64_t x : seen) h.write((const char*)&x, 8);
    }
    std::ofstream out(a["--out"]);
    out << "{\"evaluations\":" << evals << ",\"enumerated\":" << enums << ",\"random\":" << randoms << ",\"nontrivial\":" << nontriv
        << ",\"enum_complete\":" << (enumComplete ? "true" : "false") << ",\"truncated\":" << (truncated ? "true" : "false")
        << ",\"rule\":" << jsonStr(pr.rule) << ",\"classes\":{";
    bool first = true;
    for (auto& kv : classes) { out << (first ? "" : ",") << jsonStr(kv.first) << ":" << kv.second; first = false; }
    out << "},\"known\":{";
    first = true;
    for (auto& kv : g_knownHits) { out << (first ? "" : ",") << jsonStr(kv.first) << ":" << kv.second; first = false; }
    out << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { out << (first ? "" : ",") << jsonStr(s); first = false; }
    out << "],\"fail\":" << (ok ? "null" : jsonStr(failText)) << ",\"message\":" << jsonStr(failMsg) << "}\n";
    out.close();
    return ok ? 0 : 1;
}

#else   // libFuzzer entry

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static const Prop& pr = *findProp(getenv("FUZZ_PROP"));
    if (n == 0) return 0;
    Case c = fromBytes(pr, d, n);
    if (pr.kinds[c.kind].widths.empty() || pr.kinds[c.kind].costly > 50) return 0;
    Obs o; std::string m;
    if (!run(pr, c, o, m))
    {
        fprintf(stderr, "FAIL %s\n%s", m.c_str(), toText(pr, c).c_str());
        abort();
    }
    (void)toBytes; (void)shrink; (void)publish; (void)published; (void)slurp; (void)jsonStr; (void)hashCase;
    return 0;
}

#endif
