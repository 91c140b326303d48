"""P28: programs made of the public headers. Generates small programs (several translation units, each
including some of the installed headers in some order, by some compiler and language standard, calling
what those headers offer), builds and links them against the library, runs them, and compares what
they print with what a model of the functions says."""
import concurrent.futures, hashlib, json, os, random, shutil, subprocess, time

CORES = os.cpu_count() or 4
HEADERS = ["string.hxx", "string_trim.hxx", "string_splitjoin.hxx"]     # what 'make install' deploys
SYSTEM = ["string", "vector", "list", "cwchar", "stdint.h", "algorithm", "iostream", "map", "climits", "functional", "cstring", "wchar.h", "locale", "thread", "regex"]
STDS = {"g++": ["c++11", "c++14", "c++17", "c++20", "gnu++11", "gnu++17", "gnu++20"], "clang++": ["c++11", "c++14", "c++17", "c++20", "gnu++11", "gnu++17", "c++2b"]}
FLAGS = [[], [], [], ["-O1"], ["-O2"], ["-pedantic-errors"], ["-funsigned-char"], ["-D_GLIBCXX_ASSERTIONS"], ["-O2", "-fno-strict-aliasing"], ["-DUNICODE"], ["-fvisibility=hidden"], ["-D_FORTIFY_SOURCE=2", "-O1"]]
CHARS = [ord(c) for c in "aZ09 .,;Q"] + [0xe9, 0xc9, 0x416, 0x436, 0x3b1, 0x391, 0x20ac, 0x4e00, 0xfb01, 0x1f600, 0x10400, 0x10428, 0x2003, 0x3000, 0xa0, 9, 10]
SPACES = {9, 10, 13, 32, 0xa0, 0x202f, 0x205f, 0x3000} | set(range(0x2000, 0x200b))
LOWER = {0xc9: 0xe9, 0x416: 0x436, 0x391: 0x3b1, 0x10400: 0x10428, ord("Z"): ord("z"), ord("Q"): ord("q"), ord("I"): ord("i")}


class Result:
    def __init__(self):
        self.evals = self.enumerated = self.randoms = self.fuzzed = self.valgrind = self.shipped = 0
        self.hashes, self.classes, self.known, self.samples = set(), {}, {}, []
        self.rule, self.complete, self.fails, self.notes, self.truncated = "the program has several translation units that include the same header, or one that includes a header twice", True, [], [], False


def u8(t): return list("".join(map(chr, t)).encode("utf-8"))
def u16(t):
    b = "".join(map(chr, t)).encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


ENC = {"8": (u8, "char", "std::string"), "16": (u16, "char16_t", "std::u16string"), "32": (list, "char32_t", "std::u32string"), "w": (list, "wchar_t", "std::wstring")}


def lower(t, turkic):
    return [0x131 if turkic and c == 0x49 else LOWER.get(c, c) for c in t]


def splitModel(t, d):
    out = [[]]
    for c in t:
        if c == d:
            out.append([])
        else:
            out[-1].append(c)
    return out if t else []


def trimModel(t, among):
    while t and t[0] in among:
        t = t[1:]
    while t and t[-1] in among:
        t = t[:-1]
    return t


def show(units): return " ".join("%x" % x for x in units)


# a call: which header it needs, how it is written and what it gives. Each takes the text (characters)
# and a number; NS is the name space prefix
def render(call, ns, var):
    """(declarations, expression giving std::string via put(..), expected)"""
    f, t, x = call["f"], call["t"], call["x"]
    enc, dst = call["e"], call["d"]
    units, ch, cls = ENC[enc][0](t), ENC[enc][1], ENC[enc][2]
    decl = "    static const %s %s[] = { %s0 };\n" % (ch, var, "".join("(%s)0x%x, " % (ch, u) for u in units))
    obj = bool(x & 1)
    arg = "%s(%s)" % (cls, var) if obj else var
    if obj and x & 2:
        decl += "    const %s %s_s(%s);\n" % (cls, var, var)
        arg = var + "_s"
    to = {"8": "toUtf8", "16": "toUtf16", "32": "toUcs4", "w": "toWstring", "2": "toUcs2"}
    fits2 = all(c < 0x10000 for c in t)
    if f == "convert":
        if dst == enc or (enc == "16" and dst == "2"):
            dst = "32" if enc != "32" else "8"
        want = (ENC[dst][0](t) if dst != "2" else (list(t) if fits2 else []))
        return decl, "put(%s%s(%s))" % (ns, to[dst], arg), show(want)
    if f == "is":
        k = x // 4 % 4
        name, rng, ok = {"8": ("isUtf8", ["kUtf8", "kUtf16", "kUcs2", "kAscii"], None), "16": ("isUtf16", ["kUtf16", "kUtf8", "kUcs2", "kAscii"], None),
                         "32": ("isUcs4", ["kUcs4", "kUtf16", "kUcs2", "kAscii"], None), "w": ("isUtf16", [""] * 4, None)}[enc]
        if enc == "w":
            return decl, "put(%s%s(%s))" % (ns, name, arg), "1"
        want = k < 2 or (k == 2 and fits2) or (k == 3 and all(c < 0x80 for c in t))
        pred = x // 16 % 3
        if pred == 0 and k == 0:
            return decl, "put(%s%s(%s))" % (ns, name, arg), "1"
        if pred == 0:
            return decl, "put(%s%s(%s, %s%s))" % (ns, name, arg, ns, rng[k]), str(int(want))
        ctl = any(c in (9, 10) for c in t)
        if pred == 1:
            return decl, "put(%s%s(%s, %svalidIfNot(%skIsControl)))" % (ns, name, arg, ns, ns), str(int(not ctl))
        return decl, "put(%s%s(%s, %s%s, %svalidIfNot(%skIsPrivate).andIfNot(%skIsControl)))" % (ns, name, arg, ns, rng[k], ns, ns, ns), str(int(want and not ctl))
    if f == "length":
        if enc == "w":
            enc, units, ch = "32", list(t), "char32_t"
            decl = "    static const char32_t %s[] = { %s0 };\n" % (var, "".join("0x%x, " % u for u in units)); arg = var
            obj = False
        if not obj and x & 4 and units:
            return decl, "put(%sunicodeLength(%s, %du))" % (ns, var, len(units)), str(len(t))
        return decl, "put(%sunicodeLength(%s))" % (ns, arg), str(len(t))
    if f == "lower":
        if enc == "w":
            return render(dict(call, e="32"), ns, var)
        lang = ['', ', "tr"', ', "en"', ', nullptr'][x // 4 % 4]
        if not obj:
            arg = "%s(%s)" % (cls, var)
        return decl, "put(%stoLower(%s%s))" % (ns, arg, lang), show(ENC[enc][0](lower(t, '"tr"' in lang)))
    if f == "page":
        return "    static const char %s[] = \"a\\x80\" \"z\";\n" % var, "put(%stoUtf8(%s, %skSrcCP125%d))" % (ns, var, ns, [2, 0][x & 1]), show(u8([0x61, 0x20ac, 0x7a]))
    if f == "wide":
        name = ["isUtf8", "isUtf16", "isUcs2", "isUcs4"][x // 4 % 4]
        decl = "    static const wchar_t %s[] = { %s0 };\n" % (var, "".join("(wchar_t)0x%x, " % u for u in t))
        return decl, "put(%s%s(%s))" % (ns, name, "std::wstring(%s)" % var if obj else var), str(int(name != "isUcs2" or fits2))
    if f == "isWstring":
        if enc == "w":
            return render(dict(call, e="16"), ns, var)
        return decl, "put(%sisWstring(%s))" % (ns, arg), "1"
    if f == "version":
        return "", "put(%sgetUnicodeVersionSupported().empty())" % ns, "0"
    # the templates
    obj8 = "%s(%s)" % (cls, var)
    if f == "split":
        d = ENC[enc][0]([t[x % len(t)]])[0] if t else 0x2c
        parts = splitModel(units, d)
        return decl, "put(%ssplit(%s, (%s)0x%x))" % (ns, obj8, ch, d), "/".join(map(show, parts)) + ("/" if parts else "")
    if f == "join":
        d = 0x2c + x % 3
        n = x % 4
        decl += "    std::vector< %s > %s_v(%d, %s(%s));\n" % (cls, var, n, cls, var)
        want = []
        for i in range(n):
            want += ([d] if i else []) + units
        return decl, "put(%sjoin(%s_v, (%s)0x%x))" % (ns, var, ch, d), show(want)
    if f == "trim":
        how = x // 2 % 3
        if how == 2 and enc == "w":
            how = 1
        call2 = ["%strim(%s_t)" % (ns, var), "%strim(%s_t, %s(1, (%s)0x%x))" % (ns, var, cls, ch, units[0] if units else 0x41), "%strimWhiteSpace(%s_t)" % (ns, var)][how]
        if x % 5 == 0 and enc == "8":
            call2, how = "%strimAscii7WhiteSpace(%s_t)" % (ns, var), 3
        decl += "    %s %s_t(%s); %s;\n" % (cls, var, var, call2)
        want = [trimModel(units, {32}), trimModel(units, {units[0] if units else 0x41}), ENC[enc][0](trimModel(list(t), SPACES)), trimModel(units, {9, 10, 13, 32})][how]
        return decl, "put(%s_t)" % var, show(want)
    raise ValueError(f)


OFFERS = {"string.hxx": ["convert", "convert", "convert", "is", "is", "length", "lower", "page", "wide", "isWstring", "version"], "string_trim.hxx": ["trim"], "string_splitjoin.hxx": ["split", "join"]}

PUT = """#include <string>
#include <vector>
namespace {
std::string hexOf(unsigned long x) { static const char d[] = "0123456789abcdef"; std::string r; do { r.insert(r.begin(), d[x & 15]); x >>= 4; } while (x); return r; }
template <class C> unsigned long unit(C c) { return sizeof(C) == 1 ? (unsigned char)c : (unsigned long)c; }
template <class C> std::string put(const std::basic_string<C>& s) { std::string r; for (C c : s) { if (!r.empty()) r += ' '; r += hexOf(unit(c)); } return r; }
template <class C> std::string put(const std::vector< std::basic_string<C> >& v) { std::string r; for (const auto& s : v) { r += put(s); r += '/'; } return r; }
std::string put(bool b) { return b ? "1" : "0"; }
std::string put(unsigned int n) { return std::to_string(n); }
}
"""


def source(tu, index):
    """(text of the translation unit, lines expected from it)"""
    ns = "" if tu["using"] else "ansak::"
    s = ""
    for h in tu["includes"]:
        s += "#include <ansak/%s>\n" % h if h in HEADERS else "#include <%s>\n" % h
    s += PUT
    if tu["using"]:
        s += "using namespace ansak;\n"
        if tu["using"] == 2:
            s += "using namespace std;\n"
    s += "extern void say(int, const ::std::string&);\nvoid part%d()\n{\n" % index
    want = []
    for k, c in enumerate(tu["calls"]):
        decl, expr, w = render(c, ns, "text%d" % k)
        s += decl + "    say(%d, %s);\n" % (index, expr)
        want.append("%d %s" % (index, w))
    s += "}\n"
    if tu["when"] == "before":
        s += "namespace { struct Starts { Starts() { part%d(); } } starts; }\n" % index
    return s, want


def genTu(r):
    heads = [r.choice(HEADERS)] + [h for h in HEADERS if r.random() < 0.45] + [h for h in HEADERS if r.random() < 0.15]
    incs = heads + [h for h in SYSTEM if r.random() < 0.08]
    r.shuffle(incs)
    offers = [o for h in sorted(set(heads)) for o in OFFERS[h]]
    calls = []
    for _ in range(r.randint(1, 8)):
        t = [r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 40]))]
        calls.append({"f": r.choice(offers), "t": t, "x": r.randint(0, 959), "e": r.choice(["8", "16", "32", "w"]), "d": r.choice(["8", "16", "32", "w", "2"])})
    return {"includes": incs, "using": r.choice([0, 0, 1, 2]), "calls": calls}


def genClient(r):
    cxx = r.choice(["g++", "clang++"])
    same = r.random() < 0.6     # one standard for the whole program, or one for each part
    std = r.choice(STDS[cxx])
    tus = [genTu(r) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
    for t in tus:
        t["std"] = std if same else r.choice(STDS[cxx])
        t["flags"] = r.choice(FLAGS)
        t["when"] = r.choice(["main", "before"])
    return {"cxx": cxx, "tus": tus}


def sh(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return p.returncode, p.stdout.decode(errors="replace")


class Library:
    """the headers and the archive, as they are installed"""

    def __init__(self, scratch, repo, version=16):
        self.root = os.path.join(scratch, "installed")
        inc = os.path.join(self.root, "include", "ansak")
        os.makedirs(inc)
        for h in sorted(os.listdir(repo + "/interface")):       # cp interface/*hxx
            if h.endswith("hxx"):
                shutil.copy(os.path.join(repo, "interface", h), inc)
        src, bits = repo + "/source", repo + "/source/bits%d" % version
        files = [os.path.join(d, f) for d in (src, bits) for f in sorted(os.listdir(d)) if f.endswith(".cxx")]

        def one(f):
            o = os.path.join(self.root, os.path.basename(f) + ".o")
            return sh(["g++", "-std=gnu++11", "-O2", "-DNDEBUG", "-w", "-I" + bits, "-I" + repo + "/interface", "-I" + src, "-c", f, "-o", o]), o
        with concurrent.futures.ThreadPoolExecutor(CORES) as p:
            done = list(p.map(one, files))
        for (rc, out), o in done:
            if rc:
                raise RuntimeError("the library does not compile:\n" + out[-2000:])
        self.lib = os.path.join(self.root, "libansakString.a")
        rc, out = sh(["ar", "rcs", self.lib] + [o for _, o in done])
        if rc:
            raise RuntimeError(out)


def check(lib, c, d):
    """None, or what is wrong"""
    objs, want = [], []
    main = "#include <string>\n#include <cstdio>\nvoid say(int i, const std::string& s) { if (i >= 0) std::printf(\"%d %s\\n\", i, s.c_str()); std::fflush(stdout); }\n"
    for i, tu in enumerate(c["tus"]):
        text, w = source(tu, i)
        want += w
        f, o = os.path.join(d, "part%d.cpp" % i), os.path.join(d, "part%d.o" % i)
        open(f, "w").write(text)
        rc, out = sh([c["cxx"], "-std=" + tu["std"]] + tu["flags"] + ["-I" + os.path.join(lib.root, "include"), "-c", f, "-o", o])
        if rc == "timeout":
            return None
        if rc:
            return "a program that includes %s does not compile with %s -std=%s %s: %s" % (", ".join(tu["includes"]), c["cxx"], tu["std"], " ".join(tu["flags"]), firstError(out))
        objs.append(o)
        main += "void part%d();\n" % i
    main += "int main() {%s }\n" % "".join(" part%d();" % i for i, t in enumerate(c["tus"]) if t["when"] == "main")
    f, exe = os.path.join(d, "main.cpp"), os.path.join(d, "program")
    open(f, "w").write(main)
    rc, out = sh([c["cxx"], "-std=c++11", f] + objs + [lib.lib, "-o", exe])
    if rc == "timeout":
        return None
    if rc:
        return "a program of %d translation units does not link: %s" % (len(objs), firstError(out))
    rc, out = sh(["env", "MALLOC_PERTURB_=165", exe], 60)       # what is freed does not stay as it was
    if rc:
        return "the program ends with %s" % rc
    got = out.split("\n")[:-1]
    got.sort(key=lambda l: int(l.split(" ")[0]))        # stable: the parts in their order, as they are in want
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        calls = [x for tu in c["tus"] for x in tu["calls"]]
        when = [tu["when"] for tu in c["tus"] for x in tu["calls"]]
        return "call %s (%s) gives %s, expected %s" % (json.dumps(calls[i]) if i < len(calls) else i, {"main": "in main", "before": "before main"}[when[i]] if i < len(when) else "", got[i:i + 1], want[i:i + 1])
    return None


def firstError(out):
    lines = [l for l in out.split("\n") if "error" in l or "multiple definition" in l or "undefined" in l]
    return (lines or out.strip().split("\n"))[0][-300:]


def shrink(lib, c, d, secs):
    t0 = time.time()

    def variants(c):
        for i in range(len(c["tus"])):
            if len(c["tus"]) > 1:
                yield dict(c, tus=c["tus"][:i] + c["tus"][i + 1:])
        for i, tu in enumerate(c["tus"]):
            def put(**kw):
                return dict(c, tus=c["tus"][:i] + [dict(tu, **kw)] + c["tus"][i + 1:])
            if tu["calls"]:
                yield put(calls=[])
            for k in range(len(tu["calls"])):
                yield put(calls=tu["calls"][:k] + tu["calls"][k + 1:])
            for k in range(len(tu["includes"])):
                if tu["includes"][k] not in HEADERS or tu["includes"].count(tu["includes"][k]) > 1 or not tu["calls"]:
                    yield put(includes=tu["includes"][:k] + tu["includes"][k + 1:])
            if tu["flags"]:
                yield put(flags=[])
            if tu["using"]:
                yield put(using=0)
            if tu["when"] != "main":
                yield put(when="main")
            for k, x in enumerate(tu["calls"]):
                for j in range(len(x["t"])):
                    yield put(calls=tu["calls"][:k] + [dict(x, t=x["t"][:j] + x["t"][j + 1:])] + tu["calls"][k + 1:])
    progress = True
    while progress and time.time() - t0 < secs:
        progress = False
        for v in variants(c):
            if time.time() - t0 > secs:
                break
            if check(lib, v, d):
                c, progress = v, True
                break
    return c


def nontrivial(c):
    heads = [[h for h in t["includes"] if h in HEADERS] for t in c["tus"]]
    return any(len(h) != len(set(h)) for h in heads) or len(set(x for h in heads for x in set(h))) < sum(len(set(h)) for h in heads)


def systematic():
    """every non-empty sequence of the headers up to three, twice in one program, by both compilers and the oldest and newest standards"""
    seqs = [[a] for a in HEADERS] + [[a, b] for a in HEADERS for b in HEADERS] + [[a, b, c] for a in HEADERS for b in HEADERS for c in HEADERS if len({a, b, c}) == 3]
    text = [0x20, 0x51, 0xe9, 0x1f600, 0x20]
    for i, s in enumerate(seqs):
        calls = [{"f": f, "t": text, "x": 6 + i, "e": e, "d": "8"} for h in sorted(set(s)) for f in sorted(set(OFFERS[h])) for e in ("8", "16", "32", "w")]
        cxx = ["g++", "clang++"][i & 1]
        yield {"cxx": cxx, "tus": [{"includes": s, "using": i % 3, "calls": calls, "std": std, "flags": [], "when": when} for std, when in ((STDS[cxx][0], "main"), (STDS[cxx][3], "before"))]}


def worker(a):
    lib, scratch, seed, count, deadline, w = a
    r = random.Random(seed * 1000 + w)
    d = os.path.join(scratch, "c%d" % w)
    os.makedirs(d)
    out = []
    todo = [c for i, c in enumerate(systematic()) if i % CORES == w] + [None] * count
    for c in todo:
        if time.time() > deadline:
            return out, None, c is not None
        fixed = c is not None
        c = c or genClient(r)
        e = check(lib, c, d)
        out.append((fixed, c))
        if e:
            return out, (c, e), False
    return out, None, False


def search(tier, seed, scratch, repo, env, saveReplay):
    res, lib = Result(), Library(scratch, repo)
    count = 9 if tier == "quick" else 300
    deadline = time.time() + int(os.environ.get("CHECK_SECONDS", 240 if tier == "quick" else 650))
    with concurrent.futures.ProcessPoolExecutor(CORES) as p:
        done = list(p.map(worker, [(lib, scratch, seed, count, deadline, w) for w in range(CORES)]))
    fail = None
    for out, f, short in done:
        res.complete = res.complete and not short
        for fixed, c in out:
            res.evals += 1
            if fixed:
                res.enumerated += 1
            else:
                res.randoms += 1
            if nontrivial(c):
                res.hashes.add(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()[:8])
            if len(res.samples) < 3 and len(json.dumps(c)) < 1500:
                res.samples.append(json.dumps(c))
            for k in ["%s -std=%s" % (c["cxx"], t["std"]) for t in c["tus"]] + ["%d translation units" % len(c["tus"])] + ["calls " + {"main": "in main", "before": "before main"}[t["when"]] for t in c["tus"]]:
                res.classes[k] = res.classes.get(k, 0) + 1
        fail = fail or f
    if fail:
        c, e = fail
        d = os.path.join(scratch, "shrink")
        os.makedirs(d)
        if check(lib, c, d):
            c = shrink(lib, c, d, 90)
        errs = [check(lib, c, d) for _ in range(3)]
        if all(errs):
            res.fails.append((saveReplay("P28", json.dumps({"case": c, "error": errs[0]}, indent=1) + "\n"), errs[0]))
        else:
            res.notes.append("not reproducible: " + e)
    return res


def replay(path, scratch, repo, env):
    d = os.path.join(scratch, "r")
    os.makedirs(d)
    e = check(Library(scratch, repo), json.load(open(path))["case"], d)
    print(e)
    return e is not None
