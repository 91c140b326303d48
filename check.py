#!/usr/bin/env python3
"""Checks one property of ansak-string: builds /repo's working tree, searches for a failing
case, shrinks it, replays it, and writes evidence/<property>.json.

  check.py --property P04 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it did not.
"""
import sys
sys.dont_write_bytecode = True
import argparse, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "runner"))
import literals
REPO = os.environ.get("REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CORES = os.cpu_count() or 4
VERSIONS = list(range(7, 17))

INC = ["-I" + REPO + "/interface", "-I" + REPO + "/source"]
BASE = ["-g1", "-DNDEBUG", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]
SAN = ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COV = ["-fsanitize=fuzzer-no-link"]
SHIPPED = ["-O2", "-g1", "-DNDEBUG", "-w"]      # with g++, as the library is really built

# per property: harness file, how many random cases per worker, fuzzer runs per job
#               (quick: count, fuzz runs) (thorough: count, fuzz runs)
class Cfg:
    def __init__(self, src, quick, thorough, versions=(16,), fuzz=True, fuzzVersions=None, valgrind=0, short=False, flavours=None):
        self.src, self.quick, self.thorough, self.versions, self.fuzz, self.valgrind, self.short = src, quick, thorough, list(versions), fuzz, valgrind, short
        self.fuzzVersions = fuzzVersions or list(versions)
        self.flavours = flavours or {}      # version -> more flags for the harness; the library's version is the remainder by 1000

CFG = {
    "P01": Cfg("enc", (9000, 40000), (1500000, 4000000)),
    "P02": Cfg("enc", (25000, 60000), (2500000, 4000000)),
    "P03": Cfg("enc", (25000, 50000), (2500000, 4000000)),
    "P04": Cfg("enc", (15000, 50000), (2000000, 4000000)),
    "P05": Cfg("enc", (15000, 30000), (1500000, 2000000)),
    "P06": Cfg("enc", (15000, 50000), (2000000, 4000000)),
    "P07": Cfg("ucd", (4000, 25000), (120000, 800000), VERSIONS, fuzzVersions=[7, 16]),
    "P08": Cfg("ucd", (3000, 25000), (300000, 800000), VERSIONS, fuzzVersions=[7, 16]),
    "P09": Cfg("ucd", (3000, 25000), (300000, 800000), VERSIONS, fuzzVersions=[7, 16]),
    "P10": Cfg("ucd", (4000, 25000), (120000, 800000), VERSIONS, fuzzVersions=[7, 16]),
    "P11": Cfg("enc", (25000, 60000), (2500000, 4000000)),
    "P12": Cfg("enc", (20000, 60000), (2500000, 4000000)),
    "P13": Cfg("safe", (12000, 30000), (800000, 2000000), valgrind=150),
    "P14": Cfg("util", (20000, 50000), (2000000, 4000000)),
    "P15": Cfg("util", (12000, 30000), (800000, 2000000)),
    "P16": Cfg("util", (20000, 50000), (2000000, 4000000)),
    "P17": Cfg("util", (15000, 50000), (1500000, 4000000)),
    "P18": Cfg("util", (15000, 60000), (2000000, 4000000)),
    "P19": Cfg("util", (8000, 30000), (800000, 2000000)),
    "P20": Cfg("enc", (25000, 80000), (2500000, 6000000)),
    "P21": Cfg("hist", (2500, 0), (60000, 0), fuzz=False),
    "P25": Cfg("res", (9000, 0), (900000, 0), fuzz=False),
    "P26": Cfg("res", (100, 0), (1500, 0), fuzz=False),
    "P27": Cfg("var", (3000, 0), (300000, 0), fuzz=False),
    "P23": Cfg("w16", (15000, 40000), (1500000, 3000000), short=True),
    "P24": Cfg("tchar", (8000, 20000), (400000, 1000000), versions=(16, 1016), short=True, flavours={16: ["-DWIN32", "-D_UNICODE"], 1016: ["-DWIN32", "-D_MBCS"]}),
}

# P27: how the library, and the program that uses it, are built; the first as they are shipped
NOALIAS = ["-fno-strict-aliasing"]
VARIANTS = [
    ("g++", ["-std=gnu++11", "-O2", "-DNDEBUG"], ["-std=gnu++14", "-O2", "-DNDEBUG"]),
    ("g++", ["-std=c++20", "-O0", "-funsigned-char"], ["-std=c++20", "-O0", "-funsigned-char"]),
    ("g++", ["-std=c++11", "-O3", "-DNDEBUG", "-funsigned-char"], ["-std=c++17", "-O2"]),
    ("clang++", ["-std=c++17", "-O2", "-funsigned-char"], ["-std=c++14", "-O1", "-funsigned-char"]),
    ("clang++", ["-std=c++11", "-O0"], ["-std=c++20", "-O3", "-DNDEBUG", "-funsigned-char"]),
    ("clang++", ["-std=c++14", "-O3", "-DNDEBUG"], ["-std=c++17", "-O3", "-DNDEBUG"]),
    ("g++", ["-std=c++20", "-Os", "-D_GLIBCXX_USE_CXX11_ABI=0"], ["-std=c++20", "-O1", "-D_GLIBCXX_USE_CXX11_ABI=0"]),
    ("g++", ["-std=c++14", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"], ["-std=c++14", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"]),
]

PYTHON = {"P22": "mkdata", "P28": "clients"}    # these are driven by a module in runner/

ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66:symbolize=0:report_bugs=1")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Builder:
    """compiles what a property needs, in parallel, into a scratch directory"""

    def __init__(self, scratch):
        self.dir = scratch
        self.jobs = {}          # object -> future
        self.pool = concurrent.futures.ThreadPoolExecutor(CORES)

    def obj(self, src, flags, tag, compiler="clang++"):
        out = os.path.join(self.dir, "%s-%s.o" % (tag, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))))
        if out not in self.jobs:
            def go():
                r = sh([compiler, "-c", src, "-o", out] + flags)
                if r.returncode:
                    raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
                return out
            self.jobs[out] = self.pool.submit(go)
        return self.jobs[out]

    def sources(self, version):
        src = REPO + "/source"
        files = sorted(os.path.join(src, f) for f in os.listdir(src) if re.search(r"\.(cxx|cpp|cc)$", f))
        bits = src + "/bits%d" % version
        return files + sorted(os.path.join(bits, f) for f in os.listdir(bits) if re.search(r"\.(cxx|cpp|cc)$", f))

    def library(self, version, flags, tag, shipped=False):
        files, bits = self.sources(version), REPO + "/source/bits%d" % version
        if shipped:
            return [self.obj(f, ["-std=gnu++11", "-I" + bits] + INC + SHIPPED, "%s-v%d" % (tag, version), "g++") for f in files]
        return [self.obj(f, ["-std=gnu++11", "-I" + bits] + INC + BASE + flags, "%s-v%d" % (tag, version)) for f in files]

    def harness(self, name, flags, tag, shipped=False):
        if shipped:
            return self.obj(os.path.join(HARNESS, name), ["-std=c++20", "-I" + HARNESS] + INC + SHIPPED + ["-fno-strict-aliasing"] + flags, tag, "g++")
        return self.obj(os.path.join(HARNESS, name), ["-std=c++14", "-I" + HARNESS] + INC + BASE + flags, tag)

    def link(self, out, objs, flags):
        def go():
            r = sh(["clang++"] + [o.result() for o in objs] + flags + ["-o", os.path.join(self.dir, out)])
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-3000:]))
            return os.path.join(self.dir, out)
        return go

    def finish(self, links):
        names = list(links)
        with concurrent.futures.ThreadPoolExecutor(CORES) as p:
            return dict(zip(names, p.map(lambda n: links[n](), names)))


def support(b, tag, flags):
    return [b.harness(f, flags, tag) for f in ("engine.cpp", "gen.cpp", "model.cpp")]


def versionsFor(prop):
    """the versions the property is checked with, and those of its Unicode tables that were changed"""
    v = CFG[prop].versions
    if v == [16] and not CFG[prop].short:
        v = v + [x for x in literals.changedVersions(REPO) if x != 16]
    return v


def build(b, prop, tier):
    """returns {name: binary}; names: run-<version>, fuzz-<version>, tsan, plain"""
    cfg, links, num = CFG[prop], {}, int(prop[1:])
    versions = versionsFor(prop)
    plain = ["-O1"]
    if prop == "P21":
        for v in versions:
            links["run-%d" % v] = b.link("run-%d" % v, b.library(v, plain, "pl") + [b.harness("props_hist.cpp", plain, "pl")] + support(b, "pl", plain), ["-lpthread"])
        ts = ["-O1", "-fsanitize=thread"]
        links["tsan"] = b.link("tsan", b.library(16, ts, "ts") + [b.harness("props_hist.cpp", ts, "ts")] + support(b, "ts", ts), ts + ["-lpthread"])
        return b.finish(links)
    if prop == "P26":
        plain = ["-O2"]
        for v in versions:
            links["run-%d" % v] = b.link("run-%d" % v, b.library(v, plain, "pl") + [b.harness("props_res.cpp", plain + ["-DONLY=26"], "pl")] + support(b, "pl", plain), [])
        return b.finish(links)
    if prop == "P27":
        names = {}
        for v in versions:
            names[v] = []
            bits = REPO + "/source/bits%d" % v
            for i, (cxx, lib, user) in enumerate(VARIANTS):
                if tier == "quick" and v != versions[-1] and i not in (0, 1 + v % 7):
                    continue    # the versions differ in their tables only
                files = b.sources(v)
                common = ["-g1", "-w", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"] + NOALIAS
                objs = [b.obj(f, lib + common + ["-I" + bits] + INC, "var%d-%d" % (i, v), cxx) for f in files]
                objs.append(b.obj(os.path.join(HARNESS, "shim.cpp"), user + common + ["-I" + HARNESS] + INC, "var%d-%d" % (i, v), cxx))
                name = "variant-%d-%d.so" % (i, v)
                links[name] = b.link(name, objs, ["-shared", "-Wl,-Bsymbolic"])
                names[v].append("%s\t%s %s (the program %s)" % (os.path.join(b.dir, name), cxx, " ".join(lib), " ".join(user)))
            links["run-%d" % v] = b.link("run-%d" % v, [b.harness("props_var.cpp", ["-O2"], "sup")] + support(b, "sup", ["-O2"]), ["-ldl"])
            with open(os.path.join(b.dir, "variants-%d" % v), "w") as f:
                f.write("".join(n + "\n" for n in names[v]))
        return b.finish(links)
    flags = SAN + COV

    def mine(v):
        o = [b.harness("props_%s.cpp" % cfg.src, flags + ["-DONLY=%d" % num] + (["-fshort-wchar", "-fno-builtin"] if cfg.short else []) + cfg.flavours.get(v, []), "san%d" % (v // 1000))]
        if cfg.src == "enc":
            o.append(b.harness("trimws.cpp", flags, "san"))
        return o
    rest = support(b, "sup", ["-O2"])
    for v in versions:
        links["run-%d" % v] = b.link("run-%d" % v, b.library(v % 1000, flags, "san") + mine(v) + rest, ["-fsanitize=address,undefined"] + (["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"] if prop == "P25" else []))
    if cfg.fuzz:
        fz = [b.harness("engine.cpp", ["-O2", "-DFUZZ_MAIN"], "fuzz")] + rest[1:]
        for v in (cfg.fuzzVersions if tier == "quick" else cfg.versions):
            links["fuzz-%d" % v] = b.link("fuzz-%d" % v, b.library(v % 1000, flags, "san") + mine(v) + fz, ["-fsanitize=fuzzer,address,undefined"])
    if prop != "P25":
        for v in versions if len(versions) <= 2 else versions[-1:]:
            h = b.harness("props_%s.cpp" % cfg.src, ["-O2", "-DONLY=%d" % num, "-fshort-wchar", "-fno-builtin"] + cfg.flavours.get(v, []), "ship%d" % (v // 1000)) if cfg.short else b.harness("props_%s.cpp" % cfg.src, ["-DONLY=%d" % num], "ship", True)
            more = [b.harness("trimws.cpp", [], "ship", True)] if cfg.src == "enc" else []
            links["ship-%d" % v] = b.link("ship-%d" % v, b.library(v % 1000, [], "ship", True) + [h] + more + rest, [])
    if cfg.valgrind:
        links["valgrind"] = b.link("valgrind", b.library(16, plain, "pl") + [b.harness("props_%s.cpp" % cfg.src, plain + ["-DONLY=%d" % num], "pl")] + rest, [])
    return b.finish(links)


# ------------------------------------------------------------------ listed findings

def knownFindings():
    """known-findings.txt: (property, set of harness keys, text) for each 'known:' line"""
    r = []
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\w+) unicode=(\d+) toLower\(([0-9A-F.]+)\)(\+[0-9A-F]+|=same) \| (.*)", line.strip())
        if not m:
            continue
        prop, ver, spec, how, text = m.groups()
        a, _, z = spec.partition("..")
        keys = set()
        for x in range(int(a, 16), int(z or a, 16) + 1):
            keys.add("%s unicode=%s toLower(%X)=%X" % (prop, ver, x, x if how == "=same" else x + int(how, 16)))
        r.append((prop, keys, "unicode=%s toLower(%s)%s: %s" % (ver, spec, how, text)))
    return r


# ------------------------------------------------------------------ running

class Result:
    def __init__(self):
        self.evals = self.enumerated = self.randoms = self.fuzzed = self.valgrind = self.shipped = 0
        self.hashes, self.classes, self.known, self.samples = set(), {}, {}, []
        self.rule, self.complete, self.fails, self.notes, self.truncated = "", True, [], [], False


def envFor(version, scratch, extra=None):
    e = dict(ENV)
    e["UCD_VERSION"] = str(version)
    e["KNOWN_FILE"] = os.path.join(scratch, "known.txt")
    e["VARIANTS"] = os.path.join(scratch, "variants-%d" % version)
    e["LITERALS"] = os.path.join(scratch, "literals.txt")
    e.update(extra or {})
    return e


def dumpCase(binary, prop, scratch, shm, name, version):
    out = os.path.join(scratch, name + ".case")
    subprocess.run([binary, "--prop", prop, "--dump", shm, "--to", out], env=envFor(version, scratch), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return open(out).read() if os.path.exists(out) else None


def runWorker(binary, prop, version, seed, worker, workers, count, cap, level, scratch, name, wrap=None, limit=None):
    shm, out, hashes, log = (os.path.join(scratch, name + x) for x in (".shm", ".json", ".hashes", ".log"))
    cmd = (wrap or []) + [binary, "--prop", prop, "--seed", str(seed), "--worker", str(worker), "--workers", str(workers), "--count", str(count),
                          "--time", str(cap), "--level", str(level), "--shm", shm, "--out", out, "--hashes", hashes]
    r = {"cmd": cmd, "name": name, "binary": binary, "prop": prop, "version": version, "fail": None, "data": None}
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=envFor(version, scratch), start_new_session=True)
        try:
            rc = p.wait(limit or (2 * cap + 120))
        except subprocess.TimeoutExpired:
            rc = "timeout"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    if rc in (0, 1) and os.path.exists(out):
        r["data"] = json.load(open(out))
        if r["data"]["fail"]:
            r["fail"] = (r["data"]["fail"], r["data"]["message"])
    else:
        case = dumpCase(binary, prop, scratch, shm, name, version)
        tail = open(log, errors="replace").read()
        m = re.search(r"SUMMARY:.*|runtime error:.*|Assertion.*", tail)
        r["fail"] = (case, "does not return" if rc == "timeout" else "crash (%s): %s" % (rc, m.group(0) if m else tail[-200:]))
    r["hashes"] = open(hashes, "rb").read() if os.path.exists(hashes) else b""
    if os.path.exists(shm):
        os.unlink(shm)
    return r


def runFuzz(binary, runner, prop, version, seed, k, runs, cap, scratch, name):
    corpus = os.path.join(scratch, name + ".corpus")
    os.makedirs(corpus)
    e = envFor(version, scratch, {"FUZZ_PROP": prop})
    subprocess.run([runner, "--prop", prop, "--seed", str(seed * 31 + k), "--corpus", corpus, "--count", "150"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    art = os.path.join(scratch, name + ".art-")
    cmd = [binary, "-runs=%d" % runs, "-seed=%d" % (1 + (seed * 1009 + k * 77 + version) % 2000000000), "-max_len=400", "-use_value_profile=1", "-timeout=60", "-rss_limit_mb=4000",
           "-max_total_time=%d" % cap, "-detect_leaks=0", "-print_final_stats=1", "-artifact_prefix=" + art, corpus]
    log = os.path.join(scratch, name + ".log")
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(cap + 200)
        except subprocess.TimeoutExpired:
            rc = "timeout"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    text = open(log, errors="replace").read()
    m = re.search(r"number_of_executed_units:\s*(\d+)", text)
    n = int(m.group(1)) if m else 0
    m = re.search(r"cov: (\d+)", text[text.rfind("DONE"):] if "DONE" in text else text)
    r = {"runs": n, "cov": int(m.group(1)) if m else 0, "fail": None}
    arts = sorted(f for f in os.listdir(scratch) if f.startswith(name + ".art-") and not f.startswith(name + ".art-slow") and not f.startswith(name + ".art-oom"))
    if rc != 0 and arts:
        out = os.path.join(scratch, name + ".case")
        subprocess.run([runner, "--prop", prop, "--frombytes", os.path.join(scratch, arts[0]), "--to", out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        m = re.search(r"FAIL .*|SUMMARY:.*|runtime error:.*", text)
        r["fail"] = (open(out).read() if os.path.exists(out) else None, "fuzzing: " + (m.group(0) if m else "crash"))
    elif rc != 0 and not arts:
        r["note"] = "fuzzer ended with %s: %s" % (rc, text[-300:])
    shutil.rmtree(corpus, ignore_errors=True)
    return r


def replayOnce(binary, prop, version, path, scratch):
    """True: fails"""
    p = subprocess.Popen([binary, "--prop", prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=envFor(version, scratch, {"REPLAYING": "1"}), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return True
    return p.returncode != 0 and p.returncode != 3


def saveReplay(prop, text):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.case" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text)
    return path


def confirm(prop, worker, case, message, version, scratch, runner, budget):
    """shrink and replay; returns (path, message) or None when it cannot be reproduced"""
    hp = worker["prop"] if worker else prop
    if case is not None:
        src = os.path.join(scratch, "found.case")
        open(src, "w").write(case)
        best = case + "# " + message.replace("\n", " ") + "\n"
        if replayOnce(runner, hp, version, src, scratch):
            to = os.path.join(scratch, "shrunk.case")
            try:
                subprocess.run([runner, "--prop", hp, "--shrink", src, "--to", to, "--time", str(budget)], env=envFor(version, scratch, {"REPLAYING": "1"}),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 150)
            except subprocess.TimeoutExpired:
                pass
            for text in ([open(to).read()] if os.path.exists(to) else []) + [best]:
                path = saveReplay(prop, text)
                if all(replayOnce(runner, hp, version, path, scratch) for _ in range(3)):
                    m = re.search(r"^# (.*)$", text, re.M)
                    return path, m.group(1) if m else message
                os.unlink(path)
    # not by itself: the whole seeded run it came from is the reproduction
    if worker:
        ok = True
        for i in range(2):
            w = runWorker(*worker["args"][:10], scratch, "again%d" % i, **worker["kw"])
            ok = ok and w["fail"] is not None
        if ok:
            a = worker["args"]
            text = "run\nproperty %s\nunicode %d\nseed %d worker %d workers %d count %d time %s level %d\n# depends on the cases before it: %s\n# last case:\n%s" % (
                hp, a[2], a[3], a[4], a[5], a[6], a[7], a[8], message.replace("\n", " "), "".join("# " + l + "\n" for l in (case or "").splitlines()))
            return saveReplay(prop, text), message
    return None


def collect(res, w):
    d = w["data"]
    if d:
        res.evals += d["evaluations"]; res.enumerated += d["enumerated"]; res.randoms += d["random"]
        res.rule = d["rule"]
        res.complete = res.complete and d["enum_complete"]
        res.truncated = res.truncated or d["truncated"]
        for k, n in d["classes"].items():
            res.classes[k] = res.classes.get(k, 0) + n
        for k, n in d["known"].items():
            res.known[k] = res.known.get(k, 0) + n
        tag = w["version"]
        h = w["hashes"]
        for i in range(0, len(h), 8):
            res.hashes.add((tag, h[i:i + 8]))
        res.samples += d["samples"][:2]


def search(prop, tier, seed, scratch):
    cfg, res = CFG[prop], Result()
    b = Builder(scratch)
    bins = build(b, prop, tier)
    tBuild = time.time()
    quick = tier == "quick"
    count, fuzzRuns = cfg.quick if quick else cfg.thorough
    cap = 150 if quick else 400
    level = 0 if quick else 1
    many = len(cfg.versions) > 1
    workers = (2 if quick else 8) if many else CORES
    jobs = []
    for v in versionsFor(prop):
        for w in range(workers):
            jobs.append(("run", (bins["run-%d" % v], prop, v, seed, w, workers, count, cap, level), {}))
    for name in sorted(bins):
        if name.startswith("ship-"):
            for w in range(CORES):
                jobs.append(("ship", (bins[name], prop, int(name[5:]), seed + 900, w, CORES, max(1, count // 4), cap, level), {}))
    if prop == "P21":
        for w in range(CORES):
            jobs.append(("run", (bins["tsan"], "P21T", 16, seed, w, CORES, 120 if quick else 6000, cap, level), {}))
    if cfg.valgrind:
        n = cfg.valgrind if quick else cfg.valgrind * 60
        for w in range(CORES):      # a part of the domain no other stage enumerates: random cases only
            jobs.append(("valgrind", (bins["valgrind"], prop, 16, seed + 500, w, CORES, n, cap, 9), {"wrap": ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--leak-check=no"], "limit": 2 * cap + 300}))
    for name in sorted(bins):
        if name.startswith("fuzz-"):
            v = int(name[5:])
            n = max(1, CORES // len([x for x in bins if x.startswith("fuzz-")]))
            for k in range(n):
                jobs.append(("fuzz", (bins[name], bins["run-%d" % v], prop, v, seed, k, fuzzRuns, 60 if quick else 300), {}))
    failing = []

    deadline = time.time() + int(os.environ.get("CHECK_SECONDS", 420 if quick else 700))

    def go(ij):
        i, (what, args, kw) = ij
        if failing:
            return what, None
        # what is left of the time, shared between the rounds of jobs still to come
        share = max(8, int((deadline - time.time()) / -(-(len(jobs) - i) // CORES)))
        if what == "fuzz":
            r = runFuzz(*args[:7], min(args[7], share), scratch, "fuzz%d" % i)
        else:
            args = args[:7] + (min(args[7], share),) + args[8:]
            r = runWorker(*args, scratch, "job%d" % i, **kw)
            r["args"], r["kw"] = args, kw
        if r["fail"]:
            failing.append((what, args, r))
        return what, r

    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        done = list(pool.map(go, enumerate(jobs)))
    cov = []
    for what, r in done:
        if r is None:
            continue
        if what == "fuzz":
            res.fuzzed += r["runs"]; cov.append(r["cov"])
            if r.get("note"):
                res.notes.append(r["note"])
        else:
            before = res.evals
            collect(res, r)
            if what == "valgrind":
                res.valgrind += res.evals - before
            if what == "ship":
                res.shipped += res.evals - before
    res.evals += res.fuzzed
    res.cov = max(cov) if cov else 0
    for what, args, r in failing[:4]:
        case, message = r["fail"]
        version = args[3] if what == "fuzz" else args[2]
        runner = bins["run-%d" % version] if what == "fuzz" else args[0]
        c = confirm(prop, None if what == "fuzz" else r, case, message, version, scratch, runner, 25 if quick else 90) if what != "valgrind" else confirmValgrind(prop, r, case, message, version, scratch)
        if c:
            res.fails.append(c)
            break
        res.notes.append("not reproducible: " + message[:300])
    return res


def confirmValgrind(prop, r, case, message, version, scratch):
    if case is None:
        return None
    path = saveReplay(prop, case + "# valgrind: " + message.replace("\n", " ") + "\n")
    for _ in range(3):
        q = subprocess.run(r["kw"]["wrap"] + [r["binary"], "--prop", prop, "--replay", path], env=envFor(version, scratch), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if q.returncode == 0:
            os.unlink(path)
            return None
    return path, message


def replay(prop, path, scratch):
    text = open(path).read()
    if prop in PYTHON:
        return __import__(PYTHON[prop]).replay(path, scratch, REPO, ENV)
    bins = build(Builder(scratch), prop, "thorough" if prop == "P27" else "quick")
    hp = re.search(r"^property (\w+)", text, re.M).group(1)
    version = int(re.search(r"^unicode (\d+)", text, re.M).group(1))
    if "# valgrind:" in text:
        return subprocess.run(["valgrind", "-q", "--error-exitcode=9", bins["valgrind"], "--prop", prop, "--replay", path], env=envFor(version, scratch)).returncode != 0
    return any(replayWith(bins[x], hp, version, text, path, scratch) for x in (["tsan"] if hp == "P21T" else ["run-%d" % version, "ship-%d" % version]) if x in bins)


def replayWith(binary, hp, version, text, path, scratch):
    if text.startswith("run\n"):
        a = re.search(r"seed (\d+) worker (\d+) workers (\d+) count (\d+) time (\S+) level (\d+)", text).groups()
        w = runWorker(binary, hp, version, int(a[0]), int(a[1]), int(a[2]), int(a[3]), float(a[4]), int(a[5]), scratch, "replay")
        print(w["fail"] and w["fail"][1])
        return w["fail"] is not None
    return subprocess.run([binary, "--prop", hp, "--replay", path], env=envFor(version, scratch, {"REPLAYING": "1"})).returncode != 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, seed, t0 = a.property, int(os.environ.get("VERIF_SEED", "1") or 1), time.time()
    scratch = tempfile.mkdtemp(prefix="ansak-check-")
    os.chmod(scratch, 0o755)
    try:
        findings = knownFindings()
        with open(os.path.join(scratch, "known.txt"), "w") as f:
            for p, keys, _ in findings:
                f.write("".join(k + "\n" for k in sorted(keys)))
        lits = literals.write(REPO, os.path.join(scratch, "literals.txt"), [v % 1000 for v in versionsFor(prop)] if prop in CFG else [])
        if a.replay:
            bad = replay(prop, a.replay, scratch)
            print("REPLAY %s" % ("fails" if bad else "passes"))
            return 1 if bad else 0
        if prop in PYTHON:
            res = __import__(PYTHON[prop]).search(a.tier, seed, scratch, REPO, ENV, saveReplay)
        else:
            res = search(prop, a.tier, seed, scratch)
        met = []
        for p, keys, text in findings:
            if p == prop and any(k in res.known for k in keys):
                met.append(text)
                print("KNOWN-FINDING: property=%s %s" % (p, text))
        cov = {"evaluations": res.evals, "distinct_nontrivial": len(res.hashes), "rule": "a case is non-trivial when " + res.rule,
               "samples": res.samples[:12], "enumerated": res.enumerated, "random": res.randoms, "fuzzed": res.fuzzed,
               "classes": dict(sorted(res.classes.items())), "enumeration_complete": res.complete, "time_capped": res.truncated}
        if getattr(res, "cov", 0):
            cov["fuzz_edges"] = res.cov
        if res.valgrind:
            cov["under_valgrind"] = res.valgrind
        if res.shipped:
            cov["with_gcc_as_shipped"] = res.shipped
        if prop in CFG:
            cov["unicode_versions"] = sorted(set(v % 1000 for v in versionsFor(prop)))
        if res.notes:
            cov["notes"] = res.notes
        if prop == "P27":
            cov["builds"] = ["%s %s (the program %s)" % (cxx, " ".join(lib), " ".join(user)) for cxx, lib, user in VARIANTS]
        cov["source_literals_tried"], cov["of_them_novel"] = lits
        if met:
            cov["known_findings_met"] = met
        ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ["clang 18 on x86-64 Linux, C++11 library build, 32-bit wchar_t" + (" replaced by 16-bit (-fshort-wchar)" if prop in ("P23", "P24") else ""),
                              "distinct cases are counted by 64-bit hash, at most 400000 per worker; fuzzer inputs are counted in evaluations only"],
              "wall_s": round(time.time() - t0, 2), "violations": len(res.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for path, message in res.fails:
            print("property %s: %s" % (prop, message))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if not res.fails:
            print("property %s held: %d cases (%d enumerated, %d random, %d fuzzed), %d distinct non-trivial, %.1f s" % (
                prop, res.evals, res.enumerated, res.randoms, res.fuzzed, len(res.hashes), time.time() - t0))
            for n in res.notes:
                print("note: " + n)
        return 1 if res.fails else 0
    except BuildError as e:
        print("cannot build: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
