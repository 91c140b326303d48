"""P22: the test-data tool, run as a process on generated Unicode data files and faults."""
import concurrent.futures, errno, hashlib, json, os, random, re, resource, shutil, signal, subprocess, time

CORES = os.cpu_count() or 4
SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/uio.h>
/* after FAULT_READ_AFTER bytes read from the file named FAULT_FILE, reading fails; likewise writing and closing */
static int is(int fd)
{
    char l[64], t[4096]; const char* f = getenv("FAULT_FILE");
    if (!f) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, t, sizeof t - 1);
    if (n < 0) return 0;
    t[n] = 0;
    return strcmp(t, f) == 0;
}
static long lim(const char* n) { const char* v = getenv(n); return v ? atol(v) : -1; }
static long nread, nwritten;
static int code(void) { const char* v = getenv("FAULT_ERRNO"); return v ? atoi(v) : EIO; }
ssize_t read(int fd, void* b, size_t n)
{
    static ssize_t (*real)(int, void*, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    long m = lim("FAULT_READ_AFTER");
    if (m >= 0 && is(fd))
    {
        if (nread >= m) { errno = code(); return -1; }
        if ((long)n > m - nread) n = m - nread;
        ssize_t r = real(fd, b, n);
        if (r > 0) nread += r;
        return r;
    }
    return real(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    static ssize_t (*real)(int, const void*, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    long m = lim("FAULT_WRITE_AFTER");
    if (m >= 0 && is(fd))
    {
        if (nwritten >= m) { errno = code(); return -1; }
        if ((long)n > m - nwritten) n = m - nwritten;
        ssize_t r = real(fd, b, n);
        if (r > 0) nwritten += r;
        return r;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    static ssize_t (*real)(int, const struct iovec*, int);
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    if (lim("FAULT_WRITE_AFTER") >= 0 && is(fd))
    {
        ssize_t sum = 0;
        for (int i = 0; i < c; ++i)
        {
            if (!v[i].iov_len) continue;
            ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return sum ? sum : r;
            sum += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return sum;
    }
    return real(fd, v, c);
}
'''
MODES = ["plain", "crlf", "args", "missing-input", "bad-output", "full-device", "size-limit", "read-fault", "write-fault", "no-fields", "input-is-directory", "output-exists", "unreadable-input"]


class Result:
    def __init__(self):
        self.evals = self.enumerated = self.randoms = self.fuzzed = self.valgrind = self.shipped = 0
        self.hashes, self.classes, self.known, self.samples = set(), {}, {}, []
        self.rule, self.complete, self.fails, self.notes, self.truncated = "the data file has at least one listed and one unlisted record, or an operation fails", True, [], [], False


CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf".split()
WORDS = "LATIN SMALL CAPITAL LETTER A B WITH ACUTE DIGIT SIGN MARK PRIVATE SURROGATE USE HIGH LOW FIRST LAST CJK".split()


def record(r):
    """(line, listed)"""
    x = r.choice([r.randrange(0x80), r.randrange(0x10000), r.randrange(0x110000)])
    code = "%04X" % x
    k = r.randrange(12)
    tail = [str(r.randrange(240)), r.choice(["L", "R", "ON", "EN", "NSM", "BN"]), r.choice(["", "", "<compat> 0020", "0041 0300", "<circle> 0031"]), "", "", r.choice(["", "1", "1/2"]), r.choice("NY"),
            r.choice(["", "", "PRIVATE USE ONE", "START OF SELECTED AREA", "OLD NAME (Surrogate)", "Private thing", "SURROGATE"]), r.choice(["", "*"]), r.choice(["", "0041"]), r.choice(["", "0061"]), r.choice(["", "0041"])]
    if k == 0:
        name = r.choice(["<Non Private Use High Surrogate, First>", "<Non Private Use High Surrogate, Last>", "<Private Use High Surrogate, First>", "<Private Use High Surrogate, Last>", "<Low Surrogate, First>", "<Low Surrogate, Last>"])
        return ";".join([code, name, "Cs"] + tail), False
    if k == 1:
        name = r.choice(["<Private Use, First>", "<Private Use, Last>", "<Plane 15 Private Use, First>", "<Plane 15 Private Use, Last>", "<Plane 16 Private Use, First>", "<Plane 16 Private Use, Last>"])
        return ";".join([code, name, "Co"] + tail), False
    if k == 2:
        return ";".join([code, "<control>", "Cc"] + tail), True
    if k == 3:
        return ";".join([code, r.choice(["<CJK Ideograph, First>", "<CJK Ideograph, Last>", "<Hangul Syllable, First>"]), "Lo"] + tail), True
    name = " ".join(r.choice(WORDS) for _ in range(r.randint(1, 1 + r.choice([1, 4, 60]))))
    return ";".join([code, name, r.choice(CATS)] + tail), True


def shortRecord(r):
    # the shortest a record of the database gets
    return "%04X;A;Lu;0;L;;;;;N;;;;;" % r.randrange(0x10000), True


def genCase(r, mode=None):
    mode = mode or r.choice(MODES + ["plain"] * 8 + ["read-fault", "write-fault", "size-limit"] * 2)
    n = r.choice([1, 2, 3, 9, 10, 11, 19, 20, 21, 30, r.randint(1, 60), r.randint(1, 60), r.randint(60, 600), r.randint(600, 4000)])
    recs = [shortRecord(r) if r.randrange(6) == 0 else record(r) for _ in range(n)]
    if r.randrange(5) == 0:
        recs = [record(r) for _ in range(n)]
    return {"mode": mode, "records": [[l, int(k)] for l, k in recs], "final_newline": r.randrange(4) != 0, "final_blank": r.randrange(5) == 0, "x": r.randrange(1 << 20)}


def expected(c):
    return [l.split(";")[0] for l, k in c["records"] if k]


def dataOf(c, eol="\n"):
    lines = [l for l, _ in c["records"]]
    if c["mode"] == "no-fields":
        lines.insert(c["x"] % (len(lines) + 1), "THIS LINE HAS NO FIELDS AT ALL")
    s = eol.join(lines)
    if c["final_newline"] or c["final_blank"]:
        s += eol
    if c["final_blank"]:
        s += eol
    return s


def parse(text):
    """the listed values, or None if the output is not the array"""
    m = re.fullmatch(r"\s*(?:const\s+)?char32_t\s+validUnicodeCodePoints\s*\[\s*\]\s*=\s*\{([^{}]*)\}\s*;\s*", text)
    if not m:
        return None
    items = [x.strip() for x in m.group(1).split(",")]
    if not items or items[-1] != "0xFFFFFFFF":
        return None
    r = []
    for x in items[:-1]:
        if not re.fullmatch(r"0x[0-9A-Fa-f]+", x):
            return None
        r.append(x[2:])
    return r


class Tool:
    def __init__(self, scratch, repo, env):
        self.dir, self.env, self.exe, self.shim = scratch, env, os.path.join(scratch, "mkUnicodeTestData"), os.path.join(scratch, "fault.so")
        self.plainExe = self.exe + "-plain"
        src = [os.path.join(repo, "mkUnicodeTestData", f) for f in sorted(os.listdir(os.path.join(repo, "mkUnicodeTestData"))) if f.endswith((".cxx", ".cpp"))]
        inc = ["-I" + repo + "/interface", "-I" + repo + "/source"]
        jobs = [["clang++", "-std=gnu++11", "-DNDEBUG", "-g1", "-O1", "-Wno-everything", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + inc + src + ["-o", self.exe],
                ["clang++", "-std=gnu++11", "-DNDEBUG", "-O1", "-Wno-everything"] + inc + src + ["-o", self.plainExe]]
        with open(os.path.join(scratch, "fault.c"), "w") as f:
            f.write(SHIM)
        jobs.append(["clang", "-shared", "-fPIC", "-O1", os.path.join(scratch, "fault.c"), "-o", self.shim, "-ldl"])
        with concurrent.futures.ThreadPoolExecutor(4) as p:
            for r in p.map(lambda j: subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs):
                if r.returncode:
                    if "libs" not in self.__dict__:
                        self.link(repo, src, inc)
                        break
        for x in (self.exe, self.plainExe, self.shim):
            if not os.path.exists(x):
                raise RuntimeError("cannot build the test-data tool: " + r.stdout[-2000:])

    def link(self, repo, src, inc):
        # the tool may use more of the library than its headers
        self.libs = True
        lib = [os.path.join(repo, "source", f) for f in sorted(os.listdir(repo + "/source")) if f.endswith(".cxx")]
        lib += [os.path.join(repo, "source/bits16", f) for f in sorted(os.listdir(repo + "/source/bits16")) if f.endswith(".cxx")]
        for exe, fl in ((self.exe, ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]), (self.plainExe, [])):
            subprocess.run(["clang++", "-std=gnu++11", "-DNDEBUG", "-O1", "-Wno-everything", "-I" + repo + "/source/bits16"] + fl + inc + src + lib + ["-o", exe])
        if not os.path.exists(self.shim):
            subprocess.run(["clang", "-shared", "-fPIC", "-O1", os.path.join(self.dir, "fault.c"), "-o", self.shim, "-ldl"])

    def run(self, args, env=None, plain=False, fsize=None, user=None):
        def pre():
            # never more than this, whatever the tool does
            lim = 64 << 20
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                lim = fsize
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            if user is not None:
                os.setgroups([]); os.setgid(user); os.setuid(user)
        e = dict(self.env)
        e.update(env or {})
        try:
            p = subprocess.run([self.plainExe if plain else self.exe] + args, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               preexec_fn=pre, timeout=60)
        except subprocess.TimeoutExpired:
            return -1, True, "does not return"
        err = p.stderr.decode(errors="replace")
        bad = p.returncode < 0 or "Sanitizer" in err or "runtime error:" in err or p.returncode > 127
        return p.returncode, bad, err


def check(tool, c, d):
    """None, or what is wrong; d is a directory of its own"""
    inp, out = os.path.join(d, "in.txt"), os.path.join(d, "out.h")
    for f in (inp, out):
        if os.path.exists(f):
            os.unlink(f)
    mode, x = c["mode"], c["x"]
    data = dataOf(c, "\r\n" if mode == "crlf" else "\n")
    with open(inp, "w", newline="") as f:
        f.write(data)
    want = expected(c)

    def complete(rc, bad, err, where=out):
        if bad:
            return "the tool crashed (%s): %s" % (rc, err[-300:])
        if rc != 0:
            return "exit %d on a good data file" % rc
        got = parse(open(where, errors="replace").read())
        if got is None:
            return "the output is not an array with the end marker"
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            return "record %d: listed %s, expected %s (%d listed, %d expected)" % (i, got[i:i + 3], want[i:i + 3], len(got), len(want))
        return None

    def fails(rc, bad, err, why):
        if bad:
            return "the tool crashed (%s) on %s: %s" % (rc, why, err[-300:])
        return "exit 0 although " + why if rc == 0 else None

    if mode in ("plain", "crlf"):
        return complete(*tool.run([inp, out]))
    if mode == "output-exists":
        with open(out, "w") as f:
            f.write("stale content, longer than the array " * (x % 3000))
        return complete(*tool.run([inp, out]))
    if mode == "args":
        args = [[], [inp], [inp, out, out], [inp, out, "x", "y"]][x % 4]
        return fails(*tool.run(args), why="%d arguments were given" % len(args))
    if mode == "missing-input":
        return fails(*tool.run([[os.path.join(d, "nothere.txt"), "", os.path.join(inp, "below")][x % 3], out]), why="the input does not exist")
    if mode == "input-is-directory":
        return fails(*tool.run([d, out]), why="the input cannot be read")
    if mode == "bad-output":
        o = [os.path.join(d, "nodir", "out.h"), d, "", os.path.join(inp, "out.h")][x % 4]
        return fails(*tool.run([inp, o]), why="the output cannot be created")
    if mode == "full-device":
        return fails(*tool.run([inp, "/dev/full"]), why="the output cannot be written")
    if mode == "no-fields":
        return fails(*tool.run([inp, out]), why="a record has no fields")
    if mode == "unreadable-input":
        if os.geteuid() != 0:
            return None
        sub = os.path.join(d, "u")
        os.makedirs(sub, exist_ok=True)
        os.chmod(d, 0o755); os.chmod(sub, 0o777)
        os.chmod(inp, 0)
        try:
            r = tool.run([inp, os.path.join(sub, "o.h")], user=65534)
        except (OSError, subprocess.SubprocessError):
            return None         # cannot become another user here
        finally:
            os.chmod(inp, 0o644)
            shutil.rmtree(sub, ignore_errors=True)
        return fails(*r, why="the input may not be read")
    r = tool.run([inp, out], plain=True)
    e = complete(*r)
    if e:
        return e
    size = os.path.getsize(out)
    whole = open(out, "rb").read()
    os.unlink(out)
    if mode == "size-limit":
        lim = x % (size + 1) if x % 5 else [size - 1, size, size - 2, 0, size + 1][x // 5 % 5]
        r = tool.run([inp, out], plain=True, fsize=lim)
        return complete(*r) if lim >= size else fails(*r, why="only %d of %d bytes of the output could be written" % (lim, size))
    if mode == "write-fault":
        lim = x % size if x % 5 else [size - 1, 0, size - 2, size // 2][x // 5 % 4]
        r = tool.run([inp, out], plain=True, env={"LD_PRELOAD": tool.shim, "FAULT_FILE": os.path.realpath(d) + "/out.h", "FAULT_WRITE_AFTER": str(lim), "FAULT_ERRNO": str([errno.EIO, errno.ENOSPC, errno.EDQUOT][x % 3])})
        if r[0] == 0 and os.path.exists(out) and open(out, "rb").read() == whole:
            return None         # the fault was not met
        return fails(*r, why="writing failed after %d of %d bytes" % (lim, size))
    # read-fault
    lim = x % len(data) if x % 5 else [len(data) - 1, 0, len(data) // 2][x // 5 % 3]
    r = tool.run([inp, out], plain=True, env={"LD_PRELOAD": tool.shim, "FAULT_FILE": os.path.realpath(d) + "/in.txt", "FAULT_READ_AFTER": str(lim)})
    if r[0] == 0 and os.path.exists(out) and open(out, "rb").read() == whole:
        return None             # all it needed was read
    return fails(*r, why="reading failed after %d of %d bytes" % (lim, len(data)))


def shrink(tool, c, d, secs):
    t0 = time.time()
    chunk = max(1, len(c["records"]) // 2)
    while time.time() - t0 < secs:
        i, progress = 0, False
        while i < len(c["records"]) and time.time() - t0 < secs:
            e = dict(c)
            e["records"] = c["records"][:i] + c["records"][i + chunk:]
            if e["records"] and check(tool, e, d):
                c, progress = e, True
            else:
                i += chunk
        if chunk == 1 and not progress:
            break
        chunk = max(1, chunk // 2)
    return c


def worker(a):
    tool, scratch, seed, perWorker, cap, w = a
    r = random.Random(seed * 1000 + w)
    d = os.path.join(scratch, "w%d" % w)
    os.makedirs(d)
    t0, out = time.time(), []
    for i in range(perWorker):
        if time.time() - t0 > cap:
            break
        c = genCase(r, MODES[(i * CORES + w) % len(MODES)] if i < 2 * len(MODES) else None)
        e = check(tool, c, d)
        kinds = {k for _, k in c["records"]}
        h = hashlib.sha1(json.dumps(c).encode()).digest()[:8] if len(kinds) == 2 or c["mode"] not in ("plain", "crlf", "output-exists") else None
        out.append((c["mode"], len(c["records"]), h, c if len(c["records"]) < 4 else None))
        if e:
            return out, (c, e)
    return out, None


def search(tier, seed, scratch, repo, env, saveReplay):
    res, tool = Result(), Tool(scratch, repo, env)
    perWorker = 260 if tier == "quick" else 12000
    cap = 40 if tier == "quick" else 500

    # processes, not threads: each one forks with limits of its own
    with concurrent.futures.ProcessPoolExecutor(CORES) as p:
        done = list(p.map(worker, [(tool, scratch, seed, perWorker, cap, w) for w in range(CORES)]))
    fail = None
    for out, f in done:
        for mode, n, h, c in out:
            res.evals += 1
            res.randoms += 1
            res.classes[mode] = res.classes.get(mode, 0) + 1
            if h:
                res.hashes.add(h)
                if c and len(res.samples) < 8:
                    res.samples.append(json.dumps(c))
        fail = fail or f
    # the shipped data files
    for v in range(7, 17):
        f = os.path.join(repo, "source/bits%d/UnicodeData.txt" % v)
        if not os.path.exists(f):
            continue
        recs = [[l, int(l.split(";")[2] not in ("Cs", "Co"))] for l in open(f).read().split("\n") if l]
        c = {"mode": "plain", "records": recs, "final_newline": True, "final_blank": False, "x": v}
        d = os.path.join(scratch, "shipped")
        os.makedirs(d, exist_ok=True)
        res.evals += 1; res.enumerated += 1
        e = check(tool, c, d)
        if e and not fail:
            fail = (c, e)
    if fail:
        c, e = fail
        d = os.path.join(scratch, "shrink")
        os.makedirs(d)
        c = shrink(tool, c, d, 40)
        errs = [check(tool, c, d) for _ in range(3)]
        if all(errs):
            res.fails.append((saveReplay("P22", json.dumps({"case": c, "error": errs[0]}, indent=1) + "\n"), errs[0]))
        else:
            res.notes.append("not reproducible: " + e)
    return res


def replay(path, scratch, repo, env):
    tool = Tool(scratch, repo, env)
    d = os.path.join(scratch, "r")
    os.makedirs(d)
    e = check(tool, json.load(open(path))["case"], d)
    print(e)
    return e is not None
