"""Collects the numbers and strings written in the sources under test. They only steer the
generators (as characters, lengths and language codes worth trying); no verdict depends on them.
A literal is "novel" when it occurs in a file more often than in the sources these checks were
written for (harness/base_literals.json.gz, written by: python3 runner/literals.py /repo)."""
import gzip, hashlib, json, os, re, sys
from collections import Counter

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "base_literals.json.gz")
NUM = r"(?:0[xX][0-9a-fA-F']+|[0-9][0-9']*)[uUlLzZ]*"
TOKEN = re.compile(r'(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")|(?P<chr>(?:u8|u|U|L)?\'(?:\\.|[^\'\\\n])+\')|(?P<bin>(?<![\w.])%s\s*(?:<<|\*|\+|-)\s*%s(?![\w.]))|(?P<num>(?<![\w.])%s(?![\w.]))' % (NUM, NUM, NUM))
ESC = re.compile(r"\\(?:x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([0-7]{1,3})|(.))", re.S)
NAMED = {"n": 10, "t": 9, "r": 13, "v": 11, "f": 12, "a": 7, "b": 8, "\\": 92, "'": 39, '"': 34, "?": 63}


def number(t):
    t = re.sub(r"[uUlLzZ']", "", t)
    try:
        if t[:2] in ("0x", "0X"):
            return int(t, 16)
        return int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
    except ValueError:
        return None


def chars(body):
    out, i = [], 0
    while i < len(body):
        m = ESC.match(body, i)
        if m:
            x, u, U, o, n = m.groups()
            out.append(int(x, 16) if x else int(u, 16) if u else int(U, 16) if U else int(o, 8) if o else NAMED.get(n, ord(n)))
            i = m.end()
        else:
            out.append(ord(body[i]))
            i += 1
    return out


def ofFile(path):
    text = open(path, encoding="utf-8", errors="replace").read()
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    text = re.sub(r"^\s*#\s*include[^\n]*", " ", text, flags=re.M)
    nums, strs = Counter(), Counter()
    for m in TOKEN.finditer(text):
        if m.group("str"):
            c = chars(re.sub(r'^[^"]*"|"$', "", m.group("str")))
            if 0 < len(c) <= 64:
                strs[" ".join("%x" % (x & 0xffffffff) for x in c)] += 1
            for x in c[:64]:
                nums[x] += 1
        elif m.group("chr"):
            for x in chars(re.sub(r"^[^']*'|'$", "", m.group("chr"))):
                nums[x] += 1
        else:
            parts = re.findall(NUM, m.group(0))
            vals = [number(p) for p in parts]
            for v in vals:
                if v is not None:
                    nums[v] += 1
            if m.group("bin") and len(vals) == 2 and None not in vals:
                a, b = vals
                op = re.search(r"<<|\*|\+|-", m.group(0)).group(0)
                v = (a << b if b < 32 else 0) if op == "<<" else a * b if op == "*" else a + b if op == "+" else a - b
                nums[v] += 1
    return {"%x" % v: n for v, n in nums.items() if 0 < v <= 0xffffffff}, dict(strs)


def collect(repo):
    files = []
    for top in ("source", "interface", "mkUnicodeTestData"):
        for d, _, names in os.walk(os.path.join(repo, top)):
            files += [os.path.join(d, n) for n in names if re.search(r"\.(cxx|hxx|cpp|hpp|cc|h|inc|inl)$", n)]
    return {os.path.relpath(f, repo): ofFile(f) for f in sorted(files)}


def bitsHashes(repo):
    """per Unicode version, a hash of its tables (comments and spacing aside)"""
    r = {}
    for v in range(7, 17):
        h, d = hashlib.sha1(), os.path.join(repo, "source", "bits%d" % v)
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if re.search(r"\.(cxx|hxx|cpp|hpp|cc|h|inc|inl)$", n):
                t = open(os.path.join(d, n), encoding="utf-8", errors="replace").read()
                t = re.sub(r"//[^\n]*", " ", re.sub(r"/\*.*?\*/", " ", t, flags=re.S))
                h.update((n + " ".join(t.split())).encode())
        r[str(v)] = h.hexdigest()
    return r


def changedVersions(repo):
    """the Unicode versions whose tables are not those these checks were written for: worth a run
    also where one version would do"""
    try:
        base = json.load(gzip.open(BASE, "rt")).get("#bits", {})
    except Exception:
        base = {}
    return sorted(int(v) for v, h in bitsHashes(repo).items() if base.get(v) != h)


def write(repo, out, versions):
    """the generators' dictionary: 'b value', 'n value' (novel) and 's units' (novel string) lines"""
    try:
        base = json.load(gzip.open(BASE, "rt"))
    except Exception:
        base = {}
    allNums, novel, strings = [], [], []
    for f, (nums, strs) in collect(repo).items():
        m = re.match(r"source/bits(\d+)/", f)
        if m and int(m.group(1)) not in versions:
            continue
        bn, bs = base.get(f, ({}, {}))
        if not m and not f.startswith("mkU"):
            allNums += list(nums)
        novel += [v for v, n in nums.items() if n > bn.get(v, 0)]
        strings += [s for s, n in strs.items() if n > bs.get(s, 0)]
    novel = list(dict.fromkeys(novel))
    if len(novel) > 48:     # a rewritten file: spread over what is there
        novel = novel[::max(1, len(novel) // 48)][:48]
    with open(out, "w") as f:
        for v in novel:
            f.write("n %s\n" % v)
        for v in sorted(set(allNums) - set(novel)):
            f.write("b %s\n" % v)
        for s in list(dict.fromkeys(strings))[:64]:
            f.write("s %s\n" % s)
    return len(set(allNums)), len(novel)


if __name__ == "__main__":
    with open(BASE, "wb") as raw:
        with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0) as z:
            z.write(json.dumps(dict(collect(sys.argv[1]), **{"#bits": bitsHashes(sys.argv[1])}), sort_keys=True, separators=(",", ":")).encode())
