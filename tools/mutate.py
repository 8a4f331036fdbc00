#!/usr/bin/env python3
"""Mutation sweep (development aid, no check uses it): small edits of one header at a time, in scratch copies of the
repository, and which of them the properties of that header notice.
   tools/mutate.py OUT HEADER[:FROM-TO] ... [-n MAX] [-j JOBS] [-s SEED] [-w SECONDS]
Appends one line per mutant to OUT: killed by which property / survived / does not compile."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CURVE = "C01 C02 C03 C04 C05 C07 C08 C45 C06 C48 C47".split()
SURF = "C09 C10 C11 C12 C13 C14 C42 C48 C34".split()
PROPS = {
    "aabb.h": "C21 C27 C26 C22", "boundary_intersection.h": "C13 C18 C19", "ccx.h": "C16", "closest_point.h": "C29",
    "cm_hash.h": "C46", "convexhull.h": "C25 C24", "csx.h": "C17 C18", "gauss_map.h": "C34 C19", "gjk.h": "C26",
    "integrate.h": "C35 C06", "kdtree.h": "C23", "matrix.h": "C31 C33 C30", "memoryview.h": "C39 C40", "minimize_scalar.h": "C36",
    "monomial.h": "C33 C34 C12", "newthon2.h": "C37 C31", "numeric_utils.h": "C44", "nurbs_utils.h": "C01 C02 C03 C15 C09 C12 C10 C48 C42 C05",
    "plane.h": "C30", "point_inversion.h": "C20", "polygon.h": "C28", "polyline.h": "C41", "separability.h": "C26 C27",
    "serialization.h": "C38", "ssx.h": "C19 C20", "utils.h": "C49 C46 C41", "bvh.hpp": "C22", "vec.h": "C43 C29 C46 C30",
    "_convexhull/convexhull2d.h": "C24", "_convexhull/quickhull.hpp": "C25", "binom.h": "C32",
}


def props(h, line, split):
    if h == "nurbs.h":
        return CURVE if line < split else SURF
    return PROPS[h].split()


def mutants(lines, lo, hi):
    out = []
    depth = False
    for n, l in enumerate(lines, 1):
        s = l.strip()
        if s.startswith("/*"):
            depth = True
        if depth or s.startswith(("//", "#", "*", "template", "using", "static_assert", "printf", "std::cout")) or n < lo or n > hi or not s:
            if "*/" in s:
                depth = False
            continue
        code = l.split("//")[0]
        if '"' in code or "operator<<" in code:
            continue

        def put(a, b, new, what):
            if new != l and "->" not in l[max(0, a - 1):b + 1]:
                out.append((n, what, new))
        for m in re.finditer(r"(?<![<>=!+\-*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            o = m.group(1)
            if o in "<>" and (code[m.start() - 1] != " " or code[m.end():m.end() + 1] != " "):
                if re.search(r"(vector|array|pair|set|map|list|cast|numeric_limits|template|unique_ptr|function|tuple|Vector|Result)\s*<|>\s*[>&(]|>\s+\w+\s*[;{(=,]", code):
                    continue
            for r in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]:
                put(m.start(1), m.end(1), l[:m.start(1)] + r + l[m.end(1):], f"{o} -> {r}")
        for m in re.finditer(r"(?<=[\w\)\]] )([+\-*/])(?= [\w(\-])|(?<=[\w\)\]])([+\-*/])(?=[\w(])", code):
            o = m.group()
            if o == "*" and re.match(r"\s*(const )?[A-Za-z_:<>]+ ?\*\w+", code):
                continue
            for r in {"+": "-", "-": "+", "*": "/", "/": "*"}[o]:
                put(m.start(), m.end(), l[:m.start()] + r + l[m.end():], f"{o} -> {r}")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for r in ({v + 1, v - 1} if v else {1}):
                if r >= 0:
                    put(m.start(), m.end(), l[:m.start(1)] + str(r) + l[m.end(1):], f"{v} -> {r}")
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:e-?\d+)?|\d+e-?\d+|\.\d+)(?![\w.])", code):
            v = float(m.group(1))
            for r in ([v * 4, v / 4, v * 1e3] if v else [1.0]):
                put(m.start(), m.end(), l[:m.start(1)] + repr(r) + l[m.end(1):], f"{m.group(1)} -> {r}")
        for m in re.finditer(r"&&|\|\|", code):
            if re.match(r"\s*(const )?[\w:<>]+ ?&&", code) and "if" not in code:
                continue
            put(m.start(), m.end(), l[:m.start()] + ("||" if m.group() == "&&" else "&&") + l[m.end():], "&& <-> ||")
        for a, b in (("std::min", "std::max"), ("std::max", "std::min"), ("[0]", "[1]"), ("[1]", "[0]"), (".x", ".y"), (".y", ".z"), (".z", ".x"), ("_u", "_v"), ("_v", "_u"),
                     (".first", ".second"), (".second", ".first"), (".front()", ".back()"), (".back()", ".front()"), ("true", "false"), ("false", "true"), (" u", " v"), (" v", " u"),
                     (".min", ".max"), (".max", ".min"), ("std::abs", ""), ("std::fabs", ""), ("+=", "-="), ("-=", "+="), ("+=", "="), ("++", "--"), ("- 1", ""), ("+ 1", ""), ("-1", ""), ("+1", ""), ("!", "")):
            for m in re.finditer(re.escape(a) + (r"\b" if a[-1].isalnum() else ""), code):
                if a in (" u", " v") and not re.search(r"[(,=+\-*<]$", code[:m.start()]):
                    continue
                if a == "!" and code[m.end():m.end() + 1] == "=":
                    continue
                put(m.start(), m.end(), l[:m.start()] + b + l[m.end():], f"{a} -> {b}")
        m = re.match(r"(\s*(?:\} )?(?:else )?if\s*\()(.*)(\)\s*\{?\s*)$", code.rstrip())
        if m and m.group(2).count("(") == m.group(2).count(")"):
            for r in ("true || (%s)", "false && (%s)"):
                out.append((n, r[:5], m.group(1) + r % m.group(2) + m.group(3) + "\n"))
        if re.match(r"[\w\[\]().>\-*:, +&]+\s*([+\-*/]?=)[^=].*;\s*$", s) and not re.match(r"(const |auto|int|double|size_t|std::size_t|bool|vec\d|std::\w+<.*> \w|static|typename|return|T |AABB|using|\w+ \w+ ?=|\w+ [&*]\w+ ?=|for)", s):
            out.append((n, "drop", re.match(r"\s*", l).group() + ";\n"))
        elif re.match(r"[\w.\->\[\]:]+\(.*\);\s*$", s) and not s.startswith(("return", "assert", "throw")):
            out.append((n, "drop", re.match(r"\s*", l).group() + ";\n"))
        elif re.match(r"(continue|break);", s):
            out.append((n, "drop", re.match(r"\s*", l).group() + ";\n"))
    seen, res = set(), []
    for x in out:
        if (x[0], x[2]) not in seen and x[2].strip() != lines[x[0] - 1].strip():
            seen.add((x[0], x[2]))
            res.append(x)
    return res


def run(job):
    h, n, what, new, plist, wall = job
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(f"{REPO}/cmmcore", f"{d}/cmmcore")
        f = f"{d}/cmmcore/{h}"
        lines = open(f).read().split("\n")
        old = lines[n - 1]
        lines[n - 1] = new.rstrip("\n")
        open(f, "w").write("\n".join(lines))
        res = "SURVIVED"
        first = True
        for p in plist:
            c = subprocess.run(["clang++-18", "-std=c++17", "-stdlib=libc++", "-w", "-O1", "-mavx2", "-ftrivial-auto-var-init=pattern", "-include", f"{V}/engine/scalar_prefix.h",
                                f"-I{d}", f"-I{V}/engine", f"{V}/props/{p}.cpp", "-o", f"{d}/t"], capture_output=True)
            if c.returncode:
                res = "invalid"
                break
            spec = subprocess.run([f"{d}/t", "--spec"], capture_output=True, text=True, cwd=d).stdout.split()
            try:
                r = subprocess.run([f"{d}/t", "--seed", "2", "--cases", spec[1], "--workers", "1", "--wall", str(wall), "--tag", "m", "--out", f"{d}/o.json", "--replay-out", f"{d}/r"],
                                   capture_output=True, text=True, cwd=d, timeout=wall * 6 + 120)
                if r.returncode:
                    j = json.load(open(f"{d}/o.json")) if os.path.exists(f"{d}/o.json") else {}
                    res = f"killed {p} {j.get('cases', '?')} {str(j.get('message', 'abnormal')).strip()[:70]!r}"
                    break
            except subprocess.TimeoutExpired:
                res = f"killed {p} timeout"
                break
        return f"{h}:{n}\t{what}\t{res}\t{old.strip()}\t=>\t{new.strip()}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("headers", nargs="+")
    ap.add_argument("-n", type=int, default=10 ** 9)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-w", type=float, default=10)
    a = ap.parse_args()
    jobs = []
    for spec in a.headers:
        h, _, r = spec.partition(":")
        lines = [x + "\n" for x in open(f"{REPO}/cmmcore/{h}").read().split("\n")]
        lo, hi = map(int, r.split("-")) if r else (1, 10 ** 9)
        split = next((i for i, x in enumerate(lines, 1) if re.match(r"\s*class NURBSSurface", x)), 0)
        ms = mutants(lines, lo, hi)
        random.Random(a.s).shuffle(ms)
        print(h, len(ms), "mutants")
        jobs += [(h, n, w, new, props(h, n, split), a.w) for n, w, new in ms[:a.n]]
    random.Random(a.s).shuffle(jobs)
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, "a") as o:
        for r in ex.map(run, jobs):
            o.write(r + "\n")
            o.flush()


main()
