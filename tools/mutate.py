#!/usr/bin/env python3
"""mutate.py [--seed N] [--count N] [--files a,b] [--out FILE]: random small changes of the sources, one at a time,
in a scratch copy of /repo; each is built and put to the checks of its file (first at a tenth of their size, then
whole).  Prints which are seen and by what; the others are for reading."""
import argparse, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = "C03 C02 C01 C06 C05 C07 C04 C08 C09 C16 C17 C18 C15 C14"
MAP = {
    "HealpixC/chealpix.c": "C21 C22 C23", "src/sgp.c": "C28 C11", "src/sgp8.c": "C28 C11", "src/sdp8.c": "C28 C11", "scripts/tle_retrieve.sh": "C26", "scripts/tle_satcount.sh": "C26",
    "src/sgp4.c": "C10 C11", "src/sdp4.c": "C10 C12 C27 C11", "src/deep.c": "C10 C27 C11", "src/common.c": "C10 C11", "src/basics.c": "C10 C11 C14",
    "src/get_el.c": "C13 C12 C04 C14", "src/observe.c": "C16 C20 C03", "src/dechalat2alt.c": "C17", "src/lpsun_radec.c": "C18", "src/lmst_hr.c": "C16",
    "src/skysep_h.c": "C19", "src/mjd2date.c": "C15", "src/date2mjd_nf.c": "C15", "src/mjdnow.c": "C15", "src/earthtilt.c": "C16", "src/zenith_site_ra.c": "C16",
    "src/sat_skymap.c": PROG, "src/sat_visibility.c": "C25 C24 C01 C04 C09 C07 C16 C17 C18 C15 C14",
}
WEIGHT = {"src/sat_skymap.c": 6, "src/sat_visibility.c": 6, "src/get_el.c": 4, "HealpixC/chealpix.c": 5, "src/deep.c": 3, "src/sdp8.c": 2, "src/sgp8.c": 2}


def code_lines(text):
    """indices of lines with code: no comments, no preprocessor, no disabled blocks"""
    out, com, off = [], False, 0
    for i, l in enumerate(text):
        s = l
        if off or re.match(r"\s*#\s*if(def)?\b", s):
            if re.match(r"\s*#\s*if(def|ndef)?\b", s):
                if off or re.match(r"\s*#\s*(if\s+0|ifdef\s+\w*(DEBUG|TEST|RETAIN)\w*)", s):
                    off += 1
            elif re.match(r"\s*#\s*endif", s):
                off -= 1
            elif re.match(r"\s*#\s*else", s) and off == 1:
                off = 0
            continue
        if com:
            if "*/" in s:
                com = False
            continue
        if "/*" in s and "*/" not in s.split("/*")[-1]:
            com = True
            continue
        if re.match(r"\s*(//|\*|/\*|#)", s) or not s.strip() or s.lstrip().startswith(("extern", "typedef", "static const", "printf(", "\"", "fprintf")):
            continue
        out.append(i)
    return out


def ops(l):
    """possible changes of a line: (what, new line)"""
    body = re.split(r"//|/\*", l)[0]
    rest = l[len(body):]
    strs = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])+\'', body)]
    ok = lambda a, b: not any(a < e and b > s for s, e in strs)
    out = []

    def sub(what, a, b, new):
        if ok(a, b):
            out.append((what, body[:a] + new + body[b:] + rest))
    for m in re.finditer(r"(?<![<>=!&|+\-*/])(<=|>=|==|!=|<|>)(?![<>=])", body):
        if body[max(0, m.start() - 1):m.end() + 1].find("->") >= 0:
            continue
        for n in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]:
            sub("relation", m.start(), m.end(), n)
    for m in re.finditer(r"(?<=[\w\)\] ])\s*([+\-])\s*(?=[\w\( ])(?!=)", body):
        a, b = m.span(1)
        if body[a - 1:a + 2] in ("++", "--") or body[a + 1:a + 2] in "+->=" or body[a - 1] in "+-eE(,=*/<>":
            continue
        sub("sign", a, b, "-" if m.group(1) == "+" else "+")
    for m in re.finditer(r"(?<=[\w\)\] ])\s*([*/])\s*(?=[\w\( ])(?!=)", body):
        a, b = m.span(1)
        if re.search(r"(char|int|double|float|void|long|tle_t|const|FILE|,|=|\()\s*$", body[:a]):
            continue
        sub("factor", a, b, "/" if m.group(1) == "*" else "*")
    for m in re.finditer(r"&&|\|\|", body):
        sub("logic", m.start(), m.end(), "||" if m.group() == "&&" else "&&")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", body):
        sub("integer", m.start(), m.end(), str(int(m.group()) + 1))
        if int(m.group()):
            sub("integer", m.start(), m.end(), str(int(m.group()) - 1))
    for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\.\d+|\d+\.?\d*[eE][+-]?\d+)(?![\w.])", body):
        v = float(m.group())
        sub("number", m.start(), m.end(), "(%r)" % (v * 1.01 if v else 1.0))
        sub("number", m.start(), m.end(), "(-%s)" % m.group())
    for a, b in (("sin", "cos"), ("cos", "sin"), ("floor", "ceil"), ("fabs", ""), ("true", "false"), ("false", "true")):
        for m in re.finditer(r"\b%s\b" % a, body):
            sub("name", m.start(), m.end(), b)
    m = re.match(r"^(\s*)([\w>.\-\[\]* ()+]+?\s*([+\-*/]?=)[^=].*;|[\w]+\s*\(.*\);|continue;|break;|[\w>.\-]+(\+\+|--);)\s*$", body)
    if m and not re.match(r"\s*(const|int|double|char|float|long|static|FILE|bool|tle_t|unsigned|return|for|if|while)\b", body):
        out.append(("removed", m.group(1) + ";" + rest + "\n"))
    for m in re.finditer(r"\bif\s*\(", body):
        sub("condition", m.start(), m.end(), "if ( !!1 || " if random.random() < .5 else "if ( 0 && ")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--count", type=int, default=50)
    ap.add_argument("--files")
    ap.add_argument("--tag", default="m")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    random.seed(a.seed)
    top, bld, vc = "/tmp/mut-%s-repo" % a.tag, "/tmp/mut-%s-build" % a.tag, "/tmp/mut-%s-verif" % a.tag
    for p in (top, bld, vc):
        shutil.rmtree(p, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", a.repo, top])
    os.makedirs(vc)
    subprocess.check_call("tar -C %s --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./.hypothesis -cf - . | tar -C %s -xf -" % (V, vc), shell=True)
    files = a.files.split(",") if a.files else [f for f in MAP for _ in range(WEIGHT.get(f, 1))]
    n = 0
    while n < a.count:
        f = random.choice(files)
        p = os.path.join(top, f)
        raw = open(p, encoding="latin-1", newline="").read()
        text = raw.split("\n")
        i = random.choice(code_lines(text))
        l = text[i].rstrip("\r")
        o = ops(l)
        if not o:
            continue
        what, new = random.choice(o)
        if new == l:
            continue
        text[i] = new.rstrip("\n") + ("\r" if text[i].endswith("\r") else "")
        open(p, "w", encoding="latin-1", newline="").write("\n".join(text))
        try:
            res = one(top, bld, vc, f)
        finally:
            open(p, "w", encoding="latin-1", newline="").write(raw)
        if res is None:
            continue
        n += 1
        print("%s %s:%d [%s]\n    - %s\n    + %s" % (res, f, i + 1, what, l.strip(), new.strip()), flush=True)
    for p in (top, bld, vc):
        shutil.rmtree(p, ignore_errors=True)


def sh(c, cwd):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def one(top, bld, vc, f):
    w = "/tmp/mutbuild-" + os.path.basename(top)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    cc = "gcc -O1 -w -c -I%s/HealpixC -I%s/src -DENABLE_FITSIO" % (top, top)
    if sh("%s %s/%s -o %s/a.o" % (cc, top, f, w), w).returncode or sh("git show HEAD:%s > %s/b.c; %s %s/b.c -o %s/b.o" % (f, w, cc + " -I%s/src" % top, w, w), top).returncode:
        return None
    x = [sh("objdump -d --no-show-raw-insn %s/%s.o | tail -n +4; objdump -s -j .rodata -j .data %s/%s.o | tail -n +4" % (w, k, w, k), w).stdout for k in "ab"]
    if x[0] == x[1]:
        return None
    if "HealpixC" in f:
        r = sh("timeout 60 gcc -O2 -w -IHealpixC -o %s/t HealpixC/test_chealpix.c HealpixC/chealpix.c -lm && cd %s && timeout 60 ./t" % (w, w), top)
        g = sh("gcc -O2 -w -IHealpixC -o %s/t HealpixC/test_chealpix.c %s/b.c -lm && cd %s && timeout 60 ./t" % (w, w, w), top)
        if r.returncode != g.returncode or r.stdout != g.stdout:
            return None
    for scale in (0.1, 1):
        for c in MAP[f].split():
            if scale == 0.1 and c == "C14":
                continue
            env = dict(os.environ, VERIF_REPO=top, VERIF_BUILD=bld, VERIF_SHRINK="0")
            t = time.time()
            try:
                r = subprocess.run(["python3-vt", "checks/run.py", c, "--scale", str(scale)], cwd=vc, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
            except subprocess.TimeoutExpired:
                return "TIMEOUT %s" % c
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                return "seen %s%s" % (c, "" if scale != 1 else " (whole)")
            if r.returncode:
                if "BUILD FAILED" in r.stdout:
                    return None
                return "EXIT %d of %s: %s" % (r.returncode, c, r.stdout[-300:].replace("\n", " | "))
    return "UNSEEN"


main()
