"""Runs the parts of a check, merges what they covered into evidence/<id>.json, prints the verdict.

A part is either a search over generated JSON-able cases (GenPart), a rapidcheck harness (CppPart) or a
libFuzzer campaign (FuzzPart).  Every random choice derives from VERIF_SEED.  Exit 0: nothing found;
exit 1: a violation that reproduced three times from its replay file."""
import hashlib, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build

VERIF = build.VERIF
SHARDS = 8


class Violation(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", ""), "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


class Rec:
    """What one shard covered."""

    def __init__(self):
        self.evals = 0
        self.labels = {}
        self.keys = set()
        self.samples = []
        self.cap_hit = False
        self._nt = False
        self._lab = []

    def start(self):
        self._nt = False
        self._lab = []

    def nontrivial(self, flag=True):
        self._nt = self._nt or bool(flag)

    def label(self, *names):
        self._lab += [n for n in names if n]

    def finish(self, case):
        self.evals += 1
        for n in set(self._lab):
            self.labels[n] = self.labels.get(n, 0) + 1
        if self._nt:
            c = canon(case)
            k = hashlib.blake2b(c.encode(), digest_size=8).digest()
            if k not in self.keys:
                self.keys.add(k)
                if len(self.samples) < 2 and len(c) < 6000:
                    self.samples.append(case)

    def dump(self):
        return dict(evals=self.evals, labels=self.labels, keys=list(self.keys), samples=self.samples, cap=self.cap_hit)


class GenPart:
    """A search over generated cases: gen(Draw) -> JSON-able case, check(case, rec, scratch) raises Violation."""
    kind = "generated"

    def __init__(self, name, gen, check, quick, thorough, prepare=None):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough, self.prepare = quick, thorough, prepare

    def run_case(self, case, rec, scratch):
        """Raises Violation.  Anything else the oracle trips over is a malformed answer of the program."""
        rec.start()
        try:
            self.check(case, rec, scratch)
        except Violation:
            raise
        except (KeyError, TypeError, ValueError, IndexError, AttributeError, ZeroDivisionError, OverflowError, UnicodeError) as e:
            raise Violation("answer not of the documented form: %s: %s [%s]" % (type(e).__name__, e, traceback.format_exc(limit=-2).replace("\n", " | ")))

    def replay(self, case):
        d = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        try:
            if self.prepare:
                self.prepare()
            self.run_case(case, Rec(), d)
            return None
        except Violation as e:
            return str(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def _shard(part, n, seed, wall, stop, outfile):
    from . import draw
    rec = Rec()
    d = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
    t0 = time.time()
    res = dict(fail=None, msg=None)
    try:
        for k in range(n):
            if stop.value:
                break
            if time.time() - t0 > wall:
                rec.cap_hit = True
                break
            case, tape = draw.generate(part.gen, seed * 1000003 + k)
            case = json.loads(json.dumps(case))
            try:
                part.run_case(case, rec, d)
            except Violation as e:
                stop.value = 1
                res["fail"], res["msg"] = case, str(e)
                small, _ = draw.shrink(part.gen, tape, lambda c: _fails(part, c, d), float(os.environ.get("VERIF_SHRINK", 40)))
                small = json.loads(json.dumps(small))
                m = _fails(part, small, d)
                if m:
                    res["fail"], res["msg"] = small, m
                break
            rec.finish(case)
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.update(rec.dump())
    res["keys"] = [k.hex() for k in res["keys"]]
    with open(outfile, "w") as f:
        json.dump(res, f)


def _fails(part, case, d):
    try:
        part.run_case(json.loads(json.dumps(case)), Rec(), d)
        return None
    except Violation as e:
        return str(e) or "failed"


class Outcome:
    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.nt_extra = 0
        self.labels = {}
        self.samples = []
        self.caps = []
        self.fail = None  # (part, case, msg)
        self.errors = []
        self.per_part = {}


def run_gen(part, tier, seed, wall, out):
    if part.prepare:
        part.prepare()
    n = part.quick if tier == "quick" else part.thorough
    per = max(1, n // SHARDS)
    tmp = tempfile.mkdtemp(prefix="verif-r-", dir=scratch_root())
    stop = mp.Value("i", 0)
    procs = []
    base = int.from_bytes(hashlib.sha256(part.name.encode()).digest()[:4], "big")
    for i in range(SHARDS):
        p = mp.Process(target=_shard, args=(part, per, (seed * 1000003 + base * 16 + i) % (1 << 62), wall, stop, os.path.join(tmp, "%d" % i)))
        p.start()
        procs.append(p)
    for p in procs:
        p.join()
    fails = []
    ev0 = out.evals
    nt0 = len(out.keys)
    for i in range(SHARDS):
        f = os.path.join(tmp, "%d" % i)
        if not os.path.exists(f):
            out.errors.append("%s: shard %d ended without a result (exit code %s)" % (part.name, i, procs[i].exitcode))
            continue
        r = json.load(open(f))
        if r.get("error"):
            out.errors.append("%s: %s" % (part.name, r["error"]))
        out.evals += r["evals"]
        out.keys.update(part.name + k for k in r["keys"])
        for k, v in r["labels"].items():
            k = part.name + ": " + k
            out.labels[k] = out.labels.get(k, 0) + v
        if len([1 for s in out.samples if s["part"] == part.name]) < 2:
            out.samples += [dict(part=part.name, case=s) for s in r["samples"][:1]]
        if r["cap"]:
            out.caps.append(part.name)
        if r["fail"] is not None:
            fails.append((len(canon(r["fail"])), r["fail"], r["msg"]))
    out.per_part[part.name] = dict(evaluations=out.evals - ev0, distinct_nontrivial=len(out.keys) - nt0)
    shutil.rmtree(tmp, ignore_errors=True)
    for _, case, msg in sorted(fails, key=lambda x: x[0]):
        ms = [part.replay(case) for _ in range(3)]
        if all(ms):
            out.fail = (part, case, ms[0])
            return
        out.errors.append("%s: failure did not repeat: %s: %s" % (part.name, msg, canon(case)[:2000]))


class CppPart:
    """A rapidcheck harness: `exe --tests a,b --n N --seed S --out FILE` / `exe --replay FILE`."""
    kind = "rapidcheck"

    def __init__(self, name, harness, tests, quick, thorough, **buildargs):
        self.name, self.harness, self.tests = name, harness, tests
        self.quick, self.thorough, self.buildargs = quick, thorough, buildargs
        self.buildargs.setdefault("ldflags", "-lrapidcheck")

    def exe(self):
        return build.harness(self.harness, **self.buildargs)

    def replay(self, case):
        d = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        try:
            with open(os.path.join(d, "case"), "w") as f:
                f.write(case["test"] + "\n" + " ".join(str(x) for x in case["tokens"]) + "\n")
            try:
                r = subprocess.run([self.exe(), "--replay", os.path.join(d, "case"), "--scratch", d],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired:
                return "no answer within 300 s"
            o = r.stdout.decode(errors="replace")
            if r.returncode == 0:
                return None
            return ("exit code %d: " % r.returncode) + o[-3000:]
        finally:
            shutil.rmtree(d, ignore_errors=True)


def run_cpp(part, tier, seed, wall, out):
    exe = part.exe()
    n = part.quick if tier == "quick" else part.thorough
    tmp = tempfile.mkdtemp(prefix="verif-r-", dir=scratch_root())
    tests = part.tests
    jobs = []
    # every test is cut in SHARDS seeds; jobs are run SHARDS at a time
    for t in tests:
        nn = n[t] if isinstance(n, dict) else n
        per = max(1, nn // SHARDS)
        for i in range(SHARDS):
            s = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (part.harness, t, seed, i)).encode()).digest()[:7], "big") | 1
            jobs.append((t, per, s, len(jobs)))
    running = []
    todo = list(jobs)
    t0 = time.time()
    failed = False
    done = []
    while todo or running:
        while todo and len(running) < SHARDS and not failed:
            t, per, s, k = todo.pop(0)
            sd = os.path.join(tmp, "s%d" % k)
            os.makedirs(sd)
            env = dict(os.environ, RC_PARAMS="seed=%d max_success=%d max_discard_ratio=50" % (s, per))
            cmd = [exe, "--tests", t, "--out", os.path.join(tmp, "o%d" % k), "--scratch", sd,
                   "--wall", str(max(5, int(wall - (time.time() - t0))))]
            p = subprocess.Popen(cmd, env=env, stdout=open(os.path.join(tmp, "l%d" % k), "wb"), stderr=subprocess.STDOUT)
            running.append((p, t, k))
        if failed and not running:
            break
        time.sleep(0.02)
        for x in list(running):
            p, t, k = x
            if p.poll() is None:
                if time.time() - t0 > wall + 120:
                    p.kill()
                continue
            running.remove(x)
            done.append((p.returncode, t, k))
            if p.returncode != 0:
                failed = True
    fails = []
    ev0, nt0 = out.evals, out.nt_extra + len(out.keys)
    for rc, t, k in done:
        f = os.path.join(tmp, "o%d" % k)
        try:
            r = json.load(open(f))
        except (OSError, ValueError):
            r = None
        if r is None or rc not in (0, 1):
            log = open(os.path.join(tmp, "l%d" % k), errors="replace").read()[-3000:]
            # a crash of the code under test: the case in progress is in FILE.cur
            cur = None
            try:
                ls = open(f + ".cur").read().split("\n")
                cur = dict(test=ls[0], tokens=ls[1].split())
            except (OSError, IndexError):
                pass
            if cur and cur["tokens"]:
                fails.append((len(cur["tokens"]), cur, "crash: " + log))
            else:
                out.errors.append("%s/%s: exit code %s: %s" % (part.name, t, rc, log))
            if r is None:
                continue
        out.evals += r["evaluations"]
        out.nt_extra += 0
        out.keys.update("%s/%s/%s" % (part.name, t, h) for h in r["hashes"])
        out.nt_extra += r["nontrivial_uncounted"]
        for kk, v in r["labels"].items():
            kk = "%s/%s: %s" % (part.name, t, kk)
            out.labels[kk] = out.labels.get(kk, 0) + v
        if not [1 for s in out.samples if s.get("part") == part.name and s.get("test") == t]:
            out.samples += [dict(part=part.name, test=t, case=s) for s in r["samples"][:1]]
        if r["cap"]:
            out.caps.append(part.name + "/" + t)
        if r["fail"] is not None:
            fails.append((len(r["fail"]["tokens"]), dict(test=t, tokens=r["fail"]["tokens"]), r["fail"]["msg"]))
    out.per_part[part.name] = dict(evaluations=out.evals - ev0, distinct_nontrivial=out.nt_extra + len(out.keys) - nt0)
    shutil.rmtree(tmp, ignore_errors=True)
    for _, case, msg in sorted(fails, key=lambda x: x[0]):
        ms = [part.replay(case) for _ in range(3)]
        if all(ms):
            out.fail = (part, case, ms[0])
            return
        out.errors.append("%s: failure did not repeat: %s: %s" % (part.name, msg, canon(case)[:2000]))


class FuzzPart:
    """A libFuzzer campaign with a semantic oracle in the target; the failing input is the replay unit."""
    kind = "libfuzzer"

    def __init__(self, name, harness, quick, thorough, seeds, max_len=512, dict_tokens=(), timeout=20, flags="", **buildargs):
        """seeds: list of bytes, or a function giving it"""
        self.name, self.harness, self.quick, self.thorough = name, harness, quick, thorough
        self.timeout, self.flags = timeout, flags
        self.seeds, self.max_len, self.dict_tokens, self.buildargs = seeds, max_len, dict_tokens, buildargs

    def exe(self):
        a = dict(variant="fuzz", compiler="clang++",
                 cxxflags="-g -O1 -fsanitize=fuzzer,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=float-cast-overflow " + self.flags)
        a.update(self.buildargs)
        return build.harness(self.harness, **a)

    def env(self):
        return dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
                    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")

    def replay(self, case):
        d = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        try:
            p = os.path.join(d, "input")
            with open(p, "wb") as f:
                f.write(bytes.fromhex(case["hex"]))
            try:
                r = subprocess.run([self.exe(), "-timeout=%d" % self.timeout, p], env=self.env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired:
                return "no answer within 300 s"
            return None if r.returncode == 0 else r.stdout.decode(errors="replace")[-3000:]
        finally:
            shutil.rmtree(d, ignore_errors=True)


def run_fuzz(part, tier, seed, wall, out):
    exe = part.exe()
    seeds = part.seeds() if callable(part.seeds) else part.seeds
    n = part.quick if tier == "quick" else part.thorough
    tmp = tempfile.mkdtemp(prefix="verif-r-", dir=scratch_root())
    procs = []
    for i in range(SHARDS):
        d = os.path.join(tmp, str(i))
        c = os.path.join(d, "corpus")
        os.makedirs(c)
        if i % 4 != 3:  # some shards start from nothing
            for k, b in enumerate(seeds):
                open(os.path.join(c, "seed%d" % k), "wb").write(b)
        cmd = [exe, "-seed=%d" % (seed * 8 + i + 1), "-runs=%d" % (n // SHARDS), "-max_len=%d" % part.max_len, "-timeout=%d" % part.timeout, "-rss_limit_mb=3000",
               "-max_total_time=%d" % int(min(wall, 75) if tier == "quick" else wall), "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-verbosity=1"]
        if part.dict_tokens:
            open(os.path.join(d, "dict"), "w").write("".join('"%s"\n' % t for t in part.dict_tokens))
            cmd.append("-dict=" + os.path.join(d, "dict"))
        procs.append((subprocess.Popen(cmd + [c], env=dict(part.env(), FUZZ_STATS=os.path.join(d, "stats")), cwd=d,
                                       stdout=open(os.path.join(d, "log"), "wb"), stderr=subprocess.STDOUT), d))
    ev0, nt0 = out.evals, out.nt_extra
    fails = []
    for p, d in procs:
        p.wait()
        log = open(os.path.join(d, "log"), errors="replace").read()
        units = [l for l in log.split("\n") if "number_of_executed_units" in l]
        if units:
            out.evals += int(units[-1].split(":")[-1])
        # every corpus element reached coverage no earlier one had
        for fn in os.listdir(os.path.join(d, "corpus")):
            b = open(os.path.join(d, "corpus", fn), "rb").read()
            out.keys.add(part.name + hashlib.blake2b(b, digest_size=8).hexdigest())
            if len([1 for s in out.samples if s["part"] == part.name]) < 2 and 60 < len(b) < 400:
                out.samples.append(dict(part=part.name, case=dict(hex=b.hex())))
        arts = [f for f in os.listdir(d) if f.split("-")[0] in ("crash", "timeout", "oom", "leak")]
        for a in arts:
            b = open(os.path.join(d, a), "rb").read()
            fails.append((len(b), dict(hex=b.hex()), log[-3000:]))
        if p.returncode != 0 and not arts:
            out.errors.append("%s: libFuzzer exit code %s: %s" % (part.name, p.returncode, log[-2000:]))
    out.per_part[part.name] = dict(evaluations=out.evals - ev0)
    fails.sort(key=lambda x: x[0])
    for _, case, msg in fails[:3]:
        case = _minimise(part, exe, case)
        ms = [part.replay(case) for _ in range(3)]
        if all(ms):
            out.fail = (part, case, ms[0])
            break
        out.errors.append("%s: failure did not repeat: %s: %s" % (part.name, msg[-500:], canon(case)[:2000]))
    shutil.rmtree(tmp, ignore_errors=True)


def _minimise(part, exe, case):
    """libFuzzer's own minimiser, for at most 20 s."""
    d = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
    try:
        p = os.path.join(d, "input")
        open(p, "wb").write(bytes.fromhex(case["hex"]))
        o = os.path.join(d, "min")
        subprocess.run([exe, "-minimize_crash=1", "-max_total_time=20", "-timeout=%d" % part.timeout, "-exact_artifact_path=" + o, p], env=part.env(), cwd=d,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        if os.path.exists(o):
            c = dict(hex=open(o, "rb").read().hex())
            if part.replay(c):
                return c
    except (subprocess.TimeoutExpired, OSError):
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return case


def regress_cases(prop):
    d = os.path.join(VERIF, "regress", prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def main(check):
    """check: object with prop, parts, rule, assumptions (list), level."""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--parts")
    ap.add_argument("--scale", type=float, default=1.0)
    a, _ = ap.parse_known_args(check.argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    byname = {p.name: p for p in check.parts}
    if a.replay:
        r = json.load(open(a.replay))
        m = byname[r["part"]].replay(r["case"])
        print("reproduced: " + m if m else "not reproduced")
        return 1 if m else 0
    t0 = time.time()
    out = Outcome()
    n_reg = 0
    for f in regress_cases(check.prop):
        r = json.load(open(f))
        part = byname.get(r["part"])
        if part is None:
            continue
        n_reg += 1
        ms = []
        for _ in range(3):
            m = part.replay(r["case"])
            if not m:
                break
            ms.append(m)
        if len(ms) == 3:
            out.fail = (part, r["case"], ms[0])
            break
    cap_total = 420.0 if a.tier == "quick" else 5400.0
    runners = dict(generated=run_gen, rapidcheck=run_cpp, libfuzzer=run_fuzz)
    for part in check.parts:
        if out.fail:
            break
        if a.parts and part.name not in a.parts.split(","):
            continue
        if a.scale != 1.0:
            for k in ("quick", "thorough"):
                v = getattr(part, k)
                setattr(part, k, {x: max(8, int(y * a.scale)) for x, y in v.items()} if isinstance(v, dict) else max(8, int(v * a.scale)))
        wall = cap_total - (time.time() - t0)
        if wall < 5:
            out.caps.append(part.name)
            continue
        tp = time.time()
        runners[part.kind](part, a.tier, a.seed, wall, out)
        if part.name in out.per_part:
            out.per_part[part.name]["wall_s"] = round(time.time() - tp, 1)
    wall_s = time.time() - t0
    ev = dict(property=check.prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=out.evals, distinct_nontrivial=len(out.keys) + out.nt_extra, rule=check.rule,
                            samples=out.samples[:12], classes=dict(sorted(out.labels.items())), parts=out.per_part,
                            regression_cases_replayed=n_reg, wall_cap_hit=out.caps, not_repeatable=out.errors[:5]),
              assumptions=check.assumptions, wall_s=round(wall_s, 2), violations=1 if out.fail else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", check.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if out.fail:
        part, case, msg = out.fail
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (check.prop, hashlib.sha256(canon(case).encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump(dict(property=check.prop, part=part.name, case=case, message=msg,
                           replay="python3-vt checks/run.py %s --replay %s" % (check.prop, rp)), f, indent=1)
        print("%s: %s" % (part.name, msg[:2500]))
        print("VIOLATION property=%s replay=%s" % (check.prop, rp))
        return 1
    for e in out.errors:
        sys.stderr.write("note: " + e[:3000] + "\n")
    # shards that broke down, or parts without a case, mean that nothing was decided
    broken = out.evals == 0 or any("Traceback" in e or "ended without a result" in e for e in out.errors) or any(v["evaluations"] == 0 for v in out.per_part.values())
    print("%s property=%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" %
          ("UNDECIDED" if broken else "OK", check.prop, a.tier, a.seed, out.evals, len(out.keys) + out.nt_extra, wall_s))
    if broken:
        return 3
    return 0
