#!/usr/bin/env python3
"""Run the check of one property.

  check.py <property> [quick|thorough]     decide the property
  check.py --replay <file>                 re-run the calls of a replay file

The Quint specification (../spec) generates behaviours: sequences of library
calls, each with the set of answers the specification allows.  This driver runs
the Quint simulator, replays every behaviour in the real library (../harness,
built from /repo's working tree) and compares.  It contains no numeric oracle of
its own: what is allowed is decided by the specification.
"""
import json, os, random, sys, time, subprocess, struct, hashlib, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")          # git-ignored
EVID = os.path.join(ROOT, "evidence")
ONE = 1 << 128
SNAN, SPINF, SNINF, SNZERO, SANY = 1 << 2000, 1 << 2001, -(1 << 2001), 1 << 2002, 1 << 2003
CARGO_ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    CARGO_ENV.pop(k, None)


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building
def have_avx():
    try:
        t = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return re.search(r"\bavx2\b", t) is not None and re.search(r"\bfma\b", t) is not None


def build(config):
    """Build the harness (and the library from /repo) in one configuration."""
    env = dict(CARGO_ENV)
    tgt = os.path.join(HARNESS, "target", config)
    cmd = ["cargo", "build", "--quiet", "--offline", "--target-dir", tgt]
    sub = "debug"
    if config == "release":
        cmd.append("--release")
        sub = "release"
    if config == "avx":
        env["RUSTFLAGS"] = "-C target-feature=+avx,+avx2,+fma"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build (%s) failed:\n%s" % (config, "\n".join(re.findall(r"(?ms)^error.*?(?=^\S|\Z)", p.stdout))[:4000] or p.stdout[-2000:]))
    return os.path.join(tgt, sub, "conform")


# ---------------------------------------------------------------- simulating
def run_quint(job, tier, idx, seed, samples, steps, outdir):
    out = os.path.join(outdir, "t%d_{seq}.json" % idx)
    cmd = ["quint", "run", os.path.join(SPEC, job.spec), "--main", job.main, "--init", job.init(tier, idx), "--step", job.step,
           "--max-samples", str(samples), "--n-traces", str(samples), "--max-steps", str(steps),
           "--seed", str(seed), "--verbosity", "1", "--out-itf", out]
    if job.invariants:
        cmd += ["--invariants"] + job.invariants
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=6000")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=SPEC)
    if p.returncode != 0:
        raise ToolError("quint run failed (%s):\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    traces = []
    for i in range(samples):
        f = os.path.join(outdir, "t%d_%d.json" % (idx, i))
        if os.path.exists(f):
            traces.append(load_itf(f))
            os.unlink(f)
    if not traces:
        raise ToolError("quint run wrote no trace: %s" % p.stdout[-2000:])
    return traces


def itf(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return [itf(x) for x in v["#tup"]]
        if "#set" in v:
            return [itf(x) for x in v["#set"]]
        if "#map" in v:
            return [[itf(a), itf(b)] for a, b in v["#map"]]
        return {k: itf(x) for k, x in v.items()}
    if isinstance(v, list):
        return [itf(x) for x in v]
    return v


def load_itf(f):
    """A behaviour is the list of calls (state variable `c`) after the initial state."""
    d = json.load(open(f))
    calls = []
    for st in d["states"]:
        c = itf(st["c"] if "c" in st else next(v for k, v in st.items() if k.endswith("::c")))
        if c["op"] != "nop":
            calls.append(c)
    return calls


# ---------------------------------------------------------------- replaying
def to_bits(v):
    if v == SNAN:
        return 0x7FF8000000000000
    if v == SPINF:
        return 0x7FF0000000000000
    if v == SNINF:
        return 0xFFF0000000000000
    if v == SNZERO:
        return 0x8000000000000000
    try:
        x = float(Fraction(v, ONE))
    except OverflowError:
        raise ToolError("specification input out of range: %d" % v)
    if Fraction(x) != Fraction(v, ONE):
        raise ToolError("specification input is not a float: %d" % v)
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def encode_call(c):
    return " ".join([c["op"], str(len(c["ints"]))] + [str(i) for i in c["ints"]]
                    + ["%016x" % to_bits(v) for v in c["fs"]])


def replay(binary, traces, tmo):
    """-> list (per trace) of list of answers; an answer is ('ok',[...]) / ('panic',) / ('dead',why)"""
    lines = []
    for t in traces:
        lines.append("reset")
        lines += [encode_call(c) for c in t]
    data = ("\n".join(lines) + "\n").encode()
    why = None
    with tempfile.TemporaryFile() as fo:
        try:
            p = subprocess.run([binary], input=data, stdout=fo, stderr=subprocess.DEVNULL, timeout=tmo)
            if p.returncode != 0:
                why = "process ended with status %d" % p.returncode
        except subprocess.TimeoutExpired:
            why = "no answer within %d s" % tmo
        fo.seek(0)
        ans = []
        for ln in fo:
            if ln.startswith(b"@@ "):
                w = ln.decode().split()
                if w[1] == "ok":
                    ans.append(("ok", w[2:]))
                elif w[1] == "panic":
                    ans.append(("panic",))
                else:
                    raise ToolError("harness does not know the operation")
    total = sum(len(t) for t in traces)
    if len(ans) < total:
        ans.append(("dead", why or "harness stopped"))
    res, k = [], 0
    for t in traces:
        res.append(ans[k:k + len(t)])
        k += len(t)
    return res


def decode_out(tok):
    if tok[0] == "i":
        return Fraction(int(tok[1:]))
    x = struct.unpack("<d", struct.pack("<Q", int(tok[1:], 16)))[0]
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return Fraction(x)


def show(v):
    if v == SANY:
        return "anything"
    if v == SNAN:
        return "nan"
    if v == SPINF:
        return "inf"
    if v == SNINF:
        return "-inf"
    if abs(v) >= 1 << 1900:
        return "-finite" if v < 0 else "finite"
    try:
        return repr(float(Fraction(v, ONE)))
    except OverflowError:
        return "huge"


def judge(c, a):
    """None if the answer is allowed, else a description."""
    if a[0] == "dead":
        return a[1]
    if c["kind"] == "any":
        return None
    if c["kind"] == "panic":
        return None if a[0] == "panic" else "returned, but the specification requires a panic"
    if a[0] == "panic":
        return "panicked"
    if len(a[1]) != len(c["exp"]):
        return "returned %d values, specification requires %d" % (len(a[1]), len(c["exp"]))
    for i, (tok, iv) in enumerate(zip(a[1], c["exp"])):
        v = decode_out(tok)
        lo, hi = iv["lo"], iv["hi"]
        if lo == SANY:
            continue
        ok = False
        if lo == SNAN:
            ok = v == "nan"
        elif lo == SPINF:
            ok = v == "inf"
        elif lo == SNINF:
            ok = v == "-inf"
        elif not isinstance(v, str):
            ok = Fraction(lo, ONE) <= v <= Fraction(hi, ONE)
        if not ok:
            return "value %d is %s, allowed [%s, %s]" % (i, v if isinstance(v, str) else repr(float(v)), show(lo), show(hi))
    return None


def sample(c, a):
    return {"op": c["op"], "ints": c["ints"][:12], "args": [show(v) for v in c["fs"][:12]], "tag": c["tag"],
            "allowed": c["kind"] if c["kind"] != "ok" else [[show(e["lo"]), show(e["hi"])] for e in c["exp"][:6]],
            "observed": a[0] if a[0] != "ok" else [str(float(x)) if not isinstance(x, str) else x
                                                   for x in map(decode_out, a[1][:6])]}


# ---------------------------------------------------------------- schedules of many threads
def nudged(v, k):
    """the float next to v * (1 + 2^-k)"""
    if v in (SNAN, SPINF, SNINF, SNZERO) or v == 0:
        return v
    x = float(Fraction(v, ONE)) * (1.0 + 2.0 ** -k)
    return int(Fraction(x) * ONE) if (Fraction(x) * ONE).denominator == 1 else v


def variant(c, how, pos, k):
    """a question next to c (the specification says nothing about its answer)"""
    f = list(c["fs"])
    if f:
        i, j = pos % len(f), (pos // 7 + 1) % len(f)
        if how == 2:
            f[i] = nudged(f[i], k)
        elif how == 3:
            f[i], f[j] = f[j], f[i]
        elif how == 4:
            f[i] = -f[i] if abs(f[i]) < 1 << 1900 else f[i]
        elif how == 5:
            f = [nudged(x, k) for x in f]
    return dict(c, fs=f, kind="any", exp=[], tag="variant")


def schedule(plan, pools, safe, focus=None):
    """The calls of every thread, in its order, and the order of all asks.  `pools` are lists of
    calls per kind; kinds in `safe` take any variant, the others only nudges and repetitions."""
    th = [[] for _ in range(8)]
    order, last, nxt = [], {}, {}
    for e in plan:
        w, s, how, pos, k = e["ints"]
        s = s % len(pools) if focus is None else focus
        pool = pools[s]
        if how in (3, 4) and s not in safe:
            how = 2
        if how == 0 or (w, s) not in last:
            i = nxt.get(s, pos) % len(pool)
            nxt[s] = i + 1
            last[(w, s)] = pool[i]
            cs = [pool[i]]
        elif how == 1:
            cs = [last[(w, s)]]
        elif how == 6:
            b = last[(w, s)]
            n = len(b["fs"])
            places = range(n) if n <= 36 else sorted({(pos + i * n // 24) % n for i in range(24)})
            cs = [b] + [x for i in places for x in (variant(b, 2, i, 2 + (k + i) % 12), b)]
        else:
            cs = [variant(last[(w, s)], how, pos, k)]
        for c in cs:
            th[w].append(c)
            order.append((w, len(th[w]) - 1))
    return th, order


def ask_all(binary, lines, args, tmo):
    try:
        p = subprocess.run([binary] + args, input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=tmo)
    except subprocess.TimeoutExpired:
        return [("dead", "no answer within %d s" % tmo)]
    out = [ln.decode().split() for ln in p.stdout.split(b"\n") if ln.startswith(b"@@ ")]
    res = [("ok", w[2:]) if w[1] == "ok" else (w[1],) for w in out]
    if any(r[0] == "badop" for r in res):
        raise ToolError("harness does not know the operation")
    if p.returncode != 0:
        res.append(("dead", "process ended with status %d" % p.returncode))
    return res


def same(a, b):
    if a == b:
        return True
    if a[0] != "ok" or b[0] != "ok" or len(a[1]) != len(b[1]):
        return False
    return all(x == y or (decode_out(x) == "nan" and decode_out(y) == "nan") for x, y in zip(a[1], b[1]))


def replay_world(binary, plan, focus, pools, safe, passes, tmo, stuck):
    """Ask the calls of one schedule: in schedule order, backwards and shuffled in one thread, and
    by eight threads at once; the same question must get the same answer each time, and the one
    the specification allows.  -> (calls, list of (call, answer, why))"""
    if stuck:
        return 0, [], []
    th, order = schedule(plan, pools, safe, focus)
    mixed = list(order)
    random.Random(len(order)).shuffle(mixed)
    flat = [(w, i) for w in range(len(th)) for i in range(len(th[w]))]
    enc = {x: encode_call(th[x[0]][x[1]]) for x in flat}
    runs = []
    for what, seq, args in (("in schedule order", order, []), ("in reverse order", order[::-1], []), ("in another order", mixed, []),
                            ("by eight threads at once", flat, ["--threads", str(passes)])):
        lines = [("%d " % x[0] if args else "") + enc[x] for x in seq]
        res = ask_all(binary, lines, args, tmo)
        if len(res) != len(seq):
            # whoever waits for ever once would do so again
            stuck.append(what)
            runs.append((what, dict(zip(seq, res)), res[-1] if res and res[-1][0] == "dead" else ("dead", "harness stopped")))
            break
        runs.append((what, dict(zip(seq, res)), None))
    bad, known = [], {}
    for what, res, dead in runs:
        if dead:
            x = next((y for y in flat if y not in res), flat[0])
            bad.append((th[x[0]][x[1]], dead, "%s: %s" % (what, dead[1])))
            continue
        for x in flat:
            c, a = th[x[0]][x[1]], res[x]
            w = judge(c, a)
            if w is None:
                first = known.setdefault(enc[x], (what, a))
                if not same(first[1], a):
                    w = "answered %s %s, but %s %s" % (first[1], first[0], a, what)
            if w:
                bad.append((c, a, "asked %s: %s" % (what, w)))
    return 4 * len(flat), bad, [th[x[0]][x[1]] for x in flat]


def decide_world(P, tier, bins, bytraces, seed):
    pools, safe, plans, focused = [], set(), [], []
    for j, traces in bytraces.items():
        if j.role == "plan":
            plans += [(p, None) for p in traces]
        elif j.role == "focus":
            focused += traces
        else:
            if j.role == "any":
                safe.add(len(pools))
            pools.append([c for t in traces for c in t])
    cfs = [cf for cf in bins]
    plans += [(p, i % len(pools)) for i, p in enumerate(focused)]
    todo = [(cf, p) for p in plans for cf in cfs]
    stuck = []
    viol, checked, distinct, tags, samples_out = [], 0, set(), {}, []
    with ThreadPoolExecutor(max_workers=3) as ex:
        for (cf, p), (n, bad, calls) in zip(todo, ex.map(lambda x: replay_world(bins[x[0]], x[1][0], x[1][1], pools, safe, 4 if tier == "quick" else 8, 150 if tier == "quick" else 600, stuck), todo)):
            checked += n
            for c in calls:
                distinct.add(hash((c["op"], tuple(c["ints"]), tuple(c["fs"]))))
                tg = "%s:%s" % (c["op"], c["tag"])
                tags[tg] = tags.get(tg, 0) + 1
            for c, a, why in bad:
                viol.append({"config": cf, "why": why, "step": 0, "call": c, "answer": list(a),
                             "readable": {"op": c["op"], "ints": c["ints"][:8], "args": [show(v) for v in c["fs"][:8]]},
                             "history": []})
            if calls and len(samples_out) < 8:
                samples_out.append({"schedule": [[e["ints"][0], e["ints"][1], e["ints"][2]] for e in p[0][:12]],
                                    "calls": [c["op"] for c in calls[:12]]})
    return viol, checked, distinct, tags, samples_out, len(todo)


# ---------------------------------------------------------------- main
def seed_of(prop, seed, job, i):
    h = hashlib.sha256(("%s/%d/%s/%s/%d" % (prop, seed, job.spec, job.step, i)).encode()).hexdigest()
    return int(h[:12], 16)


def run_property(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = props.PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="%s_" % pid, dir=WORK)
    ncpu = os.cpu_count() or 4
    try:
        configs = []
        for j in P.jobs:
            for cf in j.configs(tier):
                if cf == "avx" and not have_avx():
                    continue
                if cf not in configs:
                    configs.append(cf)
        with ThreadPoolExecutor(max_workers=max(4, ncpu)) as ex:
            fb = {cf: ex.submit(build, cf) for cf in configs}
            fq = []
            for j in P.jobs:
                procs, samples, steps = j.size(tier)
                for i in range(procs):
                    d = os.path.join(tmp, "%s_%s_%d" % (j.main, j.step, i))
                    os.makedirs(d)
                    fq.append((j, ex.submit(run_quint, j, tier, i, seed_of(pid, seed, j, i), samples, steps, d)))
            fx = [(x, ex.submit(run_verify, x, tmp)) for x in P.verify(tier)]
            bins = {cf: f.result() for cf, f in fb.items()}
            bytraces = {}
            for j, f in fq:
                bytraces.setdefault(j, []).extend(f.result())
            verified = [(x, f.result()) for x, f in fx]
        # replay
        viol, checked, distinct, tags, samples_out, ntr, states = [], 0, set(), {}, [], 0, 0
        stuck = False
        if P.world:
            viol, checked, distinct, tags, samples_out, ntr = decide_world(P, tier, bins, bytraces, seed)
        for j, traces in bytraces.items():
            states += sum(len(t) + 1 for t in traces)
            if P.world:
                continue
            for cf in j.configs(tier):
                if cf not in bins:
                    continue
                if stuck:
                    continue
                ans = replay(bins[cf], traces, 180 if tier == "quick" else 3000)
                # whoever waits for ever once would do so again
                stuck = any(a[0] == "dead" for at in ans for a in at)
                for t, at in zip(traces, ans):
                    ntr += 1
                    seen = set()
                    for k, (c, a) in enumerate(zip(t, at)):
                        checked += 1
                        key = hash((c["op"], tuple(c["ints"]), tuple(c["fs"])))
                        if c["kind"] != "any" and (c["exp"] or c["kind"] == "panic"):
                            distinct.add(key)
                        tg = "%s:%s" % (c["op"], c["tag"])
                        tags[tg] = tags.get(tg, 0) + 1
                        if len(samples_out) < 8 and tg not in seen and k % 7 == 3:
                            seen.add(tg)
                            samples_out.append(sample(c, a))
                        bad = judge(c, a)
                        if bad:
                            viol.append({"config": cf, "why": bad, "step": k, "call": c, "answer": list(a),
                                         "readable": sample(c, a) if a[0] != "dead" else {"op": c["op"]},
                                         "history": t[:k] if j.stateful else []})
        missing = [g for j in P.jobs for g in j.must_cover if not any(x.startswith(g) for x in tags)]
        if missing and not viol:
            raise ToolError("specification behaviours never exercised: %s" % ", ".join(missing))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": P.level,
              "coverage": {
                  "evaluations": checked, "distinct_nontrivial": len(distinct), "rule": P.rule,
                  "states": states + sum(r.get("states", 0) for _, r in verified),
                  "transitions": sum(len(t) for ts in bytraces.values() for t in ts) + sum(r.get("transitions", 0) for _, r in verified),
                  "traces_validated_against_impl": ntr,
                  "spec_modules": sorted({j.spec for j in P.jobs}),
                  "spec_invariants": sorted({i for j in P.jobs for i in j.invariants}),
                  "configurations": sorted(bins),
                  "calls_by_operation_and_region": dict(sorted(tags.items())),
                  "model_checking_runs": [dict(r, what=x.what) for x, r in verified],
                  "samples": samples_out},
              "assumptions": P.assumptions,
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            rp = os.path.join(WORK, "replay-%s.json" % pid)
            with open(rp, "w") as f:
                json.dump({"property": pid, "count": len(viol), "violations": viol[:20]}, f, indent=1, default=str)
            for v in viol[:5]:
                print("  %s [%s]: %s  %s" % (v["call"]["op"], v["config"], v["why"], json.dumps(v["readable"])[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("ok %s: %d calls in %d behaviours, %d distinct, %.1f s" % (pid, checked, ntr, len(distinct), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_verify(x, tmp):
    """A model-checking run on the specification alone (Apalache through `quint verify`, or TLC)."""
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="mc_", dir=tmp)
    p = subprocess.run(x.cmd(SPEC, d), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=x.timeout)
    if p.returncode != 0:
        raise ToolError("model checking run failed (%s):\n%s" % (x.what, p.stdout[-3000:]))
    r = {"wall_s": round(time.time() - t0, 1), "result": "no error"}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r["transitions"], r["states"] = int(m.group(1)), int(m.group(2))
    return r


def run_replay(path):
    d = json.load(open(path))
    bad = 0
    for v in d["violations"]:
        b = build(v["config"])
        a = replay(b, [v["history"] + [v["call"]]], 600)[0]
        w = judge(v["call"], a[-1]) if len(a) == len(v["history"]) + 1 else str(a[-1])
        print(v["call"]["op"], "->", w or "allowed")
        bad += bool(w)
    return 1 if bad else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return run_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return run_property(pid, tier)
    except ToolError as e:
        print("ERROR %s: %s" % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR %s: timeout %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
