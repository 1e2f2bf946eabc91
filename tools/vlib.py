"""Shared machinery of the checks: TLC runs, harness runs, trace validation, evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as _build

NCPU = os.cpu_count() or 4
TLC_JAR_CP = None


class Infra(Exception):
    pass


def tlc(module, cfg, env=None, workers=1, heap="1g", timeout=800, extra=()):
    """Run TLC in a private metadir; returns its output."""
    md = tempfile.mkdtemp(prefix="vtlc-")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel={'1' if workers == 1 else '4'}"
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    return 0, 0


def run_model(module, cfg, workers=2, heap="4g", timeout=800, expect=None, extra=()):
    """Model-check a specification.  expect=None: it must hold.
    expect=NAME: NAME must be reported violated (vacuity guard)."""
    t = time.time()
    rc, out = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra)
    d, g = states_of(out)
    if expect is None:
        if "Model checking completed. No error has been found." not in out:
            raise Infra(f"specification {module} ({cfg}) does not satisfy its properties:\n" + out[-3000:])
    else:
        if expect not in out or "No error has been found" in out:
            raise Infra(f"guard {module} ({cfg}) did not report {expect}:\n" + out[-2000:])
    return {"module": module, "cfg": cfg, "distinct": d, "generated": g, "s": round(time.time() - t, 1),
            **({"expected_violation": expect} if expect else {})}


def validate(spec, lines, shards=None, timeout=800, heap="2g", cfg="Trace.cfg", env=None, bad=None, limit=4):
    """Check histories (list of JSON strings) against <spec>; returns
    (set of rejected indices -> position, states, transitions)."""
    if not lines:
        return {}, 0, 0
    if bad is None:
        bad = []
    if shards is None:
        shards = max(1, min(NCPU, len(lines) // 40 + 1))
    tmp = tempfile.mkdtemp(prefix="vtr-")
    try:
        parts = [list(range(k, len(lines), shards)) for k in range(shards)]
        jobs = []
        for k, idx in enumerate(parts):
            f = os.path.join(tmp, f"{k}.ndjson")
            with open(f, "w") as h:
                for j in idx:
                    h.write(lines[j] + "\n")
            jobs.append((idx, f))
        rej, ds, gs = {}, 0, 0

        def one(job):
            idx, f = job
            rc, out = tlc(spec, cfg, env={"TRACES": f, **(env or {})}, workers=1, heap=heap, timeout=timeout)
            return idx, rc, out
        with cf.ThreadPoolExecutor(shards) as ex:
            for idx, rc, out in ex.map(one, jobs):
                if "Model checking completed. No error has been found." not in out:
                    # a history with an event TLC cannot even evaluate (say, an
                    # unknown object) is refused; find it by splitting the batch
                    if rc == 124 or "rror" not in out or "StackOverflow" in out or "emantic error" in out or "arse Error" in out or "Parsing or semantic" in out or "OutOfMemory" in out:
                        raise Infra(f"TLC failed on {spec} (rc {rc}):\n" + out[-3500:])
                    if len(idx) == 1:
                        rej[idx[0]] = 1
                        bad.append(out[-3000:])
                        continue
                    if len(bad) >= limit:     # enough to report; the rest stays unjudged
                        continue
                    for half in (idx[::2], idx[1::2]):
                        r, d, g = validate(spec, [lines[q] for q in half], shards=1, timeout=timeout, heap=heap, cfg=cfg, env=env, bad=bad, limit=limit)
                        ds += d; gs += g
                        for q, v in r.items():
                            rej[half[q]] = v
                    continue
                d, g = states_of(out)
                ds += d; gs += g
                for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out):
                    rej[idx[int(m[1]) - 1]] = int(m[2])
        return rej, ds, gs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(name, variant):
    return _build.build(name, variant)


def harness(exe, mode, first, last, schedules, base, budget, procs=NCPU, extra=()):
    """Run the harness over program seeds [first,last) split over processes."""
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        chunk = max(1, (last - first + procs - 1) // procs)
        ps = []
        a = first
        k = 0
        while a < last:
            b = min(last, a + chunk)
            out = os.path.join(tmp, f"{k}.out")
            cwd = os.path.join(tmp, f"d{k}")
            os.makedirs(cwd)
            cmd = [exe, "--mode", mode, "--first", str(a), "--last", str(b), "--schedules", str(schedules),
                   "--base", str(base), "--budget", str(budget), "--out", out, *extra]
            ps.append((subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                        errors="replace", env={**os.environ, "VSCRATCH": cwd}), out))
            a = b
            k += 1
        lines, st = [], {"runs": 0, "uniq": 0, "steps": 0, "inconclusive": 0}
        for p, out in ps:
            o, e = p.communicate(timeout=budget * 3 + 300)
            m = re.search(r"STATS runs=(\d+) uniq=(\d+) steps=(\d+) inconclusive=(\d+)", o)
            if p.returncode != 0 or not m:
                raise Infra(f"harness {exe} --mode {mode} failed rc={p.returncode}\n{o[-500:]}\n{e[-1500:]}")
            for key, v in zip(("runs", "uniq", "steps", "inconclusive"), m.groups()):
                st[key] += int(v)
            with open(out, errors="replace") as h:
                lines += [l for l in h.read().split("\n") if l]
        return lines, st
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rerun(exe, mode, prog, sched, base, schedules=None, extra=()):
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        out = os.path.join(tmp, "o")
        cmd = [exe, "--mode", mode, "--prog", str(prog), "--base", str(base), "--out", out, *extra]
        if schedules is None:
            cmd += ["--sched", str(sched)]
        else:
            cmd += ["--schedules", str(schedules)]
        subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                       env={**os.environ, "VSCRATCH": tmp})
        with open(out, errors="replace") as h:
            return [l for l in h.read().split("\n") if l]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def strip(line):
    """What identifies a history: scenario and events."""
    t = json.loads(line)
    return json.dumps([t["scn"], t["ev"]], sort_keys=True)


class TraceJob:
    def __init__(self, harness, mode, spec, quick, thorough, variant="sched", neg=None, base=0, heap="2g",
                 qbudget=60, tbudget=600, note="", env=None):
        self.env = env or {}
        self.harness, self.mode, self.spec, self.variant = harness, mode, spec, variant
        self.q, self.t = quick, thorough            # (programs, schedules)
        self.neg, self.base, self.heap = neg, base, heap
        self.qbudget, self.tbudget, self.note = qbudget, tbudget, note


class Check:
    def __init__(self, pid, models, jobs, assumptions=(), title=""):
        self.pid, self.models, self.jobs, self.assumptions = pid, models, jobs, list(assumptions)


def known_for(pid):
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def run_check(chk, tier, seed):
    t0 = time.time()
    pid = chk.pid
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "assumptions": chk.assumptions}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "models": [], "harness": [], "negative_histories_rejected": 0, "executions": 0}
    violations = []
    known = known_for(pid)
    known_hit = set()
    try:
        # 1. the specification itself, in the background
        ex = cf.ThreadPoolExecutor(2)
        futs = []
        for m in chk.models:
            if m.get("tier") == "thorough" and tier != "thorough":
                continue
            futs.append(ex.submit(run_model, m["module"], m["cfg"], m.get("workers", 2), m.get("heap", "3g"),
                                  m.get("timeout", 800 if tier == "quick" else 6000), m.get("expect"), m.get("extra", ())))
        # 2. build and explore the implementation
        exes = {}
        for j in chk.jobs:
            if (j.harness, j.variant) not in exes:
                exes[(j.harness, j.variant)] = build(j.harness, j.variant)
        tbuild = time.time() - t0
        for j in chk.jobs:
            exe = exes[(j.harness, j.variant)]
            progs, scheds = j.q if tier == "quick" else j.t
            budget = j.qbudget if tier == "quick" else j.tbudget
            base = seed * 1009 + j.base
            th = time.time()
            lines, st = harness(exe, j.mode, 0, progs, scheds, base, budget)
            seen, uniq = set(), []
            for l in lines:
                k = hashlib.md5(strip(l).encode()).digest()
                if k not in seen:
                    seen.add(k)
                    uniq.append(l)
            tv = time.time()
            rej, d, g = validate(j.spec, uniq, heap=j.heap, timeout=800 if tier == "quick" else 6000, env=j.env)
            rec = {"harness": j.harness, "mode": j.mode, "spec": j.spec, "variant": j.variant, "programs": progs,
                   "schedules_per_program": scheds, **st, "distinct_histories": len(uniq), "rejected": len(rej),
                   "explore_s": round(tv - th, 1), "validate_s": round(time.time() - tv, 1)}
            cov["states"] += d; cov["transitions"] += g
            cov["traces_validated_against_impl"] += len(uniq)
            cov["executions"] += st["runs"]
            if uniq:
                s = json.loads(uniq[min(len(uniq) - 1, 7)])
                s["ev"] = s["ev"][:40]
                if len(json.dumps(s)) < 6000:
                    cov["samples"].append({"mode": j.mode, "history": s})
            if not uniq:
                raise Infra(f"{j.mode}: no history was recorded")
            # 3. rejected histories: repeat before reporting
            unrepeated = 0
            for i in sorted(rej):
                if len(violations) >= 5:
                    break
                t = json.loads(uniq[i])
                kf = match_known(known, j, t, rej[i])
                again = []
                for _ in range(3):
                    again += rerun(exe, j.mode, t["prog"], t["sched"], base)
                r2, _, _ = validate(j.spec, again, shards=1, heap=j.heap, env=j.env)
                if not r2:
                    again = rerun(exe, j.mode, t["prog"], 0, base, schedules=max(200, scheds))
                    r2, _, _ = validate(j.spec, again, heap=j.heap, env=j.env)
                if not r2:
                    unrepeated += 1
                    continue
                if kf:
                    known_hit.add(kf["id"])
                    continue
                i2 = sorted(r2)[0]
                t2 = json.loads(again[i2])
                path = os.path.join(EVID, "replay", f"{pid}-{tier}-{len(violations)}.json")
                with open(path, "w") as h:
                    json.dump({"property": pid, "harness": j.harness, "variant": j.variant, "mode": j.mode,
                               "spec": j.spec, "env": j.env, "base": base, "prog": t["prog"], "sched": t["sched"],
                               "rejected_event": r2[i2], "history": t2}, h, indent=1)
                violations.append((path, j, t2, r2[i2]))
            rec["unrepeated"] = unrepeated
            # 4. vacuity guard
            if j.neg:
                nl = []
                for l in open(os.path.join(SPEC, "neg", j.neg)):
                    l = l.strip()
                    if l and not l.startswith("#"):
                        nl.append(l)
                rn, _, _ = validate(j.spec, nl, shards=1, env=j.env)
                miss = [k for k in range(len(nl)) if k not in rn]
                if miss:
                    raise Infra(f"{j.spec} accepts histories it has to reject: {miss}\n{nl[miss[0]][:500]}")
                cov["negative_histories_rejected"] += len(nl)
                rec["negatives"] = len(nl)
            if not violations:
                rec["perturbed"] = perturb(j, [l for k, l in enumerate(uniq) if k not in rej], seed,
                                           100 if tier == "quick" else 400)
                cov["perturbed_histories"] = cov.get("perturbed_histories", 0) + rec["perturbed"]["n"]
            cov["harness"].append(rec)
            if violations and tier == "quick":
                break
        for f in futs:
            r = f.result()
            cov["models"].append(r)
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
    except Infra as e:
        if not violations:
            print(f"ERROR property={pid}: {e}", file=sys.stderr)
            return 2
    cov["build_s"] = round(tbuild, 1)
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(violations)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    for k in known:
        if k["id"] in known_hit or k.get("always"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for path, j, t, pos in violations:
        print(f"-- {j.mode}: history rejected by {j.spec} at event {pos}: {json.dumps(t['ev'][max(0, pos - 6):pos])}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier}: histories={cov['traces_validated_against_impl']} executions={cov['executions']} "
          f"states={cov['states']} violations={len(violations)} wall={ev['wall_s']}s")
    return 1 if violations else 0


def perturb(j, lines, seed, n):
    """Vacuity guard: accepted histories with an event removed or repeated, or
    with an abnormal end, have to be refused (abnormal ends always)."""
    rng = random.Random(seed * 7 + 1)
    lines = rng.sample(lines, min(n, len(lines)))
    out, kinds = [], []
    for l in lines:
        t = json.loads(l)
        ev = t["ev"]
        kind = rng.choice(["drop", "repeat", "end"])
        if kind == "end" or len(ev) < 3:
            kind, ev = "end", ev[:-1] + [{"e": rng.choice(["stuck", "crash", "uaf", "hang"])}]
        else:
            k = rng.randrange(len(ev) - 1)
            ev = ev[:k] + ev[k + 1:] if kind == "drop" else ev[:k + 1] + ev[k:]
        out.append(json.dumps({"scn": t["scn"], "ev": ev}))
        kinds.append(kind)
    bad = []
    rej, _, _ = validate(j.spec, out, heap=j.heap, env=j.env, bad=bad, limit=10**6)
    res = {"n": len(out), "unevaluable": len(bad)}
    for kind in ("drop", "repeat", "end"):
        tot = sum(k == kind for k in kinds)
        res[kind] = f"{sum(kinds[i] == kind for i in rej)}/{tot} refused"
        if kind == "end" and any(kinds[i] == "end" and i not in rej for i in range(len(out))):
            raise Infra(f"{j.spec} accepts an abnormal end")
    if len(out) >= 20 and len(rej) < len(out) // 10:
        raise Infra(f"{j.spec} refuses only {len(rej)} of {len(out)} perturbed histories")
    return res


def match_known(known, job, t, pos):
    """A known finding names harness, mode and the exact kind of step that is rejected."""
    for k in known:
        if k.get("mode") != job.mode:
            continue
        evt = t["ev"][pos - 1] if pos - 1 < len(t["ev"]) else {}
        if all(evt.get(a) == b for a, b in k.get("event", {}).items()) and \
           all(t["scn"].get(a) == b for a, b in k.get("scn", {}).items()):
            return k
    return None
