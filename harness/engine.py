"""Orchestration: record the real code, let TLC judge the recording, model check the design.

Nothing here knows what is right: the recorders (rec_*.py) only run the code under test and write
down what it was given and what it returned; the TLA+ modules under spec/ decide.
"""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("DREIMAC_REPO", "/repo")
PY = os.environ.get("DREIMAC_PYTHON", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Machinery(Exception):
    pass


# ----------------------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, args=(), heap="2g", timeout=600, workers="1"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", workers, "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    if workers == "1":
        cmd.insert(2, "-XX:ParallelGCThreads=2")
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


# ----------------------------------------------------------------------------- recording
def record(module, cases, workdir, tag, jit, limit):
    """Run cases in parallel worker processes; returns the list of trace files."""
    n = max(1, min(NCPU, len(cases)))
    # every worker takes every n-th case, and appends its events to its own trace; a watcher per worker
    # ends it when one case takes too long, notes that, and starts it again on the remaining cases
    pyc = os.path.join(workdir, "pyc")
    end = time.time() + limit

    def watch(w):
        out = os.path.join(workdir, "%s_%d.ndjson" % (tag, w))
        open(out, "w").close()
        todo = cases[w::n]
        while todo:
            todo = spawn(todo, w, out)
        return out

    def spawn(part, w, out):
        inp = os.path.join(workdir, "%s_%d.cases" % (tag, w))
        with open(inp, "w") as f:
            for c in part:
                f.write(json.dumps(c) + "\n")
        env = dict(os.environ)
        env.update({
            "PYTHONPATH": REPO + ":" + HARNESS, "PYTHONPYCACHEPREFIX": pyc, "PYTHONHASHSEED": "0",
            "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(workdir, "mpl%d" % w),
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
            "NUMBA_DISABLE_JIT": "0" if jit else "1", "HOME": workdir, "DREIMAC_REPO": REPO,
        })
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        prog = out + ".progress"
        open(prog, "w").close()
        with open(out + ".err", "w") as err:
            p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HARNESS, "worker.py"), module, inp, out],
                                 cwd=workdir, env=env, stdout=err, stderr=err, start_new_session=True)
        limits = {c["id"]: c.get("limit", 120 if jit else 30) for c in part}
        seen, since, hung = 0, time.time(), False
        while p.poll() is None:
            time.sleep(0.1)
            k = os.path.getsize(prog)
            if k != seen:
                seen, since = k, time.time()
            lines = open(prog).read().split("\n")
            cur = [x[6:] for x in lines if x.startswith("start ")]
            if time.time() > end or (cur and time.time() - since > limits.get(cur[-1], 30) + 8) or \
                    (not cur and time.time() - since > 120):
                hung = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        lines = open(prog).read().split("\n")
        started = [x[6:] for x in lines if x.startswith("start ")]
        done = {x[5:] for x in lines if x.startswith("done ")}
        if p.returncode == 7 or (p.returncode != 0 and not started):
            raise Machinery("worker failed: " + open(out + ".err").read()[-3000:])
        mend(out)
        if p.returncode == 9:
            return []               # two cases got no answer; both are recorded as such
        if p.returncode == 0 and len(done) == len(part):
            return []
        # the code under test hung or killed the interpreter in the case that was running
        bad = [c for c in started if c not in done]
        at = site(out + ".err") if hung else ""
        with open(out, "a") as f:
            for cid in bad:
                f.write(json.dumps({"id": cid, "kind": "crash", "case": cid, "site": at,
                                    "what": "no answer" + (" from " + at if at else "") if hung
                                    else "the interpreter died"}) + "\n")
        if time.time() > end:
            return []
        return [c for c in part if c["id"] not in done and c["id"] not in bad]

    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(watch, range(n)))


def site(err):
    """The function of a library that the package was waiting for, from the stack written when time ran out."""
    fs = re.findall(r'File "([^"]*)", line \d+ in (\S+)', open(err, errors="replace").read())
    for k, (path, fn) in enumerate(fs):
        if "/dreimac/" in path:
            return fs[k - 1][1] if k else fn
    return ""


def mend(path):
    """Drop a torn last line (a killed worker)."""
    good = []
    for line in open(path, errors="replace"):
        try:
            json.loads(line)
            good.append(line if line.endswith("\n") else line + "\n")
        except ValueError:
            pass
    open(path, "w").writelines(good)
    return good


# ----------------------------------------------------------------------------- judging
def judge(module, cfg, trace, workdir, timeout, prop):
    """Validate one trace with TLC: (events, rejections, states)."""
    lines = mend(trace)
    base = 0
    rejections = []
    states = 0
    todo = lines
    for attempt in range(12):
        if not todo:
            break
        part = trace + ".part"
        open(part, "w").writelines(todo)
        rc, out, _ = tlc(module, cfg, workdir, env={"TRACE": part, "PROP": prop}, timeout=timeout)
        for m in re.finditer(r'^"REJECT (.*)"$', out, re.M):
            r = json.loads(json.loads('"' + m.group(1) + '"'))
            r["line"] += base
            rejections.append(r)
        states += stats(out)[1]
        m = re.search(r'"CONSUMED (\d+) OF (\d+)"', out)
        if m and m.group(1) == m.group(2) and int(m.group(2)) == len(todo):
            todo = []
            break
        # the specification could not even be evaluated on the event: it is malformed
        if rc == -1 and attempt < 100:
            # TLC is very slow to describe an evaluation error: find the event on its own
            rejections += one_by_one(module, cfg, todo, base, workdir, prop)
            todo = []
            break
        m2 = None
        for m2 in re.finditer(r"^/\\ l = (\d+)", out, re.M):
            pass
        if rc in (-1,) or "java.lang.OutOfMemory" in out or "StackOverflow" in out or not m2 \
                or "Parsing or semantic analysis failed" in out:
            raise Machinery("TLC (rc %s) on %s:\n%s" % (rc, part, out[-6000:]))
        k = int(m2.group(1))            # the event being judged when it failed
        ev = json.loads(todo[k - 1])
        msg = re.search(r"Error: (?!The behavior)(.*(?:\n.+){0,3})", out)
        rejections.append({"line": base + k, "id": ev["id"],
                           "clauses": ["malformed: " + (" ".join(msg.group(1).split()) if msg else "evaluation error")]})
        base += k
        todo = todo[k:]
    if todo:
        raise Machinery("too many evaluation errors in %s" % trace)
    for r in rejections:
        r["event"] = json.loads(lines[r["line"] - 1])
    return len(lines), rejections, states


def one_by_one(module, cfg, lines, base, workdir, prop):
    rejections, slow = [], 0
    for k, line in enumerate(lines):
        part = os.path.join(workdir, "%s_single.ndjson" % os.path.basename(tempfile.mktemp()))
        open(part, "w").write(line)
        rc, out, _ = tlc(module, cfg, workdir, env={"TRACE": part, "PROP": prop}, timeout=40)
        m = re.search(r'^"REJECT (.*)"$', out, re.M)
        if m:
            r = json.loads(json.loads('"' + m.group(1) + '"'))
            r["line"] = base + k + 1
            rejections.append(r)
        elif '"CONSUMED 1 OF 1"' not in out:
            rejections.append({"line": base + k + 1, "id": json.loads(line)["id"],
                               "clauses": ["malformed: the specification cannot be evaluated on it"]})
            slow += rc == -1
            if slow >= 2:
                break
    if not rejections:
        raise Machinery("TLC took too long on the whole trace and found nothing wrong with its events")
    return rejections


def model(m, workdir):
    """Model check one design module: dict with counts, or the violation found."""
    rc, out, dt = tlc(m["module"], m["cfg"], workdir, args=m.get("args", ()), heap=m.get("heap", "4g"),
                      timeout=m.get("timeout", 600), workers=m.get("workers", "2"), env=m.get("env"))
    gen, dist = stats(out)
    res = {"model": m["cfg"], "generated": gen, "distinct": dist, "seconds": round(dt, 1)}
    if rc != 0 or dist < m.get("min", 1):
        raise Machinery("design model %s does not check (rc %s):\n%s" % (m["cfg"], rc, out[-4000:]))
    res["out"] = out
    return res


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import registry
    spec = registry.PROPS[prop]
    only = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
        only = dict(replay["case"], recorder=replay.get("recorder"))
    keep = "--keep" in argv
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, spec, tier, seed, only, workdir, t0, keep)
    except Machinery as x:
        print("ERROR of the machinery: %s" % x)
        return 3
    finally:
        if not keep:
            shutil.rmtree(workdir, ignore_errors=True)
        else:
            print("kept", workdir)


def run(prop, spec, tier, seed, only, workdir, t0, keep):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    limit = 420 if tier == "quick" else 5400
    sys.path.insert(0, HARNESS)
    pool = ThreadPoolExecutor(NCPU)
    models = [m for m in spec.get("models", []) if tier == "thorough" or not m.get("thorough")]
    if only is not None:
        models = []
    # design models run on two cores beside the recording
    mpool = ThreadPoolExecutor(2)
    mfut = [mpool.submit(model, m, workdir) for m in models]
    rounds = []
    generated = {}
    for rec in spec["recorders"]:
        gen = importlib.import_module(rec["cases"])      # case generation: no dreimac import
        cs = gen.cases(prop, tier, seed)
        if rec.get("from_model"):
            # behaviours of the specification, produced by TLC, to be replayed into the code
            mod = rec["from_model"]
            r = model(dict(mod, args=[a.replace("$SEED", str(seed)) for a in
                                      mod.get("args_thorough" if tier == "thorough" else "args", mod.get("args", ()))]),
                      workdir)
            generated[mod["cfg"]] = r
            cs = gen.from_behaviours(prop, tier, seed, r["out"]) + cs
        if only is not None:
            if only["recorder"] not in (None, rec["worker"]):
                continue
            cs = [c for c in cs if c["id"] == only["id"]] or [{k: v for k, v in only.items() if k != "recorder"}]
        for jit in (False, True):
            sub = [c for c in cs if bool(c.get("jit")) == jit]
            if sub:
                rounds.append((rec, jit, sub))
    total = {"cases": 0, "events": 0, "states": 0, "clauses": 0}
    rejections, samples = [], []
    jobs = []
    kinds = {}
    for i, (rec, jit, sub) in enumerate(rounds):
        traces = record(rec["worker"], sub, workdir, "r%d" % i, jit, limit)
        total["cases"] += len(sub)
        for tr in traces:
            jobs.append((i, pool.submit(judge, rec["spec"], rec["spec"] + ".cfg", tr, workdir, 240 if tier == "quick" else 3000, prop)))
            for line in open(tr, errors="replace"):
                m = re.search(r'"kind": ?"([^"]*)"', line)
                k = m.group(1) if m else "?"
                kinds[k] = kinds.get(k, 0) + 1
                if kinds[k] <= 1 and len(line) < 6000:
                    try:
                        samples.append(json.loads(line))
                    except ValueError:
                        pass
    for i, j in jobs:
        n, rej, st = j.result()
        for x in rej:
            x["round"] = i
        total["events"] += n
        total["states"] += st
        rejections += rej
    mres = [f.result() for f in mfut]
    # verdict
    known = known_findings(prop)
    seen_known, bad = [], []
    for r in rejections:
        for pat, what in known:
            if re.fullmatch(pat, r["id"] + ("@" + r["event"]["site"] if r["event"].get("site") else "")):
                if (pat, what) not in seen_known:
                    seen_known.append((pat, what))
                break
        else:
            bad.append(r)
    for pat, what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    allcases = {(i, c["id"]): c for i, (_, _, sub) in enumerate(rounds) for c in sub}
    for i, r in enumerate(bad[:10]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        cid = r["event"].get("case", r["id"])
        with open(path, "w") as f:
            json.dump({"property": prop, "failed": r["clauses"], "recorder": rounds[r["round"]][0]["worker"],
                       "case": allcases.get((r["round"], cid), {"id": cid}),
                       "event": r["event"],
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --replay %s" % (seed, tier, prop, path)},
                      f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   event %s fails: %s" % (r["id"], "; ".join(map(str, r["clauses"]))[:600]))
    if len(bad) > 10:
        print("   ... and %d more events" % (len(bad) - 10))
    cov = {
        "states": sum(m["distinct"] for m in mres) + sum(m["distinct"] for m in generated.values()) + total["states"],
        "transitions": sum(m["generated"] for m in mres) + sum(m["generated"] for m in generated.values()) + total["events"],
        "traces_validated_against_impl": total["cases"],
        "events_judged_by_tlc": total["events"],
        "events_by_kind": kinds,
        "design_models": [{k: v for k, v in m.items() if k != "out"} for m in mres],
        "behaviours_generated_by_tlc": [{k: v for k, v in m.items() if k != "out"} for m in generated.values()],
        "samples": [trim(s) for s in samples[:6]],
        "rule": spec.get("rule", ""),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    if total["events"] < spec.get("min_events", 1) and only is None:
        print("ERROR of the machinery: only %d events" % total["events"])
        return 3
    print("%s: %d cases, %d events judged, %d rejected, %d design states, %.1f s" % (
        prop, total["cases"], total["events"], len(bad), sum(m["distinct"] for m in mres), time.time() - t0))
    return 1 if bad else 0


def trim(s, n=12):
    if isinstance(s, dict):
        return {k: trim(v, n) for k, v in s.items()}
    if isinstance(s, list):
        return [trim(v, n) for v in s[:n]] + (["... %d more" % (len(s) - n)] if len(s) > n else [])
    return s
