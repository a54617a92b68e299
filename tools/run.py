#!/usr/bin/env python3
"""Runs the check of one property: exhaustive model, recording of the real code, trace validation.

usage: run.py <property> <quick|thorough>
       run.py <property> replay <file>     records the case of a replay file again and validates it
exit 0: held; 1: VIOLATION printed; 2: the machinery itself failed.
"""
import json, os, re, resource, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import engines
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = f"{ROOT}/build"

def die(msg):
    print("MACHINERY-FAILURE: " + msg, file=sys.stderr)
    sys.exit(2)

def build_driver(engine):
    script = engines.ENGINES[engine].get("build", "build.sh")
    r = subprocess.run([f"{ROOT}/tools/{script}"], stdout=subprocess.PIPE, text=True)
    path = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    if r.returncode != 0 or not os.path.exists(path):
        die("the driver does not build against the current tree (see build/cargo*.log)")
    return path

def tlc(directory, module, cfgtext, tag, env=None, workers=1, extra=(), timeout=600, mem="2g"):
    meta = f"{BUILD}/tlc/{tag}"
    os.makedirs(meta, exist_ok=True)
    cfg = f"{meta}/run.cfg"
    with open(cfg, "w") as f:
        f.write(cfgtext)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", gc, "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-config", cfg, "-metadir", f"{meta}/states", "-noGenerateSpecTE", *extra, module + ".tla"]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=f"{ROOT}/{directory}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = 124
    with open(f"{meta}/out.txt", "w") as f:
        f.write(out)
    subprocess.run(["rm", "-rf", f"{meta}/states"])
    return rc, out

def counts(out):
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def run_model(m, tag):
    """An exhaustive (or simulated) run of a model; a failure here is a fault of the specification, never of the code."""
    cfg = open(f"{ROOT}/{m['dir']}/{m['cfg']}").read()
    t0 = time.time()
    rc, out = tlc(m["dir"], m["module"], cfg, tag, workers=m.get("workers", 8), extra=m.get("extra", ()), timeout=m.get("timeout", 800), mem=m.get("mem", "6g"))
    if rc != 0:
        die(f"model {m['module']}/{m['cfg']} failed:\n" + out[-3000:])
    g, d = counts(out)
    return dict(model=f"{m['dir']}/{m['module']} {m['cfg']}", states=d, transitions=g, wall_s=round(time.time() - t0, 1))

def make_scripts(s, seed, tag):
    """Behaviours of the model, turned into driver scripts (spec -> code)."""
    out = f"{BUILD}/{tag}.script"
    cfg = open(f"{ROOT}/{s['dir']}/{s['cfg']}").read()
    if os.path.exists(out):
        os.remove(out)
    rc, txt = tlc(s["dir"], s["module"], cfg, tag, env={"SCRIPT": out}, workers=1,
                  extra=("-simulate", f"num={s['num']}", "-depth", str(s["depth"]), "-seed", str(seed), "-aril", "0"), timeout=s.get("timeout", 300))
    lines = [m.group(1) for m in re.finditer(r"^@SCRIPT@(.*)$", txt, re.M)]
    if not lines:
        lines = [l for l in txt.splitlines() if l.startswith('"@SCRIPT@')]
        lines = [json.loads(l)[len("@SCRIPT@"):] for l in lines]
    if rc not in (0,) or not lines:
        die(f"simulation of {s['module']} failed (rc={rc}):\n" + txt[-3000:])
    seen, keep = set(), []
    for l in lines:  # TLC prints every candidate last step; one per behaviour is enough
        k = tuple(json.dumps(o) for o in json.loads(l)[:-4])
        if k not in seen:
            seen.add(k); keep.append(l)
    with open(out, "w") as f:
        f.write("\n".join(keep) + "\n")
    return out, len(keep)

def record(binary, engine, prop, seed, cases, first, out, tier, script=None, timeout=400):
    cmd = [binary, engine, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--first", str(first), "--out", out, "--tier", tier]
    if script:
        cmd += ["--script", script]
    e = engines.ENGINES[engine]
    mem, timeout = e.get("mem_gb"), e.get("timeout", timeout)
    pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))) if mem else None
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=pre)
        return r.returncode, (r.stderr or "")[-2000:]
    except subprocess.TimeoutExpired:
        return 124, "the code under test did not come back"

def load_known():
    p = f"{ROOT}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []

def tail_case(path):
    """The last recorded case, for a run that ended early."""
    last = None
    with open(path) as f:
        for i, l in enumerate(f):
            if l.startswith('{') and '"k":"reset"' in l.replace(" ", ""):
                last = i
    return last

def validate(engine, prop, path, tag, timeout=800):
    e = engines.ENGINES[engine]
    cfg = open(f"{ROOT}/{e['dir']}/{e['cfg']}").read().replace("@PROP@", prop)
    rc, out = tlc(e["dir"], e["module"], cfg, tag, env={"TRACE": path}, workers=1, timeout=timeout)
    g, d = counts(out)
    if rc == 0 and "No error has been found" in out:
        return dict(ok=True, states=d, transitions=g)
    if rc == 124 or "OutOfMemory" in out or "Parsing or semantic analysis failed" in out or "ConfigFile" in out:
        die(f"trace validation of {path} gave no answer (rc={rc}):\n" + out[-2500:])
    clauses = re.findall(r'CLAUSE ([^"\n]*)', out)
    m = re.findall(r'REJECTED"?,? *(\d+)', out)
    at = int(m[-1]) if m else None
    if at is None:
        prog = re.findall(r"The depth of the complete state graph search is (\d+)", out) or re.findall(r"^State (\d+):", out, re.M)
        at = int(prog[-1]) if prog else None
        clauses = clauses or [x.strip() for x in re.findall(r"Error: (.*)", out)[:3]]
    return dict(ok=False, at=at, clauses=clauses, states=d, transitions=g, out=out)

def events_of_case(path, at):
    lines = open(path).read().splitlines()
    if at is None:
        at = len(lines)
    at = min(at, len(lines))
    start = 0
    for i in range(at - 1, -1, -1):
        if '"k":"reset"' in lines[i]:
            start = i
            break
    case = json.loads(lines[start]).get("case") if lines else None
    return case, lines[start:at]

def main():
    prop, mode = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = engines.CHECKS[prop]
    if mode == "replay":
        return replay(prop, c, sys.argv[3])
    tier = mode
    t0 = time.time()
    os.makedirs(f"{BUILD}/tr", exist_ok=True); os.makedirs(f"{BUILD}/replay", exist_ok=True); os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    pool = cf.ThreadPoolExecutor(9)
    models = [dict(m) for m in c.get("models", []) if tier == "thorough" or not m.get("thorough")]
    def do_models():
        return [run_model(m, f"{prop}-mc{i}") for i, m in enumerate(models)]
    fut_scripts = [(s, pool.submit(make_scripts, dict(s, num=s["num"] * (10 if tier == "thorough" else 1)), seed, f"{prop}-sim{i}")) for i, s in enumerate(c.get("sims", []))]
    used = [c["engine"]] + [x for x, _ in c.get("also", [])]
    binaries = {x: None for x in used}
    for x in used:
        same = [y for y in used if binaries[y] and engines.ENGINES[y].get("build") == engines.ENGINES[x].get("build")]
        binaries[x] = binaries[same[0]] if same else build_driver(x)
    violations, stats = [], dict(states=0, transitions=0, cases=0, events=0, scripts=0)
    jobs = []
    for i, (s, f) in enumerate(fut_scripts):
        path, n = f.result()
        stats["scripts"] += n
        jobs.append(dict(script=path, cases=n, seed=seed, first=0, name=f"{prop}-s{i}"))
    shards = c.get("shards", 8)
    per = c["cases"]
    budget = c.get("thorough_s", 420)
    fut_models = pool.submit(do_models)
    def job(j):
        out = f"{BUILD}/tr/{j['name']}.ndjson"
        eng = j.setdefault("engine", c["engine"])
        rc, err = record(binaries[eng], eng, prop, j["seed"], j["cases"], j["first"], out, tier, j.get("script"))
        if not os.path.exists(out):
            die(f"driver wrote no trace: rc={rc} {err}")
        if rc == 2:
            die("driver: " + err)
        if rc != 0:
            case, ev = events_of_case(out, None)
            return dict(j, ok=False, case=case, clauses=[f"the process under test ended abnormally (status {rc}): {err.strip()[-300:]}"], ev=ev[-200:], states=0, transitions=0, n=0)
        n = sum(1 for _ in open(out))
        r = validate(eng, prop, out, j["name"])
        if not r["ok"]:
            case, ev = events_of_case(out, r["at"])
            cl = r["clauses"]
            if not cl and ev:
                cl = ["no transition of the specification matches: " + ev[-1][:300]]
            return dict(j, ok=False, case=case, clauses=cl, ev=ev, states=r["states"], transitions=r["transitions"], n=n)
        head = open(out).read(6000).splitlines()[:12]
        os.remove(out)
        return dict(j, ok=True, states=r["states"], transitions=r["transitions"], n=n, head=head)
    sample = []
    rnd = 0
    while True:
        batch = list(jobs)
        jobs = []
        for k in range(shards):
            batch.append(dict(cases=per, seed=seed * 1000 + rnd * shards + k, first=0, name=f"{prop}-r{k}"))
        for e, n in c.get("also", []):
            for k in range(shards):
                batch.append(dict(engine=e, cases=n, seed=seed * 1000 + rnd * shards + k, first=0, name=f"{prop}-{e}{k}"))
        for r in pool.map(job, batch):
            stats["states"] += r["states"]; stats["transitions"] += r["transitions"]
            stats["cases"] += r["cases"]; stats["events"] += r["n"]
            if not r["ok"]:
                violations.append(r)
            elif not sample:
                sample = r["head"]
        rnd += 1
        if violations or tier == "quick" or time.time() - t0 > budget:
            break
    mres = fut_models.result()
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    code = 0
    for v in violations[:1]:
        path = f"{BUILD}/replay/{prop}-{v['seed']}-{v['case']}.json"
        with open(path, "w") as f:
            json.dump(dict(property=prop, engine=v["engine"], seed=v["seed"], case=v["case"], script=(open(v["script"]).read().splitlines() if v.get("script") else None),
                           clauses=v["clauses"], events=[json.loads(x) for x in v["ev"]]), f)
        print("violated: " + "; ".join(v["clauses"])[:600])
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(m["states"] for m in mres) + stats["states"], transitions=sum(m["transitions"] for m in mres) + stats["transitions"],
                            traces_validated_against_impl=stats["cases"], trace_events=stats["events"], trace_states=stats["states"], spec_generated_schedules=stats["scripts"],
                            models=mres, samples=[json.loads(x) for x in sample]),
              assumptions=sum((engines.ENGINES[e].get("assumptions", []) for e in [c["engine"]] + [x for x, _ in c.get("also", [])]), []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(f"{ROOT}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {stats['cases']} recorded executions, {stats['events']} events, {stats['scripts']} generated schedules, "
          f"models {[(m['states'], m['transitions']) for m in mres]}, {ev['wall_s']} s, violations {len(violations)}")
    sys.exit(code)

def replay(prop, c, path):
    os.makedirs(f"{BUILD}/tr", exist_ok=True)
    v = json.load(open(path))
    binary = build_driver(v["engine"])
    out = f"{BUILD}/tr/{prop}-replay.ndjson"
    script, first, n = None, v["case"] or 0, 1
    if v.get("script"):
        script = f"{BUILD}/tr/{prop}-replay.script"
        open(script, "w").write("\n".join(v["script"]) + "\n")
    rc, err = record(binary, v["engine"], prop, v["seed"], n, first, out, "quick", script)
    if rc != 0:
        print(f"status {rc}: {err}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    r = validate(v["engine"], prop, out, f"{prop}-replay")
    if r["ok"]:
        print("replay accepted: the property holds on this case")
        sys.exit(0)
    print("violated: " + "; ".join(r["clauses"]), "at event", r["at"])
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)

main()
