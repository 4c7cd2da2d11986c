#!/usr/bin/env python3
"""Runner: vf.py setup | check PROP | replay FILE | suite NAME

check PROP: builds the drivers from /repo's working tree, explores the TLA+
models, produces scenarios (behaviours printed by TLC and seeded random ones),
runs them in the real code, and has TLC decide whether every recorded trace is a
behaviour of the specification.  Mismatches carry the properties they break; the
ones of PROP are confirmed by running the scenario again before they are
reported."""
import concurrent.futures, hashlib, importlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(VERIF, "tools"))


class Err(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --- build ------------------------------------------------------------------
def build(driver):
    env = dict(os.environ, LC_ALL="C.UTF-8")
    r = subprocess.run(["make", "-s", "-j%d" % NCPU, "-C", os.path.join(VERIF, "harness"),
                        os.path.join(BUILD, driver)], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Err("build of %s failed:\n%s" % (driver, r.stdout[-4000:]))
    return os.path.join(BUILD, driver)


# --- TLC --------------------------------------------------------------------
def tlc(module, cfg, work, env=None, workers=NCPU, timeout=600, heap="8g"):
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ, LC_ALL="C.UTF-8", **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    outp = os.path.join(work, "tlc.out")
    with open(outp, "wb") as f:
        p = subprocess.Popen(
            ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8",
             "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
             "-workers", str(workers), "-noTE", "-metadir", os.path.join(work, "states"),
             "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")],
            cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout)
            to = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            to = True
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    out, scn = [], []
    with open(outp, encoding="utf-8", errors="replace") as f:
        for line in f:
            i = line.find('"SCN ')
            if i < 0:
                out.append(line)
                continue
            try:
                scn.append(json.loads(json.loads(line[i:].strip())[4:]))
            except Exception:
                pass
    out = "".join(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return dict(rc=p.returncode, out=out, timeout=to, scn=scn,
                ok=("No error has been found" in out) and not to,
                generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)


def explore(mc, work):
    """Runs one exhaustive model; returns stats and the scenarios it printed."""
    r = tlc(mc["module"], mc.get("cfg", mc["module"] + ".cfg"), work, env=mc.get("env"),
            timeout=mc.get("timeout", 300))
    if not r["ok"]:
        raise Err("model %s rejected by TLC:\n%s" % (mc["module"], r["out"][-3000:]))
    scn = r.pop("scn")
    # [s: source state, h: history ending with the transition]; the set of
    # transitions does not depend on scheduling, the histories leading there may
    scn.sort(key=lambda x: (x["s"], json.dumps(x["h"][-1:] if isinstance(x["h"], list) else x["h"], sort_keys=True)))
    return r, [x["h"] for x in scn]


# --- driving the code -------------------------------------------------------
def drive(binary, scenarios, work, args, timeout, shards=NCPU):
    os.makedirs(work, exist_ok=True)
    n = max(1, min(shards, len(scenarios)))
    procs = []
    for i in range(n):
        ip, op = os.path.join(work, "in%d.ndjson" % i), os.path.join(work, "out%d.ndjson" % i)
        with open(ip, "w") as f:
            for s in scenarios[i::n]:
                f.write(json.dumps(s, ensure_ascii=False) + "\n")
        wd = os.path.join(work, "cwd%d" % i)
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1",
                   LC_ALL="C.UTF-8", TMPDIR=wd, HOME=wd, TZ="UTC")
        if os.environ.get("VF_STDERR"):
            env["VF_STDERR"] = "1"
        procs.append((subprocess.Popen([binary, ip, op] + args, env=env, cwd=wd,
                                       stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VF_STDERR") else subprocess.DEVNULL), op))
    end = time.time() + timeout
    outs = []
    for p, op in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q, _ in procs:
                q.kill()
            raise Err("driver %s timed out" % binary)
        if rc != 0:
            raise Err("driver %s failed with %d" % (binary, rc))
        outs.append([json.loads(x) for x in open(op, encoding="utf-8")])
        if os.path.exists(op):
            pass
    res = [None] * len(scenarios)
    for i in range(n):
        if len(outs[i]) != len(scenarios[i::n]):
            raise Err("driver %s lost traces" % binary)
        res[i::n] = outs[i]
    return res


MM = re.compile(r'^<<"MISMATCH", "([^"]*)", (\d+), (\d+), (.*)$', re.S)


def parse_mismatches(out):
    res = []
    cur = None
    for line in out.splitlines():
        if line.startswith('<<"MISMATCH"') or line.startswith('<< "MISMATCH"'):
            if cur:
                res.append(cur)
            cur = line
        elif cur is not None and not cur.rstrip().endswith(">>") or (cur and line.startswith("   ")):
            cur += "\n" + line
        else:
            if cur:
                res.append(cur)
            cur = None
    if cur:
        res.append(cur)
    parsed = []
    for c in res:
        c = re.sub(r'\s*\n\s*', ' ', c)
        c = re.sub(r'^<<\s+', '<<', c)
        m = MM.match(c)
        if m:
            parsed.append((m.group(1).split(), int(m.group(2)), int(m.group(3)), m.group(4)))
        else:
            parsed.append((["?"], 0, 0, c))
    return parsed


def validate(module, cfg, traces, work, env, timeout, tags):
    """TLC over recorded traces. Returns (mismatches, distinct, generated)."""
    n = 1 if len(traces) < 40 else min(NCPU, 8)
    # balance by size: TLC's JSON reader is the dominant cost
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    groups = [sorted(order[i::n]) for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(validate1, module, cfg, [traces[i] for i in g], os.path.join(work, "s%d" % k),
                          env, timeout, tags, 1 if n > 1 else 0) for k, g in enumerate(groups)]
        res = [f.result() for f in futs]
    mms = []
    for g, r in zip(groups, res):
        mms += [(m[0], g[m[1] - 1] + 1 if m[1] else 0, m[2], m[3]) for m in r[0]]
    return mms, sum(r[1] for r in res), sum(r[2] for r in res)


def validate1(module, cfg, traces, work, env, timeout, tags, depth=0):
    os.makedirs(work, exist_ok=True)
    tp = os.path.join(work, "trace.ndjson")
    with open(tp, "w", encoding="utf-8") as f:
        for t in traces:
            f.write(json.dumps(t, ensure_ascii=False) + "\n")
    r = tlc(module, cfg, work, env=dict(env, VF_TRACE=tp), timeout=timeout,
            workers=NCPU if depth == 0 else 2 if depth > 1 else 1, heap="3g")
    mms = parse_mismatches(r["out"])
    if r["ok"]:
        bad = {m[1] for m in mms} | {int(x) for x in re.findall(r'<<"SKIP", (\d+), ', r["out"])}
        want = sum(len(t["ev"]) for i, t in enumerate(traces, 1) if i not in bad) + len(traces)
        if r["distinct"] < want:
            raise Err("trace validation visited %d states, expected %d" % (r["distinct"], want))
        return mms, r["distinct"], r["generated"]
    if r["timeout"]:
        raise Err("TLC timed out on traces of %s" % module)
    if "Parsing or semantic analysis failed" in r["out"]:
        raise Err("specification %s does not parse:\n%s" % (module, r["out"][-2000:]))
    if len(traces) == 1:
        tail = r["out"][-2500:]
        # The recorded values are outside the specification's vocabulary, or an
        # invariant of the model fails.
        return mms + [(sorted(tags), 1, 0, '"uninterpretable" ' + re.sub(r"\s+", " ", tail))], 1, 1
    if depth > 12:
        raise Err("TLC failed:\n" + r["out"][-3000:])
    mid = len(traces) // 2
    parts = [traces[:mid], traces[mid:]]
    a = validate1(module, cfg, parts[0], work + "a", env, timeout, tags, depth + 1)
    stop = a[0] and any("uninterpretable" in m[3] for m in a[0])
    b = ([], 0, 0) if stop else validate1(module, cfg, parts[1], work + "b", env, timeout, tags, depth + 1)
    return a[0] + [(m[0], m[1] + mid, m[2], m[3]) for m in b[0]], a[1] + b[1], a[2] + b[2]


# --- known findings ---------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def load_suite(name):
    return importlib.import_module("suites." + name)


def run_suite(name, prop, tier, work, stats):
    """Runs one suite for one property. Returns list of violations."""
    S = load_suite(name)
    rng = random.Random("%s/%s/%d" % (name, getattr(S, "SHARE", {}).get(prop, prop), SEED))
    binary = build(S.DRIVER)
    w = os.path.join(work, name)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    t0 = time.time()
    scn_from_model = []
    for mc in S.models(tier, prop):
        r, scn = explore(mc, os.path.join(w, "mc_" + mc.get("cfg", mc["module"]).replace(".cfg", "")))
        stats["states"] += r["distinct"]
        stats["transitions"] += r["generated"]
        stats["models"].append("%s: %d distinct states, %d transitions" % (mc.get("cfg", mc["module"]), r["distinct"], r["generated"]))
        scn_from_model.append((mc, scn))
    t1 = time.time()
    scenarios, env, args = S.scenarios(rng, tier, prop, w, scn_from_model)
    traces = drive(binary, scenarios, os.path.join(w, "drv"), args, 600)
    t2 = time.time()
    mms, distinct, generated = validate(S.TRACE, S.TRACE + ".cfg", traces, os.path.join(w, "val"), env, 700, S.PROPS)
    t3 = time.time()
    log("  %s: models %.1fs, drive %.1fs (%d traces), validate %.1fs (%d events), mismatches %d" % (
        name, t1 - t0, t2 - t1, len(traces), t3 - t2, sum(len(t["ev"]) for t in traces), len(mms)))
    stats["traces"] += len(traces)
    stats["trace_states"] += distinct
    stats["states"] += distinct
    stats["transitions"] += generated
    if hasattr(S, "coverage"):
        stats.setdefault("suite_coverage", {})[name] = S.coverage(traces)
    if traces:
        k = rng.randrange(len(traces))
        ev = traces[k]["ev"]
        stats["samples"].append(dict(suite=name, scenario={a: b for a, b in scenarios[k].items()} if len(json.dumps(scenarios[k])) < 3000 else str(scenarios[k])[:3000],
                                     last_event=(json.dumps(ev[-1], ensure_ascii=False)[:1500] if ev else None)))
    mine = {}
    for tags, t, l, what in mms:
        if prop in tags:
            mine.setdefault(t, []).append((tags, l, what))
        else:
            stats["other_mismatches"] += 1
    res = []
    for t in sorted(mine)[:6]:
        sc = scenarios[t - 1]
        # run again: only a repeatable mismatch is reported
        cw = os.path.join(w, "confirm%d" % t)
        tr = drive(binary, [sc], os.path.join(cw, "drv"), args, 120)
        mm2, _, _ = validate(S.TRACE, S.TRACE + ".cfg", tr, os.path.join(cw, "val"), env, 300, S.PROPS)
        again = [(tg, l, wh) for tg, _, l, wh in mm2 if prop in tg]
        if not again:
            log("  not repeatable: %s trace %d: %s" % (name, t, mine[t]))
            stats["unrepeatable"] += 1
            continue
        res.append(dict(suite=name, scenario=sc, env=env, args=args, mismatches=again,
                        trace=tr[0], extra=S.replay_aux(w) if hasattr(S, "replay_aux") else {}))
    stats["violating_traces"] += len(mine)
    if mine and not res:
        raise Err("mismatches were not repeatable")
    return res


def level_of(prop):
    import props
    return props.PROPS[prop]


def check(prop, tier):
    import props
    P = props.PROPS[prop]
    t0 = time.time()
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    stats = dict(states=0, transitions=0, traces=0, trace_states=0, models=[], samples=[],
                 other_mismatches=0, unrepeatable=0, violating_traces=0)
    viols = []
    for s in P["suites"]:
        viols += run_suite(s, prop, tier, work, stats)
    known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == prop]
    seen_known, fresh = set(), []
    for v in viols:
        txt = json.dumps([m[2] for m in v["mismatches"]], ensure_ascii=False)
        hit = None
        for k in known:
            if k["suite"] == v["suite"] and re.search(k["match"], txt):
                hit = k
        if hit:
            seen_known.add(hit["what"])
        else:
            fresh.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking",
              coverage=dict(states=stats["states"], transitions=stats["transitions"],
                            traces_validated_against_impl=stats["traces"],
                            events_validated=stats["trace_states"] - stats["traces"],
                            models=stats["models"], samples=stats["samples"],
                            suites=P["suites"], per_suite=stats.get("suite_coverage", {}),
                            mismatches_of_other_properties=stats["other_mismatches"]),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if fresh:
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        v = min(fresh, key=lambda x: len(json.dumps(x["scenario"])))
        path = os.path.join(rd, "%s-%s.json" % (prop, v["suite"]))
        with open(path, "w") as f:
            json.dump(v, f, ensure_ascii=False, indent=1)
        print("property %s violated in suite %s:" % (prop, v["suite"]))
        for m in v["mismatches"][:4]:
            print("  event %d: %s" % (m[1], m[2][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property %s held: %d model states, %d traces, %d events, %.1fs" % (
        prop, stats["states"] - stats["trace_states"], stats["traces"],
        stats["trace_states"] - stats["traces"], time.time() - t0))
    return 0


def main():
    try:
        if sys.argv[1] == "check":
            sys.exit(check(sys.argv[2], TIER))
        if sys.argv[1] == "suite":       # development: every mismatch of a suite
            st = dict(states=0, transitions=0, traces=0, trace_states=0, models=[], samples=[],
                      other_mismatches=0, unrepeatable=0, violating_traces=0)
            S = load_suite(sys.argv[2])
            prop = sys.argv[3] if len(sys.argv) > 3 else S.PROPS[0]
            w = os.path.join(WORK, "dev", sys.argv[2])
            rng = random.Random("%s/%s/%d" % (sys.argv[2], prop, SEED))
            b = build(S.DRIVER)
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            sm = []
            t0 = time.time()
            for mc in S.models(TIER, prop):
                r, scn = explore(mc, os.path.join(w, "mc_" + mc.get("cfg", mc["module"]).replace(".cfg", "")))
                log(mc["module"], r["distinct"], r["generated"], len(scn))
                sm.append((mc, scn))
            t1 = time.time()
            sc, env, args = S.scenarios(rng, TIER, prop, w, sm)
            tr = drive(b, sc, os.path.join(w, "drv"), args, 900)
            t2 = time.time()
            mm, d, g = validate(S.TRACE, S.TRACE + ".cfg", tr, os.path.join(w, "val"), env, 900, S.PROPS)
            t3 = time.time()
            log("models %.1fs drive %.1fs validate %.1fs; %d traces, %d events, %d states, %d mismatches" % (
                t1 - t0, t2 - t1, t3 - t2, len(tr), sum(len(t["ev"]) for t in tr), d, len(mm)))
            if hasattr(S, "coverage"):
                log(json.dumps(S.coverage(tr), ensure_ascii=False, indent=1))
            mm.sort(key=lambda m: (m[2], len(json.dumps(sc[m[1] - 1])) if m[1] else 0))
            for m in mm[:int(os.environ.get("SHOW", "8"))]:
                print("----", " ".join(m[0]), "trace", m[1], "event", m[2], m[3][:1500])
                if m[1]:
                    s = sc[m[1] - 1]
                    print("   ", json.dumps({k: v for k, v in s.items() if k != "ops"}, ensure_ascii=False)[:600])
                    print("   ", json.dumps(s["ops"][:m[2]], ensure_ascii=False)[-1500:])
            sys.exit(1 if mm else 0)
        if sys.argv[1] == "replay":
            v = json.load(open(sys.argv[2]))
            S = load_suite(v["suite"])
            b = build(S.DRIVER)
            w = os.path.join(WORK, "rp")
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            env, args = v["env"], v["args"]
            for p, text in v.get("extra", {}).items():
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
            tr = drive(b, [v["scenario"]], os.path.join(w, "drv"), args, 120)
            mm, _, _ = validate(S.TRACE, S.TRACE + ".cfg", tr, os.path.join(w, "val"), env, 300, S.PROPS)
            for m in mm:
                print(m)
            sys.exit(1 if mm else 0)
        if sys.argv[1] == "setup":
            for d in sorted(set(load_suite(s).DRIVER for s in __import__("props").SUITES)):
                build(d)
            sys.exit(0)
    except Err as e:
        log("error: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
