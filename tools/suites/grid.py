"""ReadingGrid: lattice, walk, overrides, candidates."""
import itertools, json, os, random
DRIVER = "grid_drv"
TRACE = "GridTrace"
PROPS = ["C01", "C02", "C03", "C04", "C08"]


def lm_small():
    """The dictionary of GridMC.tla."""
    U = lambda v, s: dict(v=v, s=s)
    return {"a": [U("A1", -3), U("A2", -4)], "b": [U("B", -3)], "a-a": [U("AA", -5)],
            "b-a": [U("BA", -7), U("BA2", -9)], "a-b-a": [U("ABA", -8), U("A1", -20)]}


def lm_random(rng, letters, dens, mild, shared):
    """Random dictionary: every single has phrases, longer runs with density
    dens by length; scores distinct within a reading."""
    lm = {}
    pool = ["P%d" % i for i in range(6)] if shared else None
    n = 0
    for ln in range(1, 7):
        for c in itertools.product(letters, repeat=ln):
            if ln > 1 and rng.random() > dens[ln - 1]:
                continue
            k = rng.choice([1, 1, 2, 3])
            lo = -4 * ln if mild else -12 * ln
            if mild and ln > 1:
                lo = -3 * ln
            sc = sorted(rng.sample(range(lo * 50 + (0 if ln > 1 or not mild else 0), 0), k), reverse=True)
            vals = []
            for _ in range(k):
                n += 1
                v = rng.choice(pool) if pool and rng.random() < 0.4 else "v%d" % n
                if v in vals:
                    v = "v%d" % n
                vals.append(v)
            lm["-".join(c)] = [dict(v=v, s=s) for v, s in zip(vals, sc)]
    return lm


# Scores are in units of 1/16384 (the raised score 42 is 688128 of them): a
# coarse dictionary has whole scores, a fine one scores that differ by units.
COARSE = 16384


def in_units(lm, f):
    return {r: [dict(v=u["v"], s=u["s"] * f) for u in us] for r, us in lm.items()}


def models(tier, prop):
    m = [dict(module="GridMC")]
    if tier == "thorough":
        m = [dict(module="GridMC", cfg="GridMC4.cfg", timeout=800)]
    return m


def random_ops(rng, letters, lm, n, maxlen):
    ops = []
    ln = 0
    vals = sorted({u["v"] for us in lm.values() for u in us})
    rds = sorted(lm)
    style = rng.choice(["mixed", "type", "edit", "choose"])
    wt = dict(mixed=(30, 8, 8, 14, 20, 6, 6, 1), type=(60, 5, 5, 10, 10, 3, 3, 0),
              edit=(25, 20, 20, 20, 12, 2, 2, 1), choose=(25, 4, 4, 10, 40, 10, 8, 0))[style]
    first = rng.randrange(0, maxlen)
    for _ in range(first):
        ops.append(dict(k="ins", r=rng.choice(letters)))
        ln += 1
    for _ in range(n):
        k = rng.choices(["ins", "bs", "del", "cur", "ovi", "ovr", "ovv", "clr"], wt)[0]
        if k == "ins":
            if ln >= maxlen:
                k = "cur"
            else:
                r = rng.choice(letters + ["", "-", "zz"]) if rng.random() < 0.1 else rng.choice(letters)
                ops.append(dict(k="ins", r=r))
                if r in letters:
                    ln += 1
                continue
        if k == "cur":
            ops.append(dict(k="cur", c=rng.randint(0, ln)))
        elif k == "ovi":
            ops.append(dict(k="ovi", c=rng.randint(0, ln), i=rng.randrange(40), ty=rng.choice([1, 1, 2])))
        elif k == "ovr":
            r = rng.choice(rds)
            u = rng.choice(lm[r])["v"] if rng.random() < 0.8 else rng.choice(vals)
            ops.append(dict(k="ovr", c=rng.randint(0, ln + 1), r=r, v=u, ty=rng.choice([1, 2])))
        elif k == "ovv":
            ops.append(dict(k="ovv", c=rng.randint(0, ln + 1), v=rng.choice(vals), ty=rng.choice([1, 2])))
        else:
            ops.append(dict(k=k))
            if k == "clr":
                ln = 0
            # ln is only an upper bound for the generator
    return ops


def scenarios(rng, tier, prop, work, from_model):
    lms, specs = [lm_small()], [(["a", "b"], None)]
    for i in range(6 if tier == "quick" else 20):
        letters = ["a", "b"] if i % 2 == 0 else ["a", "b", "c"]
        mild = i % 3 != 0
        dens = [1, .7, .5, .35, .25, .2] if len(letters) == 2 else [1, .5, .25, .1, .05, .03]
        lm = lm_random(rng, letters, dens, mild, i % 2 == 1)
        lms.append(lm)
        specs.append((letters, lm))
    p = os.path.join(work, "lms.json")
    json.dump([in_units(lm, 1 if i % 4 in (2, 3) else COARSE) for i, lm in enumerate(lms)], open(p, "w"))
    sc = []
    for mc, hists in from_model:
        hists = [h for h in hists if h]
        rng.shuffle(hists)
        for h in hists[:1500 if tier == "quick" else 12000]:
            sc.append(dict(lm=1, src="model", ops=h))
    for i in range(500 if tier == "quick" else 5000):
        j = rng.randrange(1, len(lms))
        letters, lm = specs[j]
        sc.append(dict(lm=j + 1, src="random",
                       ops=random_ops(rng, letters, lm, rng.choice([8, 15, 25]), rng.choice([4, 8, 13]))))
    return sc, dict(VF_LMS=p), [p]


def replay_aux(work):
    p = os.path.join(work, "lms.json")
    return {p: open(p).read()}


def coverage(traces):
    from collections import Counter
    c = Counter()
    for t in traces:
        for e in t["ev"]:
            c[e["k"] + ("" if "o" not in e else ("+" if e["o"]["ret"] else "-"))] += 1
            if "o" in e:
                c["len%d" % len(e["o"]["rd"])] += 1
    return dict(c)
