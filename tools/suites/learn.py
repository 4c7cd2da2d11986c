"""Learning through real conversions: UserOverrideModel fed by ReadingGrid walks."""
import json, os
from suites import grid as G
DRIVER = "learn_drv"
TRACE = "LearnTrace"
PROPS = ["C14"]


def models(tier, prop):
    return []


def dictionary(rng, letters):
    """Close scores, so that choices change the phrases around them; "_p" and
    "_q" are punctuation."""
    lm, n = {}, 0
    import itertools
    for ln, dens in ((1, 1), (2, .6), (3, .35), (4, .3), (5, .2)):
        for c in itertools.product(letters, repeat=ln):
            if rng.random() > dens:
                continue
            k = rng.choice([2, 3] if ln == 1 else [1, 1, 2])
            base = -3 * G.COARSE * ln
            sc = sorted(rng.sample(range(base, base + 2 * G.COARSE, 64), k), reverse=True)
            us = []
            for s in sc:
                n += 1
                us.append(dict(v="v%d" % n if rng.random() < .7 else "s%d" % (n % 4), s=s))
            if len({x["v"] for x in us}) == k:
                lm["-".join(c)] = us
    for x in letters:
        lm.setdefault(x, [dict(v="z" + x, s=-3 * G.COARSE), dict(v="y" + x, s=-3 * G.COARSE - 5)])
    for p in ("_p", "_q"):
        lm[p] = [dict(v=p[1] + "1", s=-G.COARSE), dict(v=p[1] + "2", s=-2 * G.COARSE)]
    return lm


def ops_of(rng, letters, n):
    """Types a short text again and again, choosing at random."""
    ops = []
    text = [rng.choice(letters + ["_p", "_q"] * rng.choice([0, 0, 1])) for _ in range(rng.choice([2, 3, 4, 5, 7]))]
    ln = 0
    while len(ops) < n:
        r = rng.random()
        if ln == 0 or r < .15:
            if ln and rng.random() < .5:
                ops.append(dict(k="clr", keep=rng.random() < .3))
                ln = 0
            if rng.random() < .2:
                text[rng.randrange(len(text))] = rng.choice(letters + ["_p"])
            for x in text[:rng.randint(1, len(text))]:
                if ln < 9:
                    ops.append(dict(k="ins", r=x))
                    ln += 1
        elif r < .75:
            c = rng.randint(0, ln)
            ops.append(dict(k="pick", c=c, oc=rng.choice([c] * 6 + [rng.randint(0, ln + 1)]), i=rng.randrange(12),
                            ty=1 if rng.random() < .8 else 2, d=rng.choice([0, 0, 0, 1, 3, 9])))
        elif r < .8:
            ops.append(dict(k="tick", d=rng.choice([1, 8, 40, 161]), keep=True))
        elif r < .86:
            ops.append(dict(k="stale", c=rng.randint(0, ln)))
        elif r < .93:
            ops.append(dict(k=rng.choice(["bs", "del"]), keep=rng.random() < .2))
        else:
            ops.append(dict(k="cur", c=rng.randint(0, ln)))
    return ops


def scenarios(rng, tier, prop, work, from_model):
    lms, ls = [], []
    for i in range(6 if tier == "quick" else 20):
        letters = ["a", "b"] if i % 2 == 0 else ["a", "b", "c"]
        lms.append(dictionary(rng, letters))
        ls.append(letters)
    p = os.path.join(work, "lms.json")
    json.dump(lms, open(p, "w"))
    sc = []
    for i in range(400 if tier == "quick" else 6000):
        j = rng.randrange(len(lms))
        sc.append(dict(lm=j + 1, cap=rng.choice([1, 2, 3, 8, 50, 50]), src="random",
                       ops=ops_of(rng, ls[j], rng.choice([15, 30]))))
    return sc, dict(VF_LMS=p), [p]


def replay_aux(work):
    p = os.path.join(work, "lms.json")
    return {p: open(p).read()}


def coverage(traces):
    from collections import Counter
    c = Counter()
    for t in traces:
        for e in t["ev"]:
            c[e["k"] + ("" if "o" not in e else ("+" if e["o"]["ret"] else "-"))] += 1
            if "o" in e:
                c["suggestions"] += sum(1 for s in e["o"]["s"] if not s[2])
                c["raised"] += sum(1 for s in e["o"]["s"] if s[1])
    return dict(c)
