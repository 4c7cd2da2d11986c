"""The language model loader over real user files."""
from suites.lm import sort_lm
DRIVER = "loader_drv"
TRACE = "LoaderTrace"
PROPS = ["L02"]
LM0 = [dict(k="p", v="a", s=-1000), dict(k="p", v="b", s=-2000)]


def lm0(rng, keys, vals, n):
    return sort_lm([dict(k=rng.choice(keys), v=rng.choice(vals), s=rng.choice([-1000, -2000, -3500])) for _ in range(n)])


def models(tier, prop):
    return [dict(module="LoaderMC", cfg="LoaderMC.cfg" if tier == "quick" else "LoaderMC5.cfg", timeout=700)]


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    sc = []
    for mc, hs in from_model:
        rng.shuffle(hs)
        for h in hs[:500 if q else 5000]:
            dirs = 3 if h[0]["k"] == "edit" else rng.randrange(4)
            sc.append(dict(home="home", dirs=dirs, lm=LM0, plain=[dict(k="p", v="b", s=0)], keys=["p"], ops=h))
    keys0 = ["ㄕㄨ", "ㄕㄨ-ㄖㄨˋ", "ㄖㄨˋ", "ㄕ"]
    vals0 = ["書", "輸", "輸入", "舒", "入", "甲", "乙"]
    for _ in range(200 if q else 2000):
        keys = rng.sample(keys0, rng.choice([1, 2, 3]))
        vals = rng.sample(vals0, rng.choice([2, 4, 6]))
        mts = list(range(1, 200))
        rng.shuffle(mts)

        def line(f):
            r = rng.random()
            v = rng.choice(vals)
            if r < .1:
                return rng.choice([dict(s="", p=[]), dict(s="# " + v, p=[]), dict(s="   ", p=[]), dict(s="#", p=[])])
            if r < .13:
                return dict(s=v, p=[v])
            k = rng.choice(vals) if f == "r" else rng.choice(keys)
            return dict(s=v + rng.choice([" ", "\t", "  "]) + k + rng.choice(["", "", " ", " note"]), p=[v, k])

        def lm(n):
            return sort_lm([dict(k=rng.choice(keys), v=rng.choice(vals), s=rng.choice([-1000, -2000, -3500])) for _ in range(n)])
        ops = []
        started = False
        have = set()
        last = {}       # the last edit of each file; it may come back as it was
        if rng.random() < .7:
            ops.append(dict(k="start"))
            started = True
            have |= {"u", "x"}
        for _ in range(rng.choice([6, 15, 30])):
            r = rng.random()
            f = rng.choice("uuxxr")
            if f in last and f not in have and r < .3:
                ops.append(dict(last[f]))
                if rng.random() < .5:
                    ops.append(dict(k="check"))
                have.add(f)
            elif r < .35:
                n = rng.choice([0, 1, 2, 5, 400] if rng.random() < .1 else [0, 1, 2, 5])
                x = [line(f) for _ in range(n)]
                # an unterminated empty last line is no line at all
                term = rng.random() < .6 or (n > 0 and x[-1]["s"] == "")
                ops.append(dict(k="edit", f=f, x=x, term=term,
                                how=rng.choice(["inplace", "replace"]), mt=mts.pop()))
                last[f] = ops[-1]
                have.add(f)
            elif r < .45 and f in have:
                ops.append(dict(k="rm", f=f))
                have.discard(f)
                if rng.random() < .5 and started:
                    ops.append(dict(k="check"))
            elif r < .65 and started:
                ops.append(dict(k="check"))
            elif r < .88 and started:
                ops.append(dict(k="add", v=rng.choice(vals + ["新詞", "𠀀"]), r=rng.choice(keys)))
                last.pop("u", None)
                if "u" not in have:
                    ops.append(dict(k="check"))
            elif r < .94 and started:
                ops.append(dict(k="mode", plain=rng.random() < .5))
            else:
                ops.append(dict(k="start"))
                started = True
                have |= {"u", "x"}
        edits_first = not ops or ops[0]["k"] != "start"
        sc.append(dict(home=rng.choice(["home", "a b", "家"]), dirs=3 if edits_first else rng.randrange(4),
                       lm=lm(5), plain=lm(3), keys=keys, ops=ops))
    # Something is in the way of the user's directory; tables are not installed.
    for _ in range(60 if q else 400):
        keys, vals = keys0[:3], vals0[:5]
        shut = rng.random() < .7
        ops = [dict(k="start")]
        for _ in range(rng.choice([2, 5])):
            ops.append(rng.choice([dict(k="check"), dict(k="add", v=rng.choice(vals), r=rng.choice(keys)), dict(k="start"),
                                   dict(k="mode", plain=rng.random() < .5)]))
        if shut and rng.random() < .6:
            ops += [dict(k="free"), dict(k="start")]
            shut2 = False
        else:
            shut2 = shut
        if not shut2:
            for _ in range(3):
                ops.append(rng.choice([dict(k="check"), dict(k="add", v=rng.choice(vals), r=rng.choice(keys)), dict(k="mode", plain=True)]))
        sc.append(dict(home=rng.choice(["home", "家"]), dirs=0, block=rng.choice(["home", "fcitx5", "fcitx5/mcbopomofo"]) if shut else "",
                       miss=rng.choice([[], [], ["m"], ["p"], ["m", "p"]]), lm=lm0(rng, keys, vals, 4), plain=lm0(rng, keys, vals, 3), keys=keys, ops=ops))
    return sc, {}, []
