"""Merging of user, excluded, replaced and built-in phrases."""
DRIVER = "lm_drv"
TRACE = "LMTrace"
PROPS = ["L01"]


def models(tier, prop):
    return [dict(module="LMMC", cfg="LMMC.cfg" if tier == "quick" else "LMMC6.cfg", timeout=700)]


def sort_lm(xs):
    def line(e):
        return ("%s %s %g" % (e["k"], e["v"], e["s"] / 1000.0)).encode()
    return sorted(xs, key=line)


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    sc = []
    for mc, hs in from_model:
        rng.shuffle(hs)
        for h in hs[:500 if q else 6000]:
            ops = []
            for e in h:
                ops.append(dict(e, x=sort_lm(e["x"])) if e["k"] == "lm" else e)
                if rng.random() < .2:
                    ops.append(dict(k="q", key=rng.choice(["p", "p-q"])))
            ops += [dict(k="q", key=k) for k in ("p", "p-q", " ", "q")] + [dict(k="rd", v=v) for v in "ab"]
            sc.append(dict(hasMacro=True, macro=[["MACRO@Y", "y"]], hasConv=True, conv=[["a", "b"], ["y", "z"]], ops=ops))
    keys0 = ["ㄕㄨ", "ㄕㄨ-ㄖㄨˋ", "ㄖㄨˋ", "ㄕ", "_punctuation_,", "ㄕㄨ-ㄖㄨˋ-ㄈㄚˇ", "a"]
    vals0 = ["書", "輸", "輸入", "舒", "入", "甲", "乙", "丙丁", "MACRO@A", "MACRO@B", "MACRO@", "MACRO@ZZ", "，", "𠀀", "台灣", "臺灣"]
    for _ in range(250 if q else 3000):
        keys = rng.sample(keys0, rng.choice([1, 2, 4]))
        vals = rng.sample(vals0, rng.choice([2, 4, 8]))
        macro = [[m, rng.choice(["甲", "乙", "今天", m])] for m in ("MACRO@A", "MACRO@B") if rng.random() < .7]
        conv = [[a, rng.choice(vals + ["轉"])] for a in rng.sample(vals + ["甲", "今天"], 2)]
        ops = []

        def entry():
            return dict(v=rng.choice(vals), k=rng.choice(keys))
        for _ in range(rng.choice([4, 10, 20])):
            r = rng.random()
            n = rng.choice([0, 1, 2, 3, 6])
            if r > .93:
                y = rng.random()
                if y < .4:
                    ops.append(dict(k="files", us=rng.choice(["file", "file", "file", "none", "gone"]), xs=rng.choice(["file", "file", "none", "gone"]),
                                    u=[entry() for _ in range(n)], x=[entry() for _ in range(rng.choice([0, 1, 2]))]))
                elif y < .6:
                    ops.append(dict(k="null", what=rng.choice(["lm", "repl", "assoc"])))
                elif y < .7:
                    ops.append(dict(k="gone", what=rng.choice(["lm", "repl", "assoc"])))
                else:
                    rows = [dict(p=rng.choice("甲乙"), r=rng.choice(["ㄕ", "ㄖ"]), v=rng.choice("丙丁戊"), w=rng.choice(["ㄕ", "ㄈ"]), s=z)
                            for z in rng.sample(range(1, 40), n * 2)]
                    keys1 = sorted(rows, key=lambda a: ("%s-%s-%s-%s -%d" % (a["p"], a["r"], a["v"], a["w"], a["s"])).encode())
                    ops.append(dict(k="assoc", x=keys1, f=rng.random() < .5))
                ops += [dict(k="aq", p=p, r=a) for p in "甲乙" for a in ("ㄕ", "ㄖ")] + [dict(k="cm", v=v) for v in vals[:3]]
            elif r < .3 or not ops:
                ops.append(dict(k="lm", f=rng.random() < .4, x=sort_lm([dict(entry(), s=rng.choice([-1000, -1500, -2250, -8000, -8000, -8500, -11000, 0])) for _ in range(n * 2)])))
            elif r < .5:
                ops.append(dict(k="user", x=[entry() for _ in range(n)]))
            elif r < .65:
                ops.append(dict(k="excl", x=[entry() for _ in range(n)]))
            elif r < .78:
                ops.append(dict(k="repl", f=rng.random() < .4, x=[dict(v=rng.choice(vals), to=rng.choice(vals)) for _ in range(n)]))
            elif r < .9:
                ops.append(dict(k="ron", b=rng.random() < .7))
            else:
                ops.append(dict(k="eon", b=rng.random() < .7))
            if rng.random() < .6:
                ops += [dict(k="q", key=k) for k in keys] + [dict(k="q", key=rng.choice([" ", "ㄅ", "ㄕㄨ-"])), dict(k="rd", v=rng.choice(vals))]
        sc.append(dict(hasMacro=rng.random() < .8, macro=macro, hasConv=rng.random() < .8, conv=conv, ops=ops))
    return sc, {}, []
