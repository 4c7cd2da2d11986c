"""Keyboards, Pinyin and the buffer of the unfinished syllable."""
import itertools
import json
import os
import layouts
DRIVER = "mandarin_drv"
TRACE = "MandarinTrace"
PROPS = ["M01", "M02"]
HERE = os.path.dirname(os.path.abspath(__file__))
ALL = layouts.ALL
NAMES = list(ALL) + ["Pinyin"]
KIND = ["ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙ", "ㄧㄨㄩ", "ㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦ", "ˊˇˋ˙"]


def models(tier, prop):
    if prop == "M01":
        return [dict(module="MandarinMC", cfg="MandarinMC.cfg" if tier == "quick" else "MandarinMCall.cfg", timeout=600)]
    return [dict(module="MandarinMC", cfg="MandarinEd.cfg" if tier == "quick" else "MandarinEd6.cfg", timeout=600)]


def comp(ch):
    for i, k in enumerate(KIND):
        if ch in k:
            return i, k.index(ch) + 1


def keys(lay, parts):
    inv = {c: k for k, cs in ALL[lay].items() for c in cs}
    return "".join(inv[c] for c in parts)


def syl_table():
    r = []
    import re
    for c, m, v, py in re.findall(r"\[s \|-> <<(\d+), (\d+), (\d+), 0>>, py \|-> <<(.*?)>>\]",
                                  open(os.path.join(HERE, "../../spec/MandarinTables.tla"), encoding="utf-8").read()):
        parts = [KIND[i][int(n) - 1] for i, n in enumerate((c, m, v)) if int(n)]
        r.append((parts, [int(c), int(m), int(v)], [x.strip(' "') for x in py.split(",") if x.strip()]))
    return r


def rand_keys(rng, lay):
    return "".join(rng.choice(list(ALL[lay])) for _ in range(rng.choice([1, 2, 3, 4, 5])))


def parse_ops(rng, T, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        parts, s, py = rng.choice(T)
        tone = rng.randrange(5)
        full = parts + ([KIND[3][tone - 1]] if tone else [])
        if r < .3:
            lay = rng.choice(list(ALL))
            ks = keys(lay, full)
            if rng.random() < .4:
                ks = rand_keys(rng, lay)
            elif rng.random() < .3:
                ks = "".join(rng.sample(ks, len(ks)))
            if rng.random() < .1:
                ks += rng.choice("[]\\`A!")
            ops.append(dict(k="seq", lay=lay, ks=ks))
        elif r < .55:
            p = rng.choice(py) if py else "e"
            p += ["", "2", "3", "4", "5"][tone]
            q = rng.random()
            if q < .2:
                i = rng.randrange(len(p))
                p = p[:i] + rng.choice("abcdefghijklmnopqrstuvwxyz12345") + p[i + 1:]
            elif q < .3:
                p = p.replace("v", "ü")
            elif q < .4:
                p = p[:rng.randrange(len(p) + 1)]
            elif q < .5:
                p = p + rng.choice("1r ge'")
            elif q < .6:
                p = "".join(rng.choice("aeiouvngywzhcsrjqxlb") for _ in range(rng.choice([1, 2, 3, 4, 5])))
            ops.append(dict(k="py", p=p))
        elif r < .75:
            ps = [dict(b=list(c.encode()), c=c) for c in full * rng.choice([1, 1, 3])]
            if rng.random() < .6:
                junk = rng.choice([[0xE3], [0xE3, 0x84], [0xCB], [0x41], [0xF0, 0x9F], [0xF0, 0x9F, 0x98, 0x80], [0xFF], [0x80],
                                   [0xE4, 0xB8, 0x80], [0x20], [0xE3, 0x84, 0x84]])
                at = len(ps) if rng.random() < .6 or len(junk) < 3 else rng.randrange(len(ps) + 1)
                ps.insert(at, dict(b=junk, c=""))
            ops.append(dict(k="comp", ps=ps))
        else:
            ops.append(dict(k="print", t="".join(full), s=s + [tone]))
    return ops


def history(rng, T, n):
    lay = rng.choice(NAMES)
    cur = lay
    ops = []
    while len(ops) < n:
        r = rng.random()
        if r < .12:
            ops.append(dict(k="bs"))
        elif r < .16:
            ops.append(dict(k="clear"))
        elif r < .26:
            cur = rng.choice(NAMES) if rng.random() < .6 else rng.choice(["Pinyin", "Hsu", "ETen26"])
            ops.append(dict(k="layout", to=cur))
        elif r < .7:
            parts, s, py = rng.choice(T)
            tone = rng.randrange(5)
            if cur == "Pinyin":
                ks = (rng.choice(py) if py else "ai") + ["", "2", "3", "4", "5"][tone]
                if rng.random() < .2:
                    ks = "".join(rng.choice([c, c.upper()]) for c in ks)
            else:
                ks = keys(cur, parts + ([KIND[3][tone - 1]] if tone else []))
            for c in ks:
                ops.append(dict(k="key", c=c))
            if rng.random() < .4:
                ops.append(dict(k="clear"))
        else:
            c = chr(rng.randrange(32, 127)) if cur == "Pinyin" or rng.random() < .2 else rng.choice(list(ALL[cur]))
            ops.append(dict(k="key", c=c))
    return dict(lay=lay, ops=ops)


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    T = syl_table()
    sc = []
    for mc, hs in from_model:
        rng.shuffle(hs)
        for h in hs[:1500 if q else 20000]:
            sc.append(dict(lay=h[0]["lay"], ops=[{k: v for k, v in o.items() if k != "lay"} for o in h[0]["ops"]]))
    if prop == "M01":
        # every syllable with every tone on every keyboard, and every spelling
        per = []
        for lay in ALL:
            for parts, s, py in T:
                for tone in range(5):
                    per.append(dict(k="seq", lay=lay, ks=keys(lay, parts + ([KIND[3][tone - 1]] if tone else []))))
        for parts, s, py in T:
            for tone in range(5):
                per.append(dict(k="print", t="".join(parts) + ("", *KIND[3])[tone], s=s + [tone]))
                for p in py:
                    per.append(dict(k="py", p=p + ("", "2", "3", "4", "5")[tone]))
        # every initial with every final the tolerant spelling knows, possible or not
        first = ["", "b", "p", "m", "f", "d", "t", "n", "l", "g", "k", "h", "j", "q", "x", "zh", "ch", "sh", "r", "z", "c", "s", "y", "w"]
        fins = ["a", "o", "e", "ai", "ei", "ao", "ou", "an", "en", "ang", "eng", "er", "err", "i", "u", "v", "ü", "ia", "ie", "iao", "iou", "iu", "ian",
                "ien", "in", "iang", "ing", "ieng", "io", "iong", "ua", "uo", "uai", "uei", "ui", "uan", "uen", "un", "uang", "ueng", "ung", "ong",
                "ue", "ve", "van", "ven", "vn", "veng", "üe", "üan", "ün", ""]
        for a in first:
            for b in fins:
                if a + b:
                    per.append(dict(k="py", p=a + b + rng.choice(["", "2", "3", "4", "5"])))
        # any combination of components
        for _ in range(400 if q else 4000):
            c = [rng.randrange(len(KIND[i]) + 1) if rng.random() < .6 else 0 for i in range(4)]
            per.append(dict(k="print", t="".join(KIND[i][n - 1] for i, n in enumerate(c) if n), s=c))
        sc += [dict(lay="Standard", ops=per[i:i + 100]) for i in range(0, len(per), 100)]
        if q:
            # where keys are shared: every pair of keys, and some longer sequences
            for lay in ("Hsu", "ETen26"):
                ks = list(ALL[lay])
                allk = ["".join(x) for n in (1, 2) for x in itertools.product(ks, repeat=n)]
                allk += ["".join(rng.choice(ks) for _ in range(rng.choice([3, 3, 4]))) for _ in range(600)]
                sc += [dict(lay=lay, ops=[dict(k="seq", lay=lay, ks=x) for x in allk[i:i + 100]]) for i in range(0, len(allk), 100)]
        else:
            # every key sequence of up to three keys (four on Hsu and ETen26)
            for lay in ALL:
                ks = list(ALL[lay])
                allk = ["".join(x) for n in (1, 2, 3) for x in itertools.product(ks, repeat=n)]
                if lay in ("Hsu", "ETen26"):
                    allk += ["".join(x) for x in itertools.product(ks, repeat=4) if rng.random() < .2]
                else:
                    allk = rng.sample(allk, 20000)
                sc += [dict(lay=lay, ops=[dict(k="seq", lay=lay, ks=x) for x in allk[i:i + 400]]) for i in range(0, len(allk), 400)]
            allp = ["".join(x) for n in (1, 2, 3) for x in itertools.product("abcdefghijklmnopqrstuvwxyz", repeat=n)]
            sc += [dict(lay="Pinyin", ops=[dict(k="py", p=x) for x in allp[i:i + 400]]) for i in range(0, len(allp), 400)]
        sc += [dict(lay="Standard", ops=parse_ops(rng, T, 40)) for _ in range(100 if q else 1000)]
    sc += [history(rng, T, rng.choice([6, 15, 40])) for _ in range(400 if q else 4000)]
    return sc, {}, []


def coverage(traces):
    n = {}
    for t in traces:
        for e in t["ev"]:
            n[e["k"]] = n.get(e["k"], 0) + 1
    return dict(operations=n)
