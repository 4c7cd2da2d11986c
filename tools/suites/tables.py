"""File formats and lookup tables: sorted dictionaries, user-editable files,
associated phrases."""
DRIVER = "tables_drv"
TRACE = "TablesTrace"
PROPS = ["L03", "L04", "L05"]


def models(tier, prop):
    q = tier == "quick"
    return {
        "L03": [dict(module="SortedMC", cfg="SortedMC.cfg" if q else "SortedMC4.cfg", timeout=600)],
        "L04": [dict(module="BlobMC", cfg="BlobMC.cfg" if q else "BlobMC7.cfg", timeout=600)],
        "L05": [dict(module="AssocMC", cfg="AssocMC.cfg" if q else "AssocMC3.cfg", timeout=600)],
    }[prop]


def bs(s):
    return list(s if isinstance(s, bytes) else s.encode())


# --- sorted dictionaries ----------------------------------------------------
def sorted_file(lines, term, pragma=True, validate=True, scores=None, ops=()):
    return dict(kind="sorted", ls=[bs(x) for x in lines], term=term, pragma=pragma, validate=validate,
                sc=scores or [0] * len(lines), ops=list(ops))


def model_sorted(rng, hs):
    files = {}
    for h in hs:
        for x in h:
            files.setdefault(str((x["ls"], x["term"])), (x["ls"], x["term"], []))[2].append(x["key"])
    out = []
    for ls, term, keys in files.values():
        ops = []
        for k in keys:
            ops += [dict(k="first", key=k), dict(k="rows", key=k)]
        ops += [dict(k="rows", key=[]), dict(k="first", key=[])]
        out.append(dict(kind="sorted", ls=ls, term=term, pragma=False, validate=False, sc=[0] * len(ls), ops=ops))
    return out


SYL = ["ㄅ", "ㄅㄚ", "ㄅㄚˊ", "ㄕ", "ㄕㄨ", "ㄕㄨˋ", "ㄗ", "_punctuation_,", "_letter_a", "a", "ab", "b", "z"]
VAL = ["八", "書", "輸", "入", "法", "書法", "一", "x", "xy", "𠀀", "!", "é"]


def random_sorted(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 20, 60, 150])
    rows = []
    odd = rng.random() < .25
    for _ in range(n):
        k = "-".join(rng.choice(SYL) for _ in range(rng.choice([1, 1, 2, 3])))
        v = "".join(rng.choice(VAL) for _ in range(rng.choice([1, 1, 2, 4])))
        s = rng.choice([0, -1, -2.5, -3.125, -7.25, -10, 1])
        rows.append((("%s %s %s" % (k, v, ("%g" % s))).encode(), int(s * 1000)))
    if odd:
        for _ in range(rng.choice([1, 2, 4])):
            x = rng.choice([b"a", b"zz", b"\xe3\x84", b"~", b"b", b"z "])
            rows.append((x, 0))
        # A run of spaces where there should be one.
        for i in range(len(rows)):
            if rng.random() < .2:
                rows[i] = (rows[i][0].replace(b" ", b" " * rng.choice([2, 3]), 1), rows[i][1])
    rows.sort(key=lambda r: r[0])
    lines = [r[0] for r in rows]
    term = rng.random() < .6
    pragma = rng.random() < .85
    validate = rng.random() < .8
    if not pragma and not validate and not lines:
        pragma = validate = True
    if pragma and not validate:      # the header would be an ordinary line
        validate = True
    if not validate and not lines:
        pragma = validate = True
    if not pragma and not lines:
        pragma = True
    ops = []
    longest = max([len(x) for x in lines] or [4])
    for _ in range(rng.choice([8, 25])):
        r = rng.random()
        if lines and r < .55:
            x = rng.choice(lines)
            key = x[:rng.randrange(len(x) + 1)]
            if rng.random() < .25:
                key = key + rng.choice([b" ", b"a", b"~" * (longest + 3), b"\xe3", b"\xff"])
        elif r < .8:
            key = "-".join(rng.choice(SYL) for _ in range(rng.choice([1, 2]))).encode()
        else:
            key = rng.choice([b"", b"!", b"\xff", b"~", b"a" * (longest * 2 + 2), b"zzz", b"_"])
        ops.append(dict(k=rng.choice(["rows", "first", "rows"]), key=bs(key)))
        v = "".join(rng.choice(VAL) for _ in range(rng.choice([1, 1, 2]))).encode()
        if lines and rng.random() < .6:
            f = [w for w in rng.choice(lines).split(b" ") if w]
            if len(f) == 3:
                v = f[1] if rng.random() < .7 else f[1] + b" " + f[2]
        if v:
            ops.append(dict(k="rev", key=bs(v)))
        if not odd:
            kk = rng.choice(lines).split(b" ")[0] if lines and rng.random() < .7 else rng.choice(SYL).encode()
            if rng.random() < .15:
                kk = kk[:-1]
            ops.append(dict(k="uni", key=bs(kk)))
            ops.append(dict(k="read", key=bs(v.split(b" ")[0])))
    return sorted_file(lines, term, pragma, validate, [r[1] for r in rows], ops)


# --- user-editable files ----------------------------------------------------
def blob_ops(rng, b, n):
    ops = [dict(k="next", null=rng.random() < .1) for _ in range(n)] + [dict(k="load")]
    words = [w for w in bytes(b).replace(b"\r", b" ").replace(b"\n", b" ").replace(b"\t", b" ").split(b" ") if w] or [b"a"]
    for _ in range(4):
        w = rng.choice(words)
        ops.append(dict(k=rng.choice(["user", "repl"]), key=bs(w)))
    return ops


def model_blob(rng, hs):
    return [dict(kind="blob", bytes=h[-1]["b"], ops=blob_ops(rng, h[-1]["b"], 5)) for h in hs]


def random_blob(rng):
    eol = rng.choice(["\n", "\r\n", "\r", "\n\n", "\n \n"])
    mode = rng.random()
    if mode < .15:
        b = bytes(rng.choice([0, 9, 10, 13, 32, 35, 97, 0xe3, 0xff, 0x80, 45]) for _ in range(rng.choice([1, 10, 60])))
    else:
        out = []
        for _ in range(rng.choice([1, 3, 8, 40])):
            k = rng.choice(["測試", "一", "a", "b#c", "x" * 40, "MACRO@X", "二"])
            v = rng.choice(["ㄘㄜˋ-ㄕˋ", "ㄧ", "b", "#x", "ㄦˋ", "c"])
            r = rng.random()
            sp = rng.choice([" ", "  ", "\t", " \t ", "   "])
            if r < .7:
                line = k + sp + v
            elif r < .8:
                line = "#" + k + " " + v
            elif r < .86:
                line = rng.choice(["", " ", "\t", "  #", " # a b"])
            elif r < .94:
                line = k + sp + v + rng.choice([" ", "\t", " more words", " # note", "\t\t"])
            elif r < .97:
                line = rng.choice([" ", "\t"]) + k + sp + v
            else:
                line = k + rng.choice(["", " ", "\t \t"])
            out.append(line)
        s = eol.join(out) + (eol if rng.random() < .5 else "")
        b = s.encode()
        if rng.random() < .15:
            b = b[:rng.randrange(len(b) + 1)]
        if rng.random() < .08 and b:
            i = rng.randrange(len(b))
            b = b[:i] + b"\0" + b[i:]
    n = min(60, b.count(b"\n") + b.count(b"\r") + 3)
    return dict(kind="blob", bytes=bs(b), ops=blob_ops(rng, bs(b), n))


# --- associated phrases -----------------------------------------------------
def assoc(rng, tab, ops, num=lambda s: "%g" % (s / 1000.0)):
    rows = []
    for e in tab:
        k = "-".join(x for p in zip(e["cs"], e["rs"]) for x in p)
        rows.append(((k + " " + num(e["s"])).encode(), e))
    rows.sort(key=lambda r: r[0])
    return dict(kind="assoc", tab=[r[1] for r in rows], text="".join(r[0].decode() + "\n" for r in rows), ops=ops)


def queries(rng, tab, chars, rds, n):
    ops = []
    for _ in range(n):
        e = rng.choice(tab)
        k = rng.randrange(1, len(e["cs"]) + 1)
        v, rd = e["cs"][:k], e["rs"][:k]
        r = rng.random()
        if r < .15:
            rd = []
        elif r < .3:
            rd = [rng.choice(rds) for _ in range(k)]
        elif r < .4:
            v = [rng.choice(chars) for _ in range(k)]
        elif r < .45:
            rd = rd[:-1] or [rds[0], rds[0]]
        elif r < .5:
            v, rd = [], rng.choice([[], rd])
        elif r < .55:
            rd = rd[:-1] + [rd[-1][:-1] or rds[0]]
        ops.append(dict(k="find", v=v, rd=rd))
        if rng.random() < .2:
            rd2 = [x for x in rd if x]
            ops.append(dict(k="comb", rd=rd2))
        if rng.random() < .1:
            ops.append(dict(k="split", s=rng.choice(["", "-", "ㄕ", "ㄕ-", "-ㄕ", "a--b", "ㄕㄨ-ㄖㄨˋ-ㄈㄚˇ"])))
    return ops


def model_assoc(rng, hs):
    out = []
    for h in hs:
        tab = h[-1]["tab"]
        tab = [dict(e, s=e["s"] * 1000) for e in tab]
        n = max(len(e["cs"]) for e in tab)
        ops = []
        for v in [["a"], ["b"], ["a", "a"], ["a", "b"], ["b", "a"], []]:
            for rd in [[], ["p"], ["q"], ["p", "p"], ["p", "q"], ["q", "p"]]:
                ops.append(dict(k="find", v=v, rd=rd))
        out.append(assoc(rng, tab, ops))
    return out


def random_assoc(rng):
    chars = rng.sample(["輸", "入", "法", "出", "品", "𠀀", "一", "三"], rng.choice([2, 3, 5]))
    rds = rng.sample(["ㄕㄨ", "ㄖㄨˋ", "ㄈㄚˇ", "ㄕㄨˋ", "ㄕ", "ㄧ"], rng.choice([2, 3, 4]))
    tab, keys = [], set()
    for _ in range(rng.choice([1, 3, 10, 40, 100])):
        k = rng.choice([2, 2, 3, 4, 6])
        if tab and rng.random() < .5:      # share a beginning
            b = rng.choice(tab)
            p = rng.randrange(1, len(b["cs"]) + 1)
            cs, rs = b["cs"][:p], b["rs"][:p]
        else:
            cs, rs = [], []
        while len(cs) < k:
            cs = cs + [rng.choice(chars)]
            rs = rs + [rng.choice(rds)]
        e = dict(cs=cs, rs=rs, s=rng.choice([0, -1000, -1500, -2000, -3250, -8000, 500]))
        if str((cs, rs)) in keys and rng.random() < .9:
            continue
        keys.add(str((cs, rs)))
        tab.append(e)
    return assoc(rng, tab, queries(rng, tab, chars, rds, 30))


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    sc = []
    for mc, hs in from_model:
        f = {"L03": model_sorted, "L04": model_blob, "L05": model_assoc}[prop]
        m = f(rng, hs)
        rng.shuffle(m)
        sc += m[:1200 if q else 12000]
    g = {"L03": random_sorted, "L04": random_blob, "L05": random_assoc}[prop]
    for _ in range(300 if q else 3000):
        s = g(rng)
        if s["ops"]:
            sc.append(s)
    return sc, {}, []
