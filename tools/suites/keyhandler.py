"""KeyHandler with the real language model: keys, lists, commits, learning."""
import json, os, random
import layouts
DRIVER = "keyhandler_drv"
TRACE = "KeyHandlerTrace"
PROPS = ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "D01", "I01"]
HDR = "# format org.openvanilla.mcbopomofo.sorted"
SYL = ["ㄨˇ", "ㄕˋ", "ㄧ", "ㄢˊ", "ㄇㄚ", "ㄅㄧㄠˇ", "ㄎㄜ˙"]
POOL = list("天地玄黃宇宙洪荒日月盈昃辰宿列張寒來暑往秋收冬藏閏餘成歲律呂調陽雲騰致雨露結為霜金生麗水玉出崑岡劍號巨闕珠稱夜光果珍李柰菜重芥薑海鹹河淡鱗潛羽翔龍師火帝鳥官人皇始制文字乃服衣裳推位讓國有虞陶唐弔民伐罪周發殷湯") + ["𠮷", "𡃁", "𨋢"]
FULL = "，。、「」『』；：？！（）〔〕￥％…─"


def ch(v):
    return list(v)


def make_data(rng, big):
    """A random language model and associated-phrase table."""
    n = rng.choice([3, 4, 5]) if not big else 5
    syl = rng.sample(SYL, n)
    pool = POOL[:]
    rng.shuffle(pool)
    u, chars = {}, {}
    used = set()

    def score(lo, hi):
        while True:
            s = -rng.randrange(lo, hi)
            if s not in used:
                used.add(s)
                return s

    def add(r, vals, lo, hi):
        sc = sorted((score(lo, hi) for _ in vals), reverse=True)
        u[r] = [dict(v=v, s=s) for v, s in zip(vals, sc)]
        for v in vals:
            chars[v] = ch(v)

    single = {}
    for s in syl:
        k = rng.choice([1, 2, 3, 4])
        single[s] = [pool.pop() for _ in range(k)]
        if rng.random() < .15:
            single[s].append(pool.pop() + pool.pop())      # one reading, two characters
        add(s, single[s], 100, 700 if rng.random() < .7 else 1100)
        single[s] = [v for v in single[s] if len(v) == 1]
    for s in single:
        if not single[s]:
            single[s] = [pool.pop()]
            u[s].append(dict(v=single[s][0], s=-1200 - len(used)))
            chars[single[s][0]] = ch(single[s][0])
    for ln, cnt in ((2, n * n // 2 + 1), (3, n + 2), (4, n), (5, 2), (6, 2), (7, 1)):
        for _ in range(cnt):
            rs = [rng.choice(syl) for _ in range(ln)]
            r = "-".join(rs)
            if r in u:
                continue
            vals = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                if x < .5:
                    v = "".join(rng.choice(single[q]) for q in rs)
                elif x < .85:
                    v = "".join(rng.choice(POOL) for _ in rs)
                elif x < .95:
                    v = "".join(rng.choice(POOL) for _ in rs[1:])    # fewer characters
                else:
                    v = "".join(rng.choice(POOL) for _ in rs) + "兒"
                if v not in vals:
                    vals.append(v)
            add(r, vals, 150 + 50 * ln, 500 * ln)
    # symbols
    def sym(r, k):
        add(r, rng.sample(FULL, k), 1, 1000)
    for c in "<>?:!+":
        if rng.random() < .8:
            sym("_punctuation_" + c, rng.choice([1, 1, 2]))
    for c in "*/":              # as typed on the number pad
        if rng.random() < .3:
            sym("_punctuation_" + c, 1)
    for c in "[]{}!":
        if rng.random() < .4:
            sym("_punctuation_" + rng.choice(NAMES) + "_" + c, rng.choice([1, 2, 3]))
        if rng.random() < .5:
            sym("_punctuation_" + c, 1)
        if rng.random() < .4:
            sym("_half_punctuation_" + c, rng.choice([1, 2]))
        if rng.random() < .3:
            sym("_half_punctuation_" + rng.choice(NAMES) + "_" + c, 1)
    for c in rng.sample("[]{}<!", 2):           # keys with entries of several classes
        for pre in ("_half_punctuation_", "_punctuation_"):
            for l in [x + "_" for x in NAMES] + [""]:
                if rng.random() < .7 and pre + l + c not in u:
                    sym(pre + l + c, rng.choice([1, 1, 2]))
    for c in "<>,.1a!/;'":
        if rng.random() < .5:
            sym("_ctrl_punctuation_" + c, rng.choice([1, 2]))
    if rng.random() < .8:
        sym("_punctuation_list", rng.choice([3, 5, 12]))
    for c in "ABC":
        if rng.random() < .8:
            add("_letter_" + c, [c.lower()] + (["ＡＢＣ"["ABC".index(c)]] if rng.random() < .4 else []), 1, 1000)
    for c in ["1", "2", "10", "20", "100"]:
        if rng.random() < .8:
            add("_number_" + c, rng.sample("①②③⑩⑳㊀㊁㊂㊉Ⅰ", rng.choice([1, 2, 3])), 1, 1000)
    u[" "] = [dict(v=" ", s=0)]
    chars[" "] = [" "]
    # associated phrases
    assoc, seen = [], set()
    for _ in range(14 if not big else 24):
        ln = rng.choice([2, 2, 3, 3, 4, 5])
        rs = [rng.choice(syl + (["ㄋㄧˇ"] if rng.random() < .1 else [])) for _ in range(ln)]
        keys = ["-".join(rs[:m]) for m in range(2, ln + 1)]
        cs = [rng.choice(single[q]) if q in single and rng.random() < .85 else rng.choice(POOL) for q in rs]
        known = [x for x in keys if x in u]
        if known and rng.random() < .6:
            x = rng.choice(known)
            v = rng.choice(u[x])["v"]
            if len(v) == x.count("-") + 1:
                cs[:len(v)] = list(v)
        if (tuple(rs), tuple(cs)) in seen:
            continue
        seen.add((tuple(rs), tuple(cs)))
        assoc.append(dict(rd=rs, ch=cs, s=score(1, 3000)))
    assoc.sort(key=lambda a: -a["s"])
    for a in assoc:
        for i in range(len(a["ch"])):
            v = "".join(a["ch"][i:])
            chars[v] = ch(v)
        chars["".join(a["ch"])] = a["ch"]
    return dict(u=u, ch=chars, assoc=assoc, syl=syl)


def write_data(d, i, work):
    lines = sorted("%s %s %s" % (r, x["v"], x["s"] / 100) for r, us in d["u"].items() if r != " " for x in us)
    lines.sort(key=lambda s: s.encode())
    open(os.path.join(work, "lm%d.txt" % i), "w").write(HDR + "\n" + "".join(x + "\n" for x in lines))
    al = ["-".join(x for p in zip(a["ch"], a["rd"]) for x in p) + " %s" % (a["s"] / 100) for a in d["assoc"]]
    al.sort(key=lambda s: s.encode())
    open(os.path.join(work, "assoc%d.txt" % i), "w").write(HDR + "\n" + "".join(x + "\n" for x in al))


NAMES = ["Standard", "ETen", "IBM", "Hsu", "ETen26", "HanyuPinyin"]
LAYOUTS = ["Standard"] * 5 + ["ETen"] * 2 + ["IBM"] * 2 + ["Hsu"] * 2 + ["ETen26"] * 2 + ["HanyuPinyin"] * 2


def cfgs(rng):
    return dict(layout=rng.choice(LAYOUTS), selAfter=rng.random() < .5, moveAfter=rng.random() < .5,
                escClear=rng.random() < .3, lower=rng.random() < .5, ctrlEnter=rng.choice([0, 1, 2]),
                assoc=rng.random() < .35, half=rng.random() < .4)


def key(c, sh=False, ct=False, np=False):
    return dict(k="key", c=c, sh=sh, ct=ct, np=np)


def list_op(rng, mode, focus):
    x = rng.random()
    if x < (.75 if focus in ("learn", "assoc") else .5):
        return dict(k="sel", i=rng.choice([0, 1, 1, 2, 3, rng.randrange(40)]))
    if x < (.85 if focus == "learn" else .7):
        return dict(k="cancel")
    if mode == "plain":
        c = rng.choice(["8", "u", "a", "<", "[", "A", "z", "1", " ", "/"])
        return dict(k="trad", c=c, i=rng.randrange(4), sh=False, ct=False, np=False)
    return rng.choice([dict(k="move", d=rng.choice([-1, 1])), dict(k="assoc", i=rng.randrange(6)),
                       dict(k="dict", i=rng.randrange(6))])


def gen_ops(rng, d, mode, cfg, n, focus):
    ops = []
    lay = cfg["layout"]
    syl = d["syl"]

    def put(o):
        if rng.random() < .9 and o["k"] == "key":
            o["alt"] = list_op(rng, mode, focus)
        ops.append(o)

    def syllable_of(s):
        ks = layouts.keys_for(lay, s)
        ops.extend(key(k) for k in ks)
        if s[-1] not in layouts.T:
            ops.append(key(" "))

    def syllable():
        s = rng.choice(syl)
        ks = layouts.keys_for(lay, s, rng.choice([0, 0, 0, 1, 2]))
        n = len(ks) - (s[-1] in layouts.T)
        body, tone = ks[:n], ks[n:]
        if rng.random() < .1:
            rng.shuffle(body)
        if rng.random() < .06:
            body.insert(rng.randrange(len(body) + 1), rng.choice(layouts.all_keys(lay)))
        if rng.random() < .04:
            ks = tone + body + [" "]
        else:
            ks = body + (tone or [" "])
        if rng.random() < .04:
            ks = ks[:-1]
        for k in ks:
            o = key(k)
            o["alt"] = list_op(rng, mode, focus)
            ops.append(o)

    def edit():
        put(key(rng.choice(["LEFT", "RIGHT", "LEFT", "RIGHT", "HOME", "END", "BS", "DEL"]), sh=rng.random() < .15))

    def mark():
        dirn = rng.choice(["LEFT", "LEFT", "RIGHT"])
        if rng.random() < .4:
            put(key(rng.choice(["HOME", "LEFT", "END", "LEFT"])))
        for _ in range(rng.choice([1, 2, 2, 3, 4, 7])):
            ops.append(key(dirn if rng.random() < .9 else rng.choice(["LEFT", "RIGHT", "HOME", "END"]), sh=True))
        x = rng.random()
        if x < .55:
            ops.append(key("RET"))
        elif x < .7:
            put(key("?"))
        elif x < .85:
            put(key(rng.choice(["LEFT", "ESC", "BS", "DEL", " ", "UNK", "TAB", "DOWN"])))

    def choose():
        if rng.random() < .5:
            put(key(rng.choice(["LEFT", "HOME", "LEFT", "RIGHT"])))
        ops.append(key(rng.choice([" ", "DOWN"])))
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = list_op(rng, mode, focus)
            o["alt"] = key(rng.choice(["RIGHT", "END", "UNK", "TAB"]))
            ops.append(o)

    def number():
        ops.append(key("\\", ct=True))
        ops.append(dict(k="sel", i=rng.choice([1, 2, 3, 4, 0])))
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 13, 23])):
            x = rng.random()
            c = rng.choice("0123456789") if x < .6 else rng.choice("000112323") if x < .88 else rng.choice([".", ".", "BS", "DEL", "a", "UP", "-", "LEFT"])
            ops.append(key(c, np=rng.random() < .2))
        x = rng.random()
        ops.append(key("RET" if x < .7 else " " if x < .85 else "ESC"))
        if rng.random() < .3:
            ops.append(list_op(rng, mode, focus))

    def misc():
        x = rng.random()
        if x < .2:
            put(key("TAB", sh=rng.random() < .4))
        elif x < .4:
            put(key(rng.choice("<>?:!+[]{}")))
        elif x < .47:
            put(key(rng.choice("<>,.1ab!/;'"), ct=True))
        elif x < .53:
            put(key("`"))
        elif x < .63:
            put(key(rng.choice("ABCZ")))
        elif x < .67:
            put(key(" ", sh=True))
        elif x < .72:
            put(key("ESC"))
        elif x < .77:
            put(key("RET", sh=True))
        elif x < .79:
            put(key("RET", ct=True))
        elif x < .82:
            put(key("RET"))
        elif x < .87:
            put(key(rng.choice(["UNK", "UP", "DOWN", "=", "~", "\\", "LEFT"]), sh=rng.random() < .2, ct=rng.random() < .2))
        elif x < .9:
            put(key(rng.choice("0159.+-*/"), np=True))
        elif x < .94:
            put(key(rng.choice("AB1!ujm"), sh=True))
        elif x < .96:
            ops.append(dict(k="reset", commit=rng.random() < .5))
        elif x < .975:
            c = cfgs(rng)
            if rng.random() < .9:
                c["layout"] = lay
            ops.append(dict(k="cfg", cfg=c))
        else:
            ops.append(dict(k="tick", d=rng.choice([1, 8, 30, 79, 161])))

    def learn():
        """The same few syllables over and over, choosing differently."""
        put(key("TAB", sh=rng.random() < .3)) if rng.random() < .3 else choose()
        if rng.random() < .5:
            ops.append(key("RET" if rng.random() < .7 else "ESC"))
        if rng.random() < .3:
            ops.append(dict(k="tick", d=rng.choice([0, 3, 8, 16, 40, 80, 158, 161])))

    few = rng.sample(syl, min(2, len(syl)))
    marks = [c for c in "<>?:!+" if "_punctuation_" + c in d["u"]][:1]

    def context():
        """Choices in a few contexts that recur, sentence starts included."""
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            if marks and rng.random() < .35:
                ops.append(key(marks[0]))
            else:
                syllable_of(rng.choice(few))
        syllable_of(few[0])
        if rng.random() < .45:
            ops.append(key(" "))
            ops.append(dict(k="sel", i=rng.choice([1, 1, 2, 3])))
        ops.append(key("RET"))

    table = dict(context=[(context, 1)], mixed=[(syllable, 40), (edit, 12), (mark, 6), (choose, 14), (number, 2), (misc, 26)],
                 type=[(syllable, 60), (edit, 10), (mark, 3), (choose, 8), (misc, 12)],
                 edit=[(syllable, 40), (edit, 40), (misc, 8), (choose, 8)],
                 choose=[(syllable, 40), (edit, 8), (choose, 30), (misc, 12)],
                 mark=[(syllable, 45), (edit, 8), (mark, 25), (choose, 6)],
                 number=[(number, 30), (syllable, 15), (misc, 12)],
                 symbol=[(syllable, 30), (misc, 45), (edit, 8), (choose, 5)],
                 learn=[(syllable, 45), (learn, 25), (misc, 3), (edit, 2)],
                 assoc=[(syllable, 40), (edit, 12), (choose, 12), (mark, 2),
                        (lambda: (put(key("RET", sh=True)), ops.append(list_op(rng, mode, focus))), 25)])[focus]
    fs, ws = zip(*table)
    if focus in ("choose", "mark", "assoc", "edit"):
        for _ in range(rng.randrange(2, 6)):
            syllable()
    while len(ops) < n:
        rng.choices(fs, ws)[0]()
    return ops


V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MODEL = dict(C11="Assoc", C06="Symbol", C12="Symbol", C13="Symbol", C15="Symbol", D01="Symbol", I01="Symbol")
BIG = dict(Edit="Edit3", Assoc="Assoc4", Symbol="Symbol2")


def models(tier, prop):
    m = MODEL.get(prop, "Edit")
    if tier == "thorough":
        m = BIG[m]
    return [dict(module="KeyHandlerMC", cfg="KeyHandlerMC%s.cfg" % m, timeout=300,
                 env=dict(VF_SMALL=os.path.join(V, "spec", "kh_small_ascii.json")))]


FOCUS = dict(C01=["edit", "mixed", "type"], C02=["type", "mixed", "choose"], C03=["choose", "edit", "assoc"], C04=["choose", "mixed"],
             C05=["mixed", "type", "edit", "symbol"], C06=["mixed", "symbol", "number"], C07=["mixed", "symbol", "edit", "number"],
             C08=["edit", "mixed"], C09=["choose", "mixed", "learn"], C10=["mark"], C11=["assoc"], C12=["mixed", "choose", "symbol"],
             C13=["number"], C14=["learn", "context"], C15=["symbol"], D01=["choose", "mark"], I01=["number"])


def scenarios(rng, tier, prop, work, from_model):
    nd = 8 if tier == "quick" else 30
    data = [make_data(rng, i % 3 == 0) for i in range(nd)]
    data.append(json.load(open(os.path.join(V, "spec", "kh_small.json"))))
    if prop == "C14":
        data.append(wide_data())
    for i, d in enumerate(data, 1):
        write_data(d, i, work)
    p = os.path.join(work, "data.json")
    json.dump([dict(u=d["u"], ch=d["ch"], assoc=[dict(rd=a["rd"], ch=a["ch"]) for a in d["assoc"]]) for d in data],
              open(p, "w"), ensure_ascii=False)
    sc = []
    for mc, hists in from_model:
        rng.shuffle(hists)
        for h in hists[:500 if tier == "quick" else 6000]:
            sc.append(dict(lm=nd + 1, mode=h[0]["mode"], cfg=h[0]["cfg"], focus="model", ops=h[1:]))
    for i in range(300 if tier == "quick" else 4000):
        j = rng.randrange(nd)
        mode = "plain" if rng.random() < (.9 if prop == "C12" else .15) else "mc"
        if prop in ("C11", "C14", "C10", "C03"):
            mode = "mc" if rng.random() < .97 else "plain"
        cfg = cfgs(rng)
        if prop == "C11":
            cfg["assoc"] = rng.random() < .5
        if prop == "C12":
            cfg["assoc"] = rng.random() < .5
        f = rng.choice(FOCUS.get(prop, ["mixed"]) * 2 + ["mixed"])
        sc.append(dict(lm=j + 1, mode=mode, cfg=cfg, focus=f, ops=gen_ops(rng, data[j], mode, cfg, rng.choice([12, 25, 40, 60]), f)))
    if prop == "C14":
        sc.append(dict(lm=nd + 2, mode="mc", cfg=dict(cfgs(rng), layout="Standard", escClear=True, selAfter=True, moveAfter=False, assoc=False),
                       focus="capacity", ops=capacity_ops(rng, data[-1])))
    return sc, dict(VF_DATA=p), [work]


def wide_data():
    """Single characters only, four per syllable: very many contexts."""
    syl = SYL[:6]
    u = {s: [dict(v=POOL[4 * i + j], s=-100 * (j + 1) - i) for j in range(4)] for i, s in enumerate(syl)}
    u[" "] = [dict(v=" ", s=0)]
    chars = {x["v"]: [x["v"]] for us in u.values() for x in us}
    return dict(u=u, ch=chars, assoc=[], syl=syl)


def capacity_ops(rng, d):
    """More contexts than the memory holds, probing the oldest again and again.
    Each context always gets the same choice, so that no two compete."""
    from collections import OrderedDict
    mem, pick, ops = OrderedDict(), {}, []

    def choose(ctx, n):
        mem[ctx] = True
        mem.move_to_end(ctx, last=False)
        while len(mem) > 500:
            mem.popitem()
        return pick.setdefault(ctx, rng.randrange(n))
    first = d["syl"][0]
    while len(pick) < 540:
        rnd = len(pick)
        text = [first] + [rng.choice(d["syl"][1:]) for _ in range(9)]
        for s in text:
            ks = layouts.keys_for("Standard", s)
            ops += [key(k) for k in ks] + ([] if s[-1] in layouts.T else [key(" ")])
        ops.append(key("HOME"))
        vals = []
        for p, s in enumerate(text):
            ctx = tuple([None] * (2 - min(2, p)) + vals[-2:] + [s])
            if p == 0 and rnd:
                vals.append((s, pick[ctx] if ctx in mem else 0))
            else:
                c = choose(ctx, 4) or (2 if p == 0 else 0)
                pick[ctx] = c
                vals.append((s, c))
                ops += [key(" "), dict(k="sel", i=c)]
            if p < 9:
                ops.append(key("RIGHT"))
        ops.append(key("ESC"))
    return ops


def replay_aux(work):
    return {os.path.join(work, f): open(os.path.join(work, f)).read() for f in os.listdir(work)
            if f.startswith(("lm", "assoc", "data")) and os.path.isfile(os.path.join(work, f))}


def coverage(traces):
    from collections import Counter
    c = Counter()
    for t in traces:
        for e in t["ev"]:
            if "o" not in e:
                continue
            o = e["o"]
            x = e if o["eff"] != "alt" else e["alt"]
            c[o["st"]["t"]] += 1
            c["eff " + o["eff"]] += 1
            if o["eff"] != "na" and x["k"] != "key":
                c["op " + x["k"]] += 1
            if o["add"]:
                c["added"] += 1
            if o["com"]:
                c["committed"] += 1
            if o["err"]:
                c["error"] += 1
    return dict(sorted(c.items()))
