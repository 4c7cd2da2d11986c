"""The engine inside the framework: physical keys, windows, focus, dictionaries."""
import json, os, urllib.parse
import layouts
import suites.keyhandler as kh
DRIVER = "engine_drv"
TRACE = "EngineTrace"
PROPS = ["E01", "E02", "E03", "D01", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C15", "L01", "L02", "K01"]
V = kh.V
SYM = dict(RET=0xff0d, ESC=0xff1b, BS=0xff08, TAB=0xff09, LEFT=0xff51, UP=0xff52, RIGHT=0xff53, DOWN=0xff54, HOME=0xff50, END=0xff57,
           DEL=0xffff, PGUP=0xff55, PGDN=0xff56, INS=0xff63, F5=0xffc2, Shift=0xffe1, Control=0xffe3,
           KP_Enter=0xff8d, KP_Home=0xff95, KP_Left=0xff96, KP_Up=0xff97, KP_Right=0xff98, KP_Down=0xff99, KP_PgUp=0xff9a, KP_PgDn=0xff9b,
           KP_End=0xff9c, KP_Delete=0xff9f, KP_Multiply=0xffaa, KP_Add=0xffab, KP_Subtract=0xffad, KP_Decimal=0xffae, KP_Divide=0xffaf,
           **{"KP_%d" % i: 0xffb0 + i for i in range(10)})
# Keys without a meaning to the input method, and modifier keys.
ODD = dict(KP_Begin=0xff9d, KP_Insert=0xff9e, KP_Separator=0xffac, KP_Equal=0xffbd, KP_Space=0xff80, KP_Tab=0xff89, KP_F1=0xff91,
           F1=0xffbe, F12=0xffc9, Print=0xff61, Pause=0xff13, Scroll_Lock=0xff14, Menu=0xff67, Undo=0xff65, Clear=0xff0b, Linefeed=0xff0a,
           Multi_key=0xff20, Henkan=0xff23, Muhenkan=0xff22, Kana=0xff27, Select=0xff60, Execute=0xff62, Help=0xff6a,
           Begin=0xff58, dead_acute=0xfe51, eacute=0xe9, nobreakspace=0xa0, Greek_alpha=0x7e1, ideograph=0x1004e00, Play=0x1008ff14,
           none=0, void=0xffffff, Caps_Lock=0xffe5, Num_Lock=0xff7f, ISO_Level3_Shift=0xfe03)
MODS = dict(Shift_R=0xffe2, Control_R=0xffe4, Alt_L=0xffe9, Alt_R=0xffea, Super_L=0xffeb, Hyper_L=0xffed, Meta_L=0xffe7)
SYM.update({"X:" + n: v for n, v in ODD.items()}, **{"M:" + n: v for n, v in MODS.items()})
ROW = {c: 10 + i for i, c in enumerate("1234567890-=")}
ROW.update({c: 10 + i for i, c in enumerate("!@#$%^&*()_+")})
SHIFTED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ!@#$%^&*()_+{}|:"<>?~')
PAD = {**{str(i): "KP_%d" % i for i in range(10)}, "+": "KP_Add", "-": "KP_Subtract", "*": "KP_Multiply", "/": "KP_Divide", ".": "KP_Decimal",
       "RET": "KP_Enter", "LEFT": "KP_Left", "RIGHT": "KP_Right", "UP": "KP_Up", "DOWN": "KP_Down", "HOME": "KP_Home", "END": "KP_End", "DEL": "KP_Delete"}
CODE = dict(RET=36, KP_Enter=104, ESC=9, BS=22, TAB=23, Shift=50, Control=37)


def phys(n, sh=False, ct=False, **f):
    """A key event.  Printable characters need Shift exactly when they do on a US keyboard."""
    if len(n) == 1 and n != " ":
        sh = n in SHIFTED
    sym = 0xfe20 if n == "TAB" and sh else SYM[n] if n in SYM else ord(n)
    e = dict(k="key", n=n, sym=sym, code=CODE.get(n, ROW.get(n, 60)), sh=sh, ct=ct)
    for x in ("alt", "sup", "caps", "num", "rel"):
        e[x] = f.get(x, False)
    return e


def from_kh(rng, o):
    """A physical key for a key of the key handler's vocabulary."""
    c = o["c"]
    if c == "UNK":
        x = rng.choice(["F5", "PGUP", "PGDN", "INS", "KP_PgUp"] + ["X:" + n for n in ODD] + ["M:" + n for n in MODS])
        return phys(x, ct=rng.random() < .1)
    if o.get("np") and c in PAD or (c in PAD and len(c) > 1 and rng.random() < .12):
        return phys(PAD[c], ct=o["ct"] and c not in "0123456789+-*/.")
    if len(c) > 1 or c == " ":
        return phys(c, sh=o["sh"], ct=o["ct"] and c != " ")
    if o["ct"]:
        return phys("1" if c == "!" else c, ct=True)
    if o["sh"] and c.isdigit():
        return phys("!@#$%^&*("[int(c) - 1] if c != "0" else ")")
    return phys(c)


def sprinkle(rng, e):
    x = rng.random()
    if x > .985 and e["n"] not in ("Shift", "Control"):
        return phys(rng.choice(["X:" + n for n in ODD] + ["M:" + n for n in MODS]), num=rng.random() < .2)
    if x < .012:
        return dict(e, **{rng.choice(["alt", "sup", "caps", "rel"]): True})
    if x < .06:
        return dict(e, num=True)
    return e


def list_keys(rng, cfg, op):
    """Keys for something done to a list."""
    x = rng.random()
    if op["k"] == "sel":
        i = op["i"] % 9
        if x < .45:
            keys = dict(zip(["123456789", "asdfghjkl", "asdfzxcvb"], ["123456789", "asdfghjkl", "asdfzxcvb"]))[cfg["keys"]]
            y = rng.random()
            return [phys("!@#$%^&*("[i] if y < .3 else keys[i] if y < .8 else "KP_%d" % (i + 1))]
        if x < .55:
            return [dict(k="click", i=i)]
        moves = [phys(rng.choice(["DOWN", "RIGHT", "UP", "LEFT", " ", "PGDN", "PGUP", "KP_Down", "KP_Right", "KP_Up", "KP_Left", "KP_PgDn", "DOWN", "DOWN", " "]))
                 for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        y = rng.random()
        end = phys("RET", sh=y < .3) if y < .8 else phys("?") if y < .9 else phys("KP_Enter") if y < .93 else phys(rng.choice("123"))
        return moves + [end]
    if op["k"] == "cancel":
        return [phys("ESC" if x < .6 else "BS")]
    if op["k"] == "move":
        return [phys(("j" if op["d"] < 0 else "k") if x < .4 else ("LEFT" if op["d"] < 0 else "RIGHT"), sh=x >= .4)]
    ms = [phys(rng.choice([" ", "DOWN", "RIGHT", "PGDN", "UP"])) for _ in range(rng.choice([0, 0, 1, 2]))]
    if op["k"] == "assoc":
        return ms + [phys("RET", sh=True)]
    if op["k"] == "dict":
        return ms + [phys("?")] + ([phys(rng.choice(["1", "2", "3", "RET", "DOWN", "KP_1", "KP_2", "a", "s"]))] if x < .7 else []) + \
            ([phys(rng.choice(["?", "ESC", "BS"]))] if x < .5 else [])
    if op["k"] == "trad":
        return [from_kh(rng, op)]


def interruption(rng, st):
    """Focus changes, resets and switches of the input method."""
    x = rng.random()
    if "bg" in st and rng.random() < .4:      # to the other application, and often back
        st["im"], st["bg"] = st["bg"], st["im"]
        return [dict(k="sw")]
    if x < .4:
        r = [dict(k="out"), dict(k="in")]
        return r + [dict(k="out"), dict(k="in")] if rng.random() < .3 else r
    if x < .65:
        return [dict(k="reset")]
    ims = [m for m in ("mc", "plain", "other") if m != st["im"]]
    st["im"] = rng.choice(ims)
    r = [dict(k="im", im=st["im"])]
    if st["im"] == "other":
        r += [phys(rng.choice("a8 ")) for _ in range(rng.randrange(2))]
        st["im"] = rng.choice(["mc", "plain"])
        r.append(dict(k="im", im=st["im"]))
    return r


KB = dict(Standard="standard", ETen="eten", IBM="ibm", Hsu="hsu", ETen26="et26", HanyuPinyin="hanyupinyin")


def config(rng, lay=None):
    c = kh.cfgs(rng)
    if lay:
        c["layout"] = lay
    c.update(kb=KB[c["layout"]], hint=rng.choice(["Not Set", "Vertical", "Horizontal"]),
             keys=rng.choice(["123456789", "123456789", "asdfghjkl", "asdfzxcvb"]), jk=rng.random() < .4, hook=rng.random() < .5,
             count=rng.choice([9, 9, 9, 4, 5, 6, 7, 8]), open=rng.choice(["xdg-open", "xdg-open", "", "/opt/my editor"]),
             hookp=rng.choice([HOOK, "", "/opt/hook.sh"]))
    return c


HOOK = "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh"
DEFAULTS = dict(kb="standard", hint="Not Set", keys="123456789", count=9, selAfter=False, moveAfter=False, jk=False, escClear=False,
                lower=False, ctrlEnter=0, half=False, assoc=False, hook=False, open="xdg-open", hookp=HOOK, layout="Standard")
GARBAGE = dict(kb=["BopomofoKeyboardLayout=dvorak", "BopomofoKeyboardLayout="], hint=["CandidateLayout=diagonal"], keys=["SelectionKeys=1234"],
               count=["SelectionKeysCount=3", "SelectionKeysCount=10", "SelectionKeysCount=many", "SelectionKeysCount=-1"],
               selAfter=["SelectPhrase=True"], jk=["AllowMovingCursorWhenChoosingCandidates=yes"], ctrlEnter=["KeyHandlerCtrlEnter=9"],
               half=["HalfWidthPunctuationEnable=1"], assoc=["AssociatedPhrasesEnabled=on"], escClear=["EscKeyClearsEntireComposingBuffer="])


def some_settings(rng, lay, bad=.3):
    """Some of the settings, others with values that are none, which do not count."""
    c = config(rng, lay)
    names = [n for n in DEFAULTS if n != "layout"]
    keep = rng.sample(names, rng.choice([1, 1, 2, 4, 8, len(names)]))
    part = {n: c[n] for n in keep}
    if "kb" in part:
        part["layout"] = c["layout"]
    rest = [n for n in GARBAGE if n not in part and (n != "kb" or lay == "Standard")]
    if rest and rng.random() < bad:
        no = rng.sample(rest, min(len(rest), rng.choice([1, 2])))
        part["bad"] = [rng.choice(GARBAGE[n]) for n in no] + rng.choice([[], ["Nonsense=1"]])      # (the last value of a name counts)
        part.update({n: DEFAULTS[n] for n in no})       # the framework takes the default instead
        if "kb" in no:
            part["layout"] = "Standard"
    return part


def settings_ops(rng, d, lay, ops):
    """Settings are changed, and the framework restarted, between whatever else is done."""
    for _ in range(rng.choice([2, 4, 6])):
        q = rng.randrange(len(ops) + 1)
        while q and ops[q - 1]["k"] in ("out", "im"):
            q -= 1
        x = rng.random()
        if x < .35:
            new = [dict(k="cfg", cfg=some_settings(rng, lay))]
        elif x < .5 and lay == "Standard":
            new = [dict(k="conf", cfg=some_settings(rng, lay))]
        elif x < .75:
            new = [dict(k="act", act=rng.choice(["assoc", "half", "user", "excl"]))]
        else:
            new = []
        if x > .6 or rng.random() < .2:
            new.append(dict(k="restart"))
        elif rng.random() < .7:
            new += [dict(k="out"), dict(k="in")]
        ops[q:q] = new
    return ops


def gen(rng, d, mode, cfg, n, focus, rate, bg=None):
    st = dict(im=mode, **(dict(bg=bg) if bg else {}))
    lay = cfg["layout"]
    out = []
    ops = kh.gen_ops(rng, d, mode, cfg, n, focus)
    for o in ops:
        if o["k"] == "key" and "alt" in o and rng.random() < .25:
            o = o["alt"]
        if o["k"] == "key":
            es = [from_kh(rng, o)]
        elif o["k"] == "tick":
            es = []
        elif o["k"] == "reset":
            es = interruption(rng, st)
        elif o["k"] == "cfg":
            es = [dict(k="cfg", cfg=config(rng, lay if rng.random() < .85 else None))]
            if rng.random() < .6:
                es += interruption(rng, st)
        else:
            es = list_keys(rng, cfg, o)
        out += [sprinkle(rng, e) if e["k"] == "key" else e for e in es]
        if rng.random() < rate:
            out += interruption(rng, st)
        if rng.random() < .012:
            out.append(dict(k="act", act=rng.choice(["assoc", "half", "assoc", "half", "user", "excl"])))
    return out


def phrase_cycle(rng, d, cfg):
    """Phrases added by the user, and the same readings typed again later."""
    lay = cfg["layout"]

    def typed(ss):
        r = []
        for x in ss:
            ks = layouts.keys_for(lay, x)
            r += [phys(k) for k in ks] + ([] if x[-1] in layouts.T else [phys(" ")])
        return r

    def leave():
        x = rng.random()
        return [phys("RET")] if x < .5 else [dict(k="reset")] if x < .65 else [dict(k="out"), dict(k="in")] if x < .8 else \
            [dict(k="im", im="plain"), dict(k="im", im="mc")] if x < .9 else [dict(k="im", im="other"), dict(k="im", im="mc")]
    out = []
    ss = [rng.choice(d["syl"]) for _ in range(rng.choice([2, 2, 3, 4, 5, 7]))]
    for _ in range(rng.choice([2, 3, 4])):
        if rng.random() < .2:
            ss = [rng.choice(d["syl"]) for _ in range(rng.choice([2, 3]))]
        out += typed(ss)
        for _ in range(rng.choice([0, 1, 1, 2])):       # choose something, to have something new to add
            out += [phys(rng.choice(["LEFT", "HOME", "RIGHT"])) for _ in range(rng.choice([0, 1, 2]))]
            out += [phys(" "), dict(k="click", i=rng.randrange(9)) if rng.random() < .5 else phys("DOWN"), phys("RET" if rng.random() < .8 else "ESC")]
            if out[-2]["k"] == "click":
                out.pop()
        back = rng.random() < .6
        out.append(phys("END" if back else "HOME"))
        out += [phys("LEFT" if back else "RIGHT", sh=True) for _ in range(rng.choice([2, 2, 3, len(ss), 6, 7]))]
        out.append(phys("RET"))
        out += leave()
        for _ in range(rng.choice([1, 1, 2])):
            out += typed(ss)
            if rng.random() < .4:
                out += [phys(" "), phys("ESC")]
            if rng.random() < .3:
                out += [phys("END"), phys("LEFT", sh=True), phys("LEFT", sh=True), phys("RET")]
            out += leave()
    return out


def user_file(rng, d, w):
    """Contents of one of the user's files."""
    u, syl = d["u"], d["syl"]
    runs = [r for r in u if "-" in r and r[0] != "_"]

    def reading():
        x = rng.random()
        return rng.choice(syl) if x < .35 else rng.choice(runs) if runs and x < .65 else "-".join(rng.choice(syl) for _ in range(rng.choice([2, 2, 3, 4, 6])))
    out = []
    for _ in range(rng.choice([0, 1, 3, 8, 14])):
        r = reading()
        known = [x["v"] for x in u.get(r, [])]
        anyv = rng.choice([x["v"] for us in u.values() for x in us])
        new = "".join(rng.choice(kh.POOL) for _ in range(r.count("-") + rng.choice([1, 1, 1, 1, 2])))
        x = rng.random()
        if w == "repl":
            out.append(dict(v=rng.choice(known or [anyv]), to=rng.choice([new, anyv, rng.choice(known or [new])])))
        elif w == "excl":
            out += [dict(v=v, k=r) for v in (known if x < .3 else [rng.choice(known or [anyv])])]
        else:
            out.append(dict(v=new if x < .6 or not known else anyv if x < .7 else rng.choice(known), k=r))
    return [o for o in out if o["v"].strip() and o.get("to", "x").strip() and o.get("k", "x") != " "]


def file_op(rng, d):
    w = rng.choice(["user", "user", "excl", "repl"])
    gone = rng.random() < .12
    return dict(k="file", w=w, gone=gone, x=[] if gone else user_file(rng, d, w), raw=raw_shape(rng))


def raw_shape(rng):
    return dict(head=rng.choice(["", "", "# comment", "\n# 說明"]), end=rng.random() < .7)


def make_data(rng, big):
    """Data for both modes: longer lists, long entries, same entry twice."""
    d = kh.make_data(rng, big)
    u, chars = d["u"], d["ch"]

    def put(r, v):
        if r in u and all(x["v"] != v for x in u[r]):
            u[r].append(dict(v=v, s=u[r][-1]["s"] - rng.randrange(1, 50)))
            chars[v] = list(v)
    for s in d["syl"][:2]:
        for v in rng.sample(kh.POOL, rng.choice([0, 8, 14, 21])):
            put(s, v)
    multi = [r for r in u if "-" in r and r[0] != "_"]
    for r in rng.sample(multi, min(3, len(multi))):
        last = r.split("-")[-1]
        if last in u:
            put(r, rng.choice(u[last])["v"])
    for r in rng.sample([r for r in u if r[0] == "_" and not r.startswith("_number") and len(u[r]) > 1] or ["x"], 1) + [d["syl"][-1]]:
        if rng.random() < .5:
            put(r, "".join(rng.choice(kh.POOL) for _ in range(rng.choice([8, 9, 9]))))
    if rng.random() < .6:       # many continuations of one character
        s0 = d["syl"][0]
        c0 = [v["v"] for v in u[s0] if len(v["v"]) == 1][0]
        for _ in range(rng.choice([9, 11, 20])):
            x = rng.choice(kh.POOL)
            r1 = rng.choice(d["syl"])
            if not any(a["ch"] == [c0, x] and a["rd"] == [s0, r1] for a in d["assoc"]):
                d["assoc"].append(dict(rd=[s0, r1], ch=[c0, x], s=d["assoc"][-1]["s"] - 1 if d["assoc"] else -1))
                chars[c0 + x], chars[x] = [c0, x], [x]
    plain = {}
    for r, us in u.items():
        if "-" in r and r[0] != "_":
            continue
        us = us[:] if rng.random() < .6 else us[:1]
        if len(us) > 1 and rng.random() < .3:
            us = us[1:]
        plain[r] = us
    d["plain"] = plain
    return d


def write_data(d, i, work):
    kh.write_data(d, i, work)
    lines = ["%s %s %s" % (r, x["v"], x["s"] / 100) for r, us in d["plain"].items() if r != " " for x in us]
    lines.sort(key=lambda s: s.encode())
    open(os.path.join(work, "plain%d.txt" % i), "w").write(kh.HDR + "\n" + "".join(x + "\n" for x in lines))


def dictionaries():
    """Service files and the services that they configure."""
    ok = [("萌典", "https://www.moedict.tw/(encoded)"), ("Plain", "https://example.org/?q=(encoded)&l=zh#top"),
          ("Mid", "x-dict://(encoded)/end")]

    def svc(xs):
        return [dict(name=n, url_template=t) for n, t in xs]

    def want(xs):
        return [dict(name=n, pre=t.split("(encoded)", 1)[0], post=t.split("(encoded)", 1)[1], fixed=False) for n, t in xs]
    j = json.dumps
    return [
        (j(dict(services=svc(ok[:1]))), want(ok[:1])),
        (j(dict(services=svc(ok)), ensure_ascii=False), want(ok)),
        (j(dict(services=svc(ok[::-1]) * 4)), want(ok[::-1] * 4)),
        ("", []), ("{", []), ("[]", []), ("null", []), ("3", []), ("{}", []), ('{"services": null}', []), ('{"services": []}', []),
        ('{"services": {"name": "x", "url_template": "y(encoded)"}}', []), ('{"services": "none"}', []),
        (j(dict(services=[dict(name="n"), dict(url_template="u(encoded)"), {}, 5, None, "s", []] + svc(ok[1:2]))), want(ok[1:2])),
        (j(dict(services=[dict(name=None, url_template="u(encoded)"), dict(name="n", url_template=None)] + svc(ok[2:]))), want(ok[2:])),
        (j(dict(services=[dict(name="nowhere", url_template="https://example.org/")] + svc(ok[:1]))),
         [dict(name="nowhere", pre="https://example.org/", post="", fixed=True)] + want(ok[:1])),
    ]


FOCUS = dict(E01=["choose", "assoc", "mixed", "learn"], E02=["mixed", "choose", "number", "type"], E03=["mixed", "symbol", "edit", "number"],
             D01=["dict", "mark"], C05=["mixed", "edit"], C06=["mixed", "symbol", "number"], C07=["mixed", "symbol", "edit"], C09=["choose"],
             C10=["mark"], C11=["assoc"], C12=["mixed", "choose", "symbol"], C13=["number"], C15=["symbol"], K01=["mixed", "choose", "mark", "symbol", "assoc"])
PLAIN = dict(E01=.25, E02=.3, E03=.2, C12=.9, C06=.3)


MODEL = dict(E01="Page", D01="Page", E02="Break", E03="Break", L02="Files", K01="Set")


def models(tier, prop):
    if prop not in MODEL:
        return []
    return [dict(module="EngineMC", cfg="EngineMC%s%s.cfg" % (MODEL[prop], "2" if tier == "thorough" else ""), timeout=500,
                 env=dict(VF_SMALL=os.path.join(V, "spec", "eng_small_ascii.json")))]


def small_names():
    """From the letters of the model's small data to the text of the real one."""
    a, b = (json.load(open(os.path.join(V, "spec", f))) for f in ("eng_small_ascii.json", "eng_small.json"))
    rd = dict(zip(a["u"], b["u"]))
    ch = {}
    for r in a["u"]:
        for x, y in zip(a["u"][r], b["u"][rd[r]]):
            cx, cy = a["ch"][x["v"]], b["ch"][y["v"]]
            ch.update(zip(cx, cy) if len(cx) == len(cy) else {})
    return rd, ch


def long_form(o, names=None):
    if o.get("k") == "file":
        rd, ch = names
        tr = lambda t: "".join(ch.get(c, "兒" if c.isalpha() else c) for c in t)
        return dict(o, raw=dict(head="", end=True),
                    x=[dict(v=tr(e["v"]), **({"to": tr(e["to"])} if "to" in e else {"k": "-".join(rd[r] for r in e["k"].split("-"))})) for e in o["x"]])
    return o if "k" in o else phys(o["n"], sh=o["m"] == "S", ct=o["m"] == "C", caps=o["m"] == "L", rel=o["m"] == "R")


def scenarios(rng, tier, prop, work, from_model):
    nd = 8 if tier == "quick" else 24
    data = [make_data(rng, i % 3 == 0) for i in range(nd)]
    data.append(json.load(open(os.path.join(V, "spec", "eng_small.json"))))
    dicts = dictionaries()
    for i, d in enumerate(data, 1):
        write_data(d, i, work)
    for i, (text, _) in enumerate(dicts, 1):
        open(os.path.join(work, "dict%d.json" % i), "w").write(text)
    allch = sorted(set(kh.POOL) | {c for d in data for r, us in list(d["u"].items()) + list(d["plain"].items()) for x in us for c in x["v"]}
                   | {c for d in data for a in d["assoc"] for c in "".join(a["ch"])} | set(layouts.C + layouts.M + layouts.V + layouts.T))
    def fu(u):
        return {r: sorted(us, key=lambda x: ("%s %s " % (r, x["v"])).encode()) for r, us in u.items()}
    D = [dict(mc=dict(u=d["u"], fu=fu(d["u"]), ch=d["ch"], assoc=[dict(rd=a["rd"], ch=a["ch"]) for a in d["assoc"]]),
              plain=dict(u=d["plain"], fu=fu(d["plain"]), ch=d["ch"], assoc=[dict(rd=a["rd"], ch=a["ch"]) for a in d["assoc"]])) for d in data]
    p = os.path.join(work, "data.json")
    json.dump(dict(data=D, dicts=[w for _, w in dicts], enc={c: urllib.parse.quote(c, safe="-_.~") for c in allch},
                   bytes={c: len(c.encode()) for c in allch}, wide=[c for c in allch if ord(c) > 0xffff]), open(p, "w"), ensure_ascii=False)
    sc = []
    names = small_names()
    for mc, hists in from_model:
        rng.shuffle(hists)
        for h in hists[:500 if tier == "quick" else 6000]:
            sc.append(dict(lm=nd + 1, mode=h[0]["mode"], cfg=h[0]["cfg"], pre=h[0]["cfg"]["selAfter"], unfocus=False, dict=1, focus="model",
                           two=dict(mode="plain" if h[0]["mode"] == "mc" else "mc", pre=not h[0]["cfg"]["selAfter"], unfocus=False, group=False),
                           ops=[long_form(o, names) for o in h[1:]]))
    for i in range((700 if prop in ("E01", "E02", "E03", "D01", "K01") else 300) if tier == "quick" else 6000):
        j = rng.randrange(nd)
        mode = "plain" if rng.random() < PLAIN.get(prop, .1) else "mc"
        cfg = config(rng)
        if prop in ("C11", "C12"):
            cfg["assoc"] = rng.random() < .6
        f = rng.choice(FOCUS.get(prop, ["mixed"]) * 2 + ["mixed"])
        rate = dict(E02=.08).get(prop, .01)
        two = None
        if prop == "E02" and rng.random() < .6 or rng.random() < .15:
            two = dict(mode=rng.choice(["mc", "mc", "plain", "other"]), pre=rng.random() < .5, unfocus=rng.random() < .5, group=rng.random() < .5)
        ops = gen(rng, data[j], mode, cfg, rng.choice([12, 25, 40]), "choose" if f == "dict" else f, rate, two and two["mode"])
        if f == "dict":
            for _ in range(3):
                q = rng.randrange(len(ops) + 1)
                while q and ops[q - 1]["k"] in ("out", "im"):
                    q -= 1
                ops[q:q] = [phys(" ")] + list_keys(rng, cfg, dict(k="dict"))
        if mode == "mc" and rng.random() < dict(C10=.5).get(prop, .03):
            cfg["keys"] = "123456789"
            ops = phrase_cycle(rng, data[j], cfg)
        files = {}
        if rng.random() < dict(L01=1, L02=1, C10=.2).get(prop, .04):
            if rng.random() < .8:
                rg = rng.random() < .4
                files = dict(files=dict(user=user_file(rng, data[j], "user"), excl=user_file(rng, data[j], "excl"),
                                        repl=[] if rg else user_file(rng, data[j], "repl"), ug=False, rg=rg), raw=raw_shape(rng))
            if prop != "L01" or rng.random() < .3:
                for _ in range(rng.choice([1, 2, 4])):
                    q = rng.randrange(len(ops) + 1)
                    ops[q:q] = [file_op(rng, data[j])]
                for q in sorted(rng.sample(range(len(ops)), min(4, len(ops))), reverse=True):
                    if not (q and ops[q - 1]["k"] in ("out", "im")):
                        ops[q:q] = [dict(k="out"), dict(k="in")]
        conf = {}
        if rng.random() < dict(K01=.9).get(prop, .03):
            ops = settings_ops(rng, data[j], cfg["layout"], ops)
            if cfg["layout"] == "Standard" and rng.random() < .5:
                part = some_settings(rng, "Standard")
                cfg = dict(DEFAULTS, **{n: v for n, v in part.items() if n != "bad"})
                conf = dict(conf=part)
        if prop == "E03" and rng.random() < .35:       # runs of keys that mean nothing here, whatever the state
            for _ in range(3):
                q = rng.randrange(len(ops) + 1)
                while q and ops[q - 1]["k"] in ("out", "im"):
                    q -= 1
                odd = ["X:" + n for n in ODD] + ["M:" + n for n in MODS]
                ops[q:q] = [phys(n, ct=rng.random() < .1, num=rng.random() < .1) for n in rng.sample(odd, 14)]
        sc.append(dict(lm=j + 1, mode=mode, cfg=cfg, **(dict(two=two) if two else {}), **files, **conf, pre=rng.random() < .6, unfocus=rng.random() < .4,
                       dict=rng.randrange(len(dicts) + 1) if prop == "D01" else rng.choice([0, 2, 3]), focus=f, tips=rng.random() < .5, ops=ops))
    return sc, dict(VF_DATA=p), [work]


def replay_aux(work):
    return {os.path.join(work, f): open(os.path.join(work, f)).read() for f in os.listdir(work)
            if f.startswith(("lm", "plain", "assoc", "data", "dict")) and os.path.isfile(os.path.join(work, f))}


def coverage(traces):
    from collections import Counter
    c = Counter()
    for t in traces:
        for e in t["ev"]:
            o = e.get("o")
            if not o:
                continue
            c["op " + e["k"]] += 1
            if o["w"]["on"]:
                c["list shown"] += 1
                if o["w"]["pages"] > 1:
                    c["several pages"] += 1
                if o["w"]["page"]:
                    c["later page"] += 1
            if o["all"]:
                c["delivered"] += 1
            if o["proc"]:
                c["started " + o["proc"][0][0]] += 1
            if e["k"] == "key" and not o["acc"]:
                c["passed"] += 1
            if o["pe"]["hl"]:
                c["highlight"] += 1
            if o["aux"]:
                c["notice"] += 1
    return dict(sorted(c.items()))
