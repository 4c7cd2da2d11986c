"""Writes spec/syllables.json: the Mandarin syllables (taken once from the
readings of the shipped tables) with their Hanyu Pinyin spellings, and the
keyboards.  Run by hand; the result is committed."""
import glob
import json
import re
import sys
sys.path.insert(0, "/verif/tools")
import layouts

INI = dict(zip(layouts.C, "b p m f d t n l g k h j q x zh ch sh r z c s".split()))
PLAIN = dict(zip("ㄚㄛㄜㄞㄟㄠㄡㄢㄣㄤㄥㄦ", "a o e ai ei ao ou an en ang eng er".split()))
I = {"": "i", "ㄚ": "ia", "ㄛ": "io", "ㄝ": "ie", "ㄞ": "iai", "ㄠ": "iao", "ㄡ": "iu", "ㄢ": "ian", "ㄣ": "in", "ㄤ": "iang", "ㄥ": "ing"}
I0 = {"": "yi", "ㄚ": "ya", "ㄛ": "yo", "ㄝ": "ye", "ㄞ": "yai", "ㄠ": "yao", "ㄡ": "you", "ㄢ": "yan", "ㄣ": "yin", "ㄤ": "yang", "ㄥ": "ying"}
U = {"": "u", "ㄚ": "ua", "ㄛ": "uo", "ㄞ": "uai", "ㄟ": "ui", "ㄢ": "uan", "ㄣ": "un", "ㄤ": "uang", "ㄥ": "ong"}
U0 = {"": "wu", "ㄚ": "wa", "ㄛ": "wo", "ㄞ": "wai", "ㄟ": "wei", "ㄢ": "wan", "ㄣ": "wen", "ㄤ": "wang", "ㄥ": "weng"}
Y = {"": "v", "ㄝ": "ve", "ㄢ": "van", "ㄣ": "vn", "ㄥ": "iong"}
Y0 = {"": "yu", "ㄝ": "yue", "ㄢ": "yuan", "ㄣ": "yun", "ㄥ": "yong"}
ALSO = {"iu": ["iou"], "in": ["ien"], "un": ["uen"], "ui": ["uei"]}


def spellings(c, m, v):
    if not m:
        if not v:
            return [INI[c] + "i"] if c in "ㄓㄔㄕㄖㄗㄘㄙ" else []
        return [INI.get(c, "") + PLAIN[v]] if v in PLAIN and (v != "ㄦ" or not c) else []
    t, t0 = {"ㄧ": (I, I0), "ㄨ": (U, U0), "ㄩ": (Y, Y0)}[m]
    if not c:
        return [t0[v]] if v in t0 else []
    if v not in t:
        return []
    f = t[v]
    if m == "ㄩ":
        if c in "ㄐㄑㄒ":
            return [INI[c] + f.replace("v", "u")]
        return [INI[c] + f] + ([INI[c] + "ue"] if v == "ㄝ" else [])
    return [INI[c] + f] + [INI[c] + a for a in ALSO.get(f, [])]


syl = set()
for f in glob.glob("/repo/data/*.txt"):
    syl |= set(re.findall("[ㄅ-ㄩㄚ-ㄦ]+", open(f, encoding="utf-8").read()))
out = []
for s in sorted(syl):
    m = re.fullmatch("([ㄅ-ㄙ]?)([ㄧㄨㄩ]?)([ㄚ-ㄦ]?)", s)
    c, mm, v = m.groups()
    if not (mm or v or (c in "ㄓㄔㄕㄖㄗㄘㄙ")):
        continue
    out.append(dict(c=c, m=mm, v=v, py=spellings(c, mm, v)))
print(len(out), "syllables;", "no pinyin:", [s["c"] + s["m"] + s["v"] for s in out if not s["py"]])

KIND = ["ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙ", "ㄧㄨㄩ", "ㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦ", "ˊˇˋ˙"]


def comp(ch):
    for i, k in enumerate(KIND):
        if ch and ch in k:
            return i + 1, k.index(ch) + 1


def q(k):
    return '"%s"' % k.replace("\\", "\\\\").replace('"', '\\"')


def key(t, k):
    return "k = %s -> <<%s>>" % (q(k), ", ".join("<<%d, %d>>" % comp(c) for c in t[k]))


with open("/verif/spec/MandarinTables.tla", "w") as f:
    f.write("--------------------------- MODULE MandarinTables ---------------------------\n"
            "(* The Bopomofo components, the keyboards, and the syllables of Mandarin with\n"
            "   their Hanyu Pinyin spellings (v for u-umlaut).  Written by\n"
            "   tools/gen_syllables.py.  A component is <<kind, number>>: kinds 1..4 are\n"
            "   consonant, middle vowel, vowel, tone mark. *)\n")
    f.write("Names == <<" + ",\n  ".join("<<" + ", ".join('"%s"' % c for c in k) + ">>" for k in KIND) + ">>\n")
    f.write("LayoutNames == {" + ", ".join('"%s"' % n for n in layouts.ALL) + "}\n")
    f.write("Keys == [\n" + ",\n".join(" %s |-> {%s}" % (n, ", ".join(q(k) for k in sorted(t))) for n, t in layouts.ALL.items()) + "]\n")
    f.write("KeyComps == [\n" + ",\n".join(
        " %s |-> [k \\in Keys.%s |->\n  CASE " % (n, n) + "\n    [] ".join(key(t, k) for k in sorted(t)) + "]"
        for n, t in layouts.ALL.items()) + "]\n")
    num = lambda ch: comp(ch)[1] if ch else 0
    f.write("Syllables == <<\n" + ",\n".join(
        " [s |-> <<%d, %d, %d, 0>>, py |-> <<%s>>]" % (num(x["c"]), num(x["m"]), num(x["v"]), ", ".join('"%s"' % y for y in x["py"]))
        for x in out) + ">>\n")
    f.write("=" * 77 + "\n")
