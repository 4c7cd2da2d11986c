"""Key tables of the Bopomofo keyboards, written from the published layouts."""
import os
import re
C = "ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙ"
M = "ㄧㄨㄩ"
V = "ㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦ"
T = "ˊˇˋ˙"


def kind(s):
    return "c" if s in C else "m" if s in M else "v" if s in V else "t"


def table(keys, syms=C + M + V + T):
    assert len(keys) == len(syms), (len(keys), len(syms))
    return {k: [s] for k, s in zip(keys, syms)}


#                      ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙ ㄧㄨㄩ ㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦ ˊˇˋ˙
Standard = table("1qaz2wsxedcrfv5tgbyhn" "ujm" "8ik,9ol.0p;/-" "6347")
ETen = table("bpmfdtnlvkhg7c,./j;'s" "exu" "aorwiqzy890-=" "2341")
IBM = table("1234567890-qwertyuiop" "asd" "fghjkl;zxcvbn" "m,./")


def multi(text):
    d = {}
    for part in text.split():
        d[part[0]] = list(part[1:])
    return d


Hsu = multi("bㄅ pㄆ mㄇㄢ fㄈˇ dㄉˊ tㄊ nㄋㄣ lㄌㄥㄦ gㄍㄜ kㄎㄤ hㄏㄛ jㄐㄓˋ vㄑㄔ cㄒㄕ rㄖ zㄗ aㄘㄟ sㄙ˙ "
            "eㄧㄝ xㄨ uㄩ yㄚ iㄞ wㄠ oㄡ")
ETen26 = multi("bㄅ pㄆㄡ mㄇㄢ fㄈˊ dㄉ˙ tㄊㄤ nㄋㄣ lㄌㄥ vㄍㄑ kㄎˋ hㄏㄦ gㄓㄐ cㄕㄒ yㄔ jㄖˇ qㄗㄟ wㄘㄝ sㄙ "
               "eㄧ xㄨ uㄩ aㄚ oㄛ rㄜ iㄞ zㄠ")
SIMPLE = dict(Standard=Standard, ETen=ETen, IBM=IBM)
ALL = dict(SIMPLE, Hsu=Hsu, ETen26=ETen26)


INV = {lay: {c: k for k, cs in t.items() for c in cs} for lay, t in ALL.items()}
_TABLE = {}


def spellings(body):
    """Pinyin of a syllable without its tone mark."""
    if not _TABLE:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec/MandarinTables.tla")
        kinds = [C, M, V]
        for c, m, v, py in re.findall(r"\[s \|-> <<(\d+), (\d+), (\d+), 0>>, py \|-> <<(.*?)>>\]", open(p, encoding="utf-8").read()):
            t = "".join(k[int(n) - 1] for k, n in zip(kinds, (c, m, v)) if int(n))
            _TABLE[t] = [x.strip(' "') for x in py.split(",") if x.strip()]
    return _TABLE.get(body) or ["e"]


def keys_for(layout, syl, n=0):
    """Keys typing the syllable (first tone: none)."""
    if layout == "HanyuPinyin":
        body = syl.rstrip(T)
        py = spellings(body)
        return list(py[n % len(py)]) + [str(T.index(c) + 2) for c in syl[len(body):]]
    return [INV[layout][s] for s in syl]


def is_tone(layout, key):
    return key in "2345" if layout == "HanyuPinyin" else key in (INV[layout][t] for t in T)


def all_keys(layout):
    return list("abcdefghijklmnopqrstuvwxyz2345") if layout == "HanyuPinyin" else list(ALL[layout])
