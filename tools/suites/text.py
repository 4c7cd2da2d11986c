"""UTF-8 text functions on arbitrary bytes; numeral converters."""
DRIVER = "text_drv"
TRACE = "TextTrace"
PROPS = ["C13", "T01"]


def models(tier, prop):
    q = tier == "quick"
    if prop == "T01":
        return [dict(module="Utf8MC", cfg="Utf8MC.cfg" if q else "Utf8MC4.cfg", timeout=700)]
    return [dict(module="NumbersMC", cfg="NumbersMC.cfg" if q else "NumbersMCall.cfg", timeout=800)]


def pack(ops, n=60):
    return [dict(ops=ops[i:i + n]) for i in range(0, len(ops), n)]


def utf8(rng, q, from_model):
    ops = []
    for mc, hs in from_model:
        ops += [dict(k="utf8", b=list(h)) for h in hs[:3000 if q else 20000]]
    for _ in range(1500 if q else 20000):
        s = b""
        for _ in range(rng.randrange(1, 12)):
            r = rng.random()
            if r < .3:
                s += chr(rng.randrange(1, 128)).encode()
            elif r < .45:
                s += chr(rng.randrange(128, 0x800)).encode()
            elif r < .75:
                s += chr(rng.choice([rng.randrange(0x800, 0xD800), rng.randrange(0xE000, 0x10000), 0x4E00 + rng.randrange(20000)])).encode()
            else:
                s += chr(rng.randrange(0x10000, 0x110000)).encode()
        b = list(s)
        r = rng.random()
        if r < .25:
            b = b[:rng.randrange(len(b) + 1)]
        elif r < .5:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif r < .6:
            b.insert(rng.randrange(len(b) + 1), rng.randrange(128, 256))
        elif r < .65:
            b[rng.randrange(len(b)):] = [0xED, rng.randrange(0xA0, 0xC0), 0x80, 65]
        ops.append(dict(k="utf8", b=b))
    # sequences of every length, well formed or not, around the boundaries
    def raw(v, n):
        if n == 1:
            return [v & 0x7F]
        lead = {2: 0xC0, 3: 0xE0, 4: 0xF0, 5: 0xF8, 6: 0xFC}[n]
        out = []
        for _ in range(n - 1):
            out.insert(0, 0x80 | (v & 0x3F))
            v >>= 6
        return [(lead | v) & 0xFF] + out
    edges = [0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000,
             0x10FFFE, 0x10FFFF, 0x110000, 0x13FFFF, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000]
    top = {2: 0x7FF, 3: 0xFFFF, 4: 0x1FFFFF, 5: 0x3FFFFFF, 6: 0x7FFFFFFF}
    for v in edges:
        for n in range(2, 7):
            if v > top[n]:
                continue
            for pre in ([], [65], [0xE4, 0xB8, 0xAD]):
                for suf in ([], [66], [0x80]):
                    ops.append(dict(k="utf8", b=pre + raw(v, n) + suf))
    # every character of the Basic Multilingual Plane is too much for the quick tier
    step = 37 if q else 5
    pts = [p for p in range(0, 0x110000, step) if not 0xD800 <= p <= 0xDFFF]
    if q:
        pts = rng.sample(pts, 3000)
    for i in range(0, len(pts), 10):
        ops.append(dict(k="utf8", b=list("".join(chr(p) for p in pts[i:i + 10]).encode())))
    return ops


def numbers(rng, q, from_model):
    ops = []

    def both(i, d):
        ops.append(dict(k="zh", i=i, d=d))
        ops.append(dict(k="sz", i=i, d=d, unit=rng.choice(["", "單位", "斤"])))
    for mc, hs in from_model:
        for h in hs[:1500 if q else 8000]:
            both(h["i"], h["d"])
    lim = 2500 if q else 30000
    for n in range(lim):
        both([int(c) for c in str(n)], [])
    for _ in range(1500 if q else 15000):
        z = rng.choice([.1, .3, .6, .85])
        dig = lambda: 0 if rng.random() < z else rng.choice([1, 2, 3, rng.randrange(1, 10)])
        i = [dig() for _ in range(rng.randrange(0, 31))]
        d = [dig() for _ in range(rng.choice([0, 0, 1, 2, 5, 10]))]
        both(i, d)
    for _ in range(100 if q else 1000):
        i = [rng.randrange(10) if rng.random() < .4 else 0 for _ in range(rng.randrange(30, 49))]
        ops.append(dict(k="zh", i=i, d=[]))
    return ops


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    ops = (utf8 if prop == "T01" else numbers)(rng, q, from_model)
    rng.shuffle(ops)
    return pack(ops), {}, []
