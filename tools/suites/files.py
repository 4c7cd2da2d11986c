"""Memory-mapped files, objects loaded through them, change detection."""
DRIVER = "files_drv"
TRACE = "FilesTrace"
PROPS = ["L06"]


def models(tier, prop):
    return [dict(module="FilesMC", cfg="FilesMC.cfg" if tier == "quick" else "FilesMC6.cfg", timeout=700)]


def size(c):
    if c == 0:
        return 0
    s = "# format org.openvanilla.mcbopomofo.sorted\nk v%d 0\nk-r-w%d-r 0\n" % (c, c)
    return len(s) + (2 + 9000 + 3 if c == 3 else 0)


SIZES = [size(c) for c in range(4)]


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    sc = []
    for mc, hs in from_model:
        rng.shuffle(hs)
        for h in hs[:600 if q else 6000]:
            sc.append(dict(paths=["p", "q"], sizes=SIZES, ops=h))
    for _ in range(200 if q else 3000):
        paths = ["p", "q", "r"][:rng.choice([1, 2, 3])]
        ops = []
        for _ in range(rng.choice([10, 30, 60])):
            p, s = rng.choice(paths), rng.choice("ab")
            d = "b" if s == "a" else "a"
            r = rng.random()
            if r < .2:
                ops.append(dict(k="write", p=p, c=rng.choice([0, 1, 1, 2, 3]), mt=rng.randrange(1, 5)))
            elif r < .26:
                ops.append(dict(k="rm", p=p))
            elif r < .31:
                ops.append(dict(k="mkdir", p=p, mt=rng.randrange(1, 5)))
            elif r < .34:
                ops.append(dict(k="link", p=p))
            elif r < .4:
                ops.append(dict(k="touch", p=p, mt=rng.randrange(1, 5)))
            elif r < .55:
                ops.append(dict(k="open", p=p, s=s))
            elif r < .62:
                ops.append(dict(k="close", s=s))
            elif r < .72:
                ops.append(dict(k=rng.choice(["moveto", "assign"]), s=s, d=d))
            elif r < .82:
                ops.append(dict(k="lopen", p=p))
            elif r < .87:
                ops.append(dict(k="lclose"))
            else:
                ops.append(dict(k="check", p=p))
        sc.append(dict(paths=paths, sizes=SIZES, ops=ops))
    return sc, {}, []
