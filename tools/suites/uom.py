"""UserOverrideModel on its own, with small capacities."""
DRIVER = "uom_drv"
TRACE = "UOMTrace"
PROPS = ["C14"]


def models(tier, prop):
    return [dict(module="UOMMC", cfg="UOMMC.cfg" if tier == "quick" else "UOMMC4.cfg", timeout=600)]


def scenarios(rng, tier, prop, work, from_model):
    sc = []
    for mc, hs in from_model:
        rng.shuffle(hs)
        for h in hs[:500 if tier == "quick" else 6000]:
            sc.append(dict(cap=2, hl=5400.0, base=1.7e9, keys=["p", "q", "r"],
                           ops=h + [dict(k="tick", d=d) for d in (1, 30, 129)]))
    for i in range(150 if tier == "quick" else 2500):
        cap = rng.choice([1, 2, 3, 5, 8])
        keys = ["k%d" % j for j in range(cap + rng.choice([1, 2, 4]))]
        hot = rng.random() < .5
        ops = []
        for _ in range(rng.choice([20, 60])):
            d = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30, 80, 150, 159, 160, 161, 170]) if rng.random() < .5 else 0
            if rng.random() < .15:
                ops.append(dict(k="tick", d=d))
            else:
                ops.append(dict(k="obs", key=keys[0] if hot and rng.random() < .4 else rng.choice(keys), v=rng.choice("abcd"), f=rng.random() < .4, d=d))
        sc.append(dict(cap=cap, hl=rng.choice([5400.0, 8.0, 1.0]), base=rng.choice([0.0, 1.7e9]), keys=keys, ops=ops))
    return sc, {}, []
