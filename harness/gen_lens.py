"""Cases for C10 and C11: real projective and lens coordinates."""
import random
import gen_torus, scen

FAM = [("flag12", "any", 12), ("annulus12", "any", 8), ("rp2", "any", 5), ("moore", "any", 4), ("cycle", "first", 6), ("weighted", "any", 10),
       ("wcycle", "any", 6), ("klein12", "top", 3), ("theta12", "any", 6), ("cloud", "any", 6), ("rp2circle", "any", 3), ("islands", "any", 5), ("islands12", "any", 3), ("longtheta", "any", 6)]
BUMP = ["linear", "quadratic", "custom", "linear", "flat", "exp"]


def cases(prop, tier, seed):
    m = 6 if tier == "thorough" else 1
    r = random.Random(int(prop[1:]) * 7001 + seed)
    cs = []
    for fam, rule, count in FAM:
        for i in range(count * m):
            two = fam in gen_torus.TWO
            bump = BUMP[len(cs) % len(BUMP)]
            sr = r.random() < 0.6
            if bump == "exp":
                sr = True
                if not two:
                    bump = "quadratic"
            p = 2 if prop == "C10" else [3, 2, 3, 5, 7, 3, 41, 113, 127][len(cs) % 9] if fam != "moore" else 3
            c = {"id": "%s-%d" % (fam, i), "D": gen_torus.graph_case(r, fam), "cls": "ProjectiveCoords" if prop == "C10" else "LensCoords", "p": p,
                 "rule": rule, "sr": sr, "perc8": r.choice([0, 2, 4, 7, 8]) if two else r.choice([1, 2, 4, 6, 7, 8]), "bump": bump,
                 "mode": ["exponential", "one-by-one"][i % 2], "redmode": ["exponential", "direct", "one-by-one"][i % 3], "s": r.randrange(10**9),
                 "reddim": r.choice([1, 2, 2, 3, 4]), "default": len(cs) % 10 == 8, "dtype": ["float", "int", "float32"][i % 3], "verbose": i % 7 == 6}
            if fam.startswith("islands"):
                c["apart"] = True
                if c["dtype"] == "int":
                    c["dtype"] = "float"
            c["u"] = scen.unit(c)
            if i == 1:
                c["probes"] = r.choice([150, 400, 1100])
            if i % 5 == 4 and len(c["D"]) > 8 and not two:
                c["nl"] = len(c["D"]) - r.randint(1, 2)
            cs.append(c)
    return cs
