"""Cases for C19: every short sequence of plot calls TLC found in the design model, and calls with all kinds of data."""
import json, random, re


def data(r, op):
    n = op[2] or 1
    if op[0] in ("scatter", "grid") and r.random() < 0.3:
        n = r.choice([2, 3, 4, 6, 7, 9, 10, 12, 17])
    if op[0] in ("rp2", "rp3", "rp3sphere") and r.random() < 0.5:
        n = r.choice([2, 3, 4, 7, 12, 30])
    return {"op": [op[0], op[1], n if op[0] not in ("current", "mesh", "proj", "halves", "level") else 0], "s": r.randrange(10**9),
            "colour": r.choice(["values", "values", "same", "rgb"]), "dim": r.choice([1, 2, 3, 5])}


def from_behaviours(prop, tier, seed, out):
    hs = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"HISTORY (.*)"$', out, re.M)]
    hs.sort(key=json.dumps)
    r = random.Random(1900 + seed)
    r.shuffle(hs)
    hs = hs[:(6000 if tier == "thorough" else 400)]
    return [{"id": "calls-%d" % i, "calls": [data(r, op) for op in h]} for i, h in enumerate(hs)]


def cases(prop, tier, seed):
    r = random.Random(191 + seed)
    m = 6 if tier == "thorough" else 1
    cs = []
    for i in range(60 * m):
        cur = r.choice([1, 2, 3, 4])
        calls = [{"op": ["current", cur, 0]}]
        for _ in range(r.randint(1, 6)):
            what = r.choice(["scatter", "grid", "proj", "halves", "mesh", "rp2", "rp3", "rp3sphere", "level", "current"])
            if what == "current":
                cur = r.choice([1, 2, 3, 4])
                a = cur
            elif what == "rp2":
                a = 0
                if cur > 2:
                    continue
            elif what in ("scatter", "grid", "proj", "halves"):
                a = r.choice([0, 1, 2]) if cur <= 2 else r.choice([1, 2])
            elif what == "mesh":
                a = r.choice([0, 3, 4]) if cur > 2 else r.choice([3, 4])
            else:
                a = r.choice([3, 4])
            calls.append(data(r, [what, a, r.randint(1, 26)]))
        cs.append({"id": "plot-%d" % i, "calls": calls})
    return cs
