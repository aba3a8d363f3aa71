"""Cases for C14: requests in which one parameter at a time is turned, along every walk TLC found in the design model Dials."""
import json, random, re
import gen_life


def from_behaviours(prop, tier, seed, out):
    hs = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"HISTORY (.*)"$', out, re.M)]
    r = random.Random(1441 + seed)
    r.shuffle(hs)
    n = 800 if tier == "thorough" else 96
    cs = []
    for k in range(n):
        s = {d: 0 for d in ("perc", "class", "bump", "range", "check", "dim", "mode")}
        hist = [["request", json.dumps(s, sort_keys=True), 1]]
        for d in hs[(2 * k) % len(hs)] + hs[(2 * k + 1) % len(hs)]:
            s[d] = 1 - s[d]
            hist.append(["request", json.dumps(s, sort_keys=True), 1])
        c = dict(gen_life.scenario(r, k), id="dials-%d" % k, hist=hist, two=0)
        if k % 12 == 5:
            c["jit"], c["limit"] = True, 240
        cs.append(c)
    return cs


def cases(prop, tier, seed):
    return []
