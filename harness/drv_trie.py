"""Histories of the real Trie (tools/gsmtermlib/trie.py)."""
import random, itertools
import drvlib
drvlib.setup_path()
from gsmtermlib.trie import Trie

ALPH = {1: "A", 2: "T", 3: "+", 4: "C", 5: "é", 6: " ", 7: "x", 8: "Z", 9: "&"}
INV = {v: k for k, v in ALPH.items()}


def scenarios(tier, seed, extra):
    rnd = random.Random(seed)
    out = []
    for h in extra or []:
        out.append({"ops": [[e["k"], e["key"], e["val"]] for e in h], "src": "tlc"})
    # every short history over keys that are prefixes of each other
    keys = [[], [1], [1, 1], [1, 2], [1, 1, 1], [1, 1, 2], [2]]
    acts = [["set", k, 10 + i] for i, k in enumerate(keys)] + [["del", k, 0] for k in keys]
    for n in (1, 2, 3):
        for seq in itertools.product(acts, repeat=n):
            if n == 3 and (seq[0][0] == "del" or rnd.random() > (1.0 if tier == "thorough" else 0.6)):
                continue
            out.append({"ops": [list(x) for x in seq], "src": "enum"})
    for perm in itertools.permutations(keys[:6] if tier == "thorough" else keys[1:6]):
        ops = [["set", k, i] for i, k in enumerate(perm)]
        d = list(perm)
        rnd.shuffle(d)
        ops += [["del", k, 0] for k in d]
        out.append({"ops": ops, "src": "perm"})
    for _ in range(1500 if tier == "thorough" else 250):
        nch = rnd.choice([2, 3, 9])
        mx = rnd.choice([2, 4, 7])
        pool = [[rnd.randint(1, nch) for _ in range(rnd.randint(0, mx))] for _ in range(rnd.randint(3, 12))]
        for k in list(pool):
            if len(k) > 1 and rnd.random() < .5:
                pool.append(k[:rnd.randint(0, len(k) - 1)])
        ops = []
        for _ in range(rnd.randint(8, 40)):
            k = rnd.choice(pool)
            ops.append(["del" if rnd.random() < .35 else "set", k, rnd.choice([0, 1, 2, 99])])
        out.append({"ops": ops, "src": "random"})
    return out


def s(k):
    return "".join(ALPH[c] for c in k)


def u(k):
    return [INV.get(c, 99) for c in k]


VALS = {0: None, 1: "", 2: ("Category", ("a", 1)), 11: False, 13: [], 99: "text"}      # what the numbers stand for


def val_of(x):
    return next((k for k, v in VALS.items() if type(v) is type(x) and v == x), x if type(x) is int else -99)


def observe(t, probes):
    o = {"exc": "", "len": -1, "iter": [], "keys": [], "probes": []}
    try:
        o["len"] = len(t)
        o["iter"] = [u(k) for k in t]
        o["keys"] = [u(k) for k in t.keys()]
        for p in probes:
            q = {"key": p, "contains": s(p) in t}
            try:
                q["get"] = [val_of(t[s(p)])]
            except KeyError:
                q["get"] = []
            q["getd"] = val_of(t.get(s(p), -1))
            q["pkeys"] = [u(k) for k in t.keys(s(p))]
            q["lcp"] = u(t.longestCommonPrefix(s(p)))
            o["probes"].append(q)
    except Exception as e:
        o["exc"] = type(e).__name__
    return o


def run(scn):
    t = Trie()
    ev = []
    used = [op[1] for op in scn["ops"]]
    rnd = random.Random(len(used) * 7919 + sum(map(sum, used)))
    e = {"k": "obs"}
    e.update(observe(t, [[], [1]]))
    ev.append(e)
    for i, (k, key, val) in enumerate(scn["ops"]):
        e = {"k": k, "key": key, "val": val, "missing": False}
        exc = ""
        try:
            if k == "set":
                t[s(key)] = VALS.get(val, val)
            else:
                try:
                    del t[s(key)]
                except KeyError:
                    e["missing"] = True
        except Exception as x:
            exc = type(x).__name__
        others = rnd.sample(used, min(3, len(used)))
        probes = [key, key[:len(key) // 2], []] + others + [key + [rnd.randint(1, 3)], key[:-1]]
        if i == len(scn["ops"]) - 1:
            probes += used
        e.update(observe(t, probes))
        e["exc"] = exc or e["exc"]
        ev.append(e)
    return {"ev": ev}


if __name__ == "__main__":
    drvlib.main(globals())
