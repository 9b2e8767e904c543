#!/usr/bin/env python3
"""Does the specification have teeth?  Recorded histories are falsified in one observation each (a digit, a
scale, a sign, an outcome, a flag) and validated again: every falsified observation ought to be rejected.

    python3 tools/teeth.py [--per N] [--histories N]

Prints, for every kind of step, observed field and falsification, which properties noticed it, and those that
nobody noticed (each of which is either not determined by the specification or a hole in it).
"""
import argparse, collections, copy, json, os, random, re, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402

PROFILES = ["all", "parse", "target", "print", "printat", "round_trip", "addsub", "mul", "div", "rem", "divzero", "overflow", "round",
            "cmp", "hash", "ints", "toints", "zeros", "dest", "remade", "operators", "creep", "setters", "mirror", "memory"]


def paths(v, at=()):
    if isinstance(v, dict):
        for k, w in v.items():
            yield from paths(w, at + (k,))
    else:
        yield at, v


def lies(v, key):
    """other values of the kind"""
    if isinstance(v, bool):
        yield "flipped", not v
    elif isinstance(v, int):
        yield "+1", v + 1
        if v > 0:
            yield "-1", v - 1
    elif isinstance(v, list) and key in ("c", "k"):
        n = int("".join("%04d" % x for x in reversed(v)) or "0")
        def limbs(m):
            out = []
            while m:
                out.append(m % 10000)
                m //= 10000
            return out
        yield "+1", limbs(n + 1)
        if n:
            yield "top digit", limbs(n + 10 ** (len(str(n)) - 1) * (1 if str(n)[0] < "9" else -1))
            yield "tenfold", limbs(n * 10)
    elif isinstance(v, list) and key == "t" and v:
        yield "last byte", v[:-1] + [v[-1] ^ 1]
        yield "first byte", [v[0] ^ 1] + v[1:]
        yield "one more", v + [48]
        yield "one less", v[:-1]


INPUT = {"o", "d", "a", "b", "n", "rs", "i", "l", "an"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--per", type=int, default=3)
    ap.add_argument("--histories", type=int, default=60)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(1)
    os.makedirs(os.path.join(check.BUILD, "run"), exist_ok=True)
    with tempfile.TemporaryDirectory(dir=os.path.join(check.BUILD, "run")) as work:
        exe = check.build(work)
        cases = collections.defaultdict(list)
        hist = []
        for p in PROFILES:
            f = os.path.join(work, p)
            subprocess.run([exe, "gen", "--profile", p, "--seed", "7", "--from", "0", "--to", str(a.histories), "--out", f],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for line in open(f):
                if not line.endswith("]}\n"):
                    continue
                h = json.loads(line)
                hist.append(h)
                for n, e in enumerate(h["ev"]):
                    for at, v in paths(e):
                        if at[0] in INPUT and not (at[0] == "l" and e["o"] == "sort"):
                            continue
                        if at == ("t",) and e["o"] in ("parse", "fstr", "parsekeep"):
                            continue
                        if at == ("k",) and e["o"] in ("fromi", "fromu"):
                            continue
                        for name, w in lies(v, at[-1]):
                            cases[(e["o"], e.get("x"), at, name)].append((len(hist) - 1, n, w))
        out, keys = os.path.join(work, "lies"), []
        with open(out, "w") as f:
            for key, where in sorted(cases.items(), key=lambda kv: str(kv[0])):
                for k, n, w in rnd.sample(where, min(a.per, len(where))):
                    h = {"h": len(keys), "ev": copy.deepcopy(hist[k]["ev"][:n + 1])}
                    e = h["ev"][n]
                    for s in key[2][:-1]:
                        e = e[s]
                    e[key[2][-1]] = w
                    f.write(json.dumps(h, separators=(",", ":")) + "\n")
                    keys.append((key, n + 1))
        code, text = check.tlc("FxdTrace.cfg", "FxdTrace.tla", work, {"TRACE": out, "FOCUS": "all", "REPORTS": "1"}, heap="6g")
        if "EVENTS" not in text:
            print(text[-3000:])
            sys.exit(2)
        noticed = collections.defaultdict(set)
        seen = collections.Counter()
        for h, l, ids in re.findall(r'<<"REJECT", (\d+), (\d+), \{([^}]*)\}>>', text):
            key, n = keys[int(h)]
            if int(l) == n:
                seen[key] += 1
                noticed[key] |= set(re.findall(r"C\d\d", ids))
        total = collections.Counter(k for k, _ in keys)
        missed = 0
        for key in sorted(total, key=str):
            if a.verbose or seen[key] < total[key]:
                print("%-10s x=%s %-10s %-10s noticed %d of %d by %s" % (key[0], key[1], ".".join(key[2]), key[3], seen[key], total[key],
                                                                     " ".join(sorted(noticed[key])) or "-"))
            missed += total[key] - seen[key]
        print("%d falsifications of %d kinds, %d not noticed" % (len(keys), len(total), missed))


if __name__ == "__main__":
    main()
