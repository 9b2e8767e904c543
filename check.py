#!/usr/bin/env python3
"""Decides one property: runs the library under the driver, validates what it did against the TLA+
specification with TLC, and model-checks the specification itself.

  check.py PROP [--tier quick|thorough] [--seed N] [--scale X]
  check.py --replay FILE          re-runs one reported history against the current tree

Exit 0: the property held on everything explored.  Exit 1: it did not (VIOLATION line).
Exit 2: the check itself could not run.
"""
import argparse, resource, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JARS = ":".join([os.path.join(BUILD, "classes"), "/opt/veriftools/tla/tla2tools.jar",
                 "/opt/veriftools/tla/CommunityModules-deps.jar"])
WORKERS = int(os.environ.get("CHECK_WORKERS", "8"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, MODELS, GEN, EXTRAS, HANG_OWNERS, describe  # noqa: E402


def die(msg):
    print("check error:", msg)
    sys.exit(2)


def build(log):
    """compiles the Java override of BigNat and the driver against /repo's current tree; returns
    the path of a private copy of the driver"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        java = os.path.join(SPEC, "override", "BigNat.java")
        cls = os.path.join(BUILD, "classes", "BigNat.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(java):
            os.makedirs(os.path.dirname(cls), exist_ok=True)
            subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d",
                            os.path.dirname(cls), java], check=True)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        drv = os.path.join(ROOT, "driver")
        exe = os.path.join(log, "fxd-driver")
        # twice: with debug assertions and overflow checks, and as users build it (exe.plain)
        for profile, to in (("release", exe), ("plain", exe + ".plain")):
            # never trust time stamps: the tree may have been replaced under the same path
            subprocess.run(["cargo", "clean", "--offline", "--profile", profile, "-p", "fxd", "-p", "fxd-driver"], cwd=drv,
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = subprocess.run(["cargo", "build", "--profile", profile, "--offline", "--locked"], cwd=drv, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-3000:])
                die("the driver does not build against /repo")
            shutil.copy2(os.path.join(BUILD, "target", profile, "fxd-driver"), to)
    return exe


def tlc(cfg, module, workdir, env, heap="2g", workers=1, timeout=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=workdir)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfg,
           "-metadir", meta, "-noGenerateSpecTE", *extra, module]
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def config(path, consts, invs, view=False):
    with open(path, "w") as f:
        live = [i[2:] for i in invs if i.startswith("~>")]         # what must come about, not what must always hold
        f.write("SPECIFICATION Spec\n%s%sCONSTANTS\n%s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
            "VIEW View\n" if view else "", "PROPERTY %s\n" % " ".join(live) if live else "",
            "\n".join("  %s %s%s" % (k, "" if str(v).startswith("<-") else "= ", v) for k, v in consts.items()),
            " ".join(i for i in invs if not i.startswith("~>"))))


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def validate(trace, focus, workdir):
    """runs FxdTrace on one file"""
    code, out = tlc("FxdTrace.cfg", "FxdTrace.tla", workdir, {"TRACE": trace, "FOCUS": focus})
    m = STATES.findall(out)
    ev = re.search(r'<<"EVENTS", (\d+), "HISTORIES", (\d+), "REJECTED", (\d+)>>', out)
    if code != 0 or not m or not ev:
        return {"error": out[-2500:]}
    rejects = [(int(h), int(l), sorted(re.findall(r'"(C\d\d)"', ids)))
               for h, l, ids in re.findall(r'<<"REJECT", (\d+), (\d+), \{([^}]*)\}>>', out)]
    kinds = {k: int(n) for k, n in re.findall(r'<<"KIND", "([^"]*)", (\d+)>>', out)}
    events, hist, rej = map(int, ev.groups())
    if int(m[-1][1]) != events + hist:
        return {"error": "only %s of %d states reached" % (m[-1][1], events + hist)}
    return {"events": events, "hist": hist, "rejected": rej, "rejects": rejects, "kinds": kinds,
            "generated": int(m[-1][0]), "distinct": int(m[-1][1])}


DEADLINE = {"quick": 420, "thorough": 4 * 3600}      # no job is begun, and none goes on, after so many seconds
CUT = []                 # jobs ended by it
LOST = []                # histories that hung or crashed, over all chunks
ENOUGH = 12              # a library that hangs everywhere is not explored any further


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def generate(exe, args, out, prop, until):
    """runs the driver; returns (histories that hung or crashed)"""
    lost = []
    profile, seed, lo, hi = args[:4]
    what = ["gen", "--profile", profile, "--seed", str(seed)]
    if len(args) > 4:
        what = ["prog", "--in", args[4], "--ex", str(EXTRAS.get(prop, 0))]
    parts = []
    while lo < hi and len(LOST) < ENOUGH:
        if time.time() > until:
            CUT.append(args)
            break
        part = "%s.%d" % (out, lo)
        cmd = [exe, *what, "--from", str(lo), "--to", str(hi), "--out", part]
        parts.append(part)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit_memory,
                               timeout=max(1, until - time.time()))
        except subprocess.TimeoutExpired:
            CUT.append(args)             # what it wrote until now is judged
            break
        if r.returncode == 0:
            break
        m = re.search(r"^HANG (\d+) (\d+) (.*)$", r.stderr, re.M)
        if m:
            h, l, head = int(m.group(1)), int(m.group(2)), m.group(3)
        else:
            # killed or aborted: the history after the last one written
            with open(part) as f:
                done = [x for x in f.read().split("\n") if x.endswith("]}")]
            h = json.loads(done[-1])["h"] + 1 if done else lo
            l, head = 0, "crash with code %d: %s" % (r.returncode, r.stderr[-300:])
        lost.append({"plain": exe.endswith(".plain"), "profile": profile, "seed": seed, "h": h, "l": l, "head": head, "hang": bool(m)})
        LOST.append(h)
        if len(args) > 4:
            lost[-1]["program"] = open(args[4]).read().split("\n")[h]
        if len(lost) > 3:
            break
        lo = h + 1
    with open(out, "w") as f:
        for p in parts:
            if not os.path.exists(p):
                continue
            with open(p) as g:
                for line in g:
                    if line.endswith("]}\n"):
                        f.write(line)
            os.unlink(p)
    return lost


def constants():
    """the numbers written in the library's source (tests and tables aside)"""
    seen = set()
    repo = re.search(r'^fxd = .*path = "([^"]+)"', open(os.path.join(ROOT, "driver", "Cargo.toml")).read(), re.M).group(1)
    for name in sorted(os.listdir(os.path.join(repo, "src"))):
        if name.endswith(".rs"):
            text = open(os.path.join(repo, "src", name), errors="replace").read().split("#[cfg(test)]")[0]
            for line in text.split("\n"):
                if len(line) < 200:
                    line = re.sub(r"//.*", "", line)
                    for t in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)", line):
                        seen.add(int(t.rstrip("_").replace("_", ""), 0 if t[:2] in ("0x", "0b") else 10))
    return ",".join(str(k) for k in sorted(seen) if 2 < k < 1 << 64)


def differ(a, b):
    with open(a, "rb") as f, open(b, "rb") as g:
        while True:
            x, y = f.read(1 << 20), g.read(1 << 20)
            if x != y:
                return True
            if not x:
                return False


PLAIN = 1000000000       # added to the number of a history taken from the other build


def join(a, b):
    """adds the histories of b that a does not have"""
    with open(a) as f:
        have = set(f)
    with open(a, "a") as f, open(b) as g:
        for line in g:
            if line not in have:
                f.write(re.sub(r'^{"h":(\d+)', lambda m: '{"h":%d' % (PLAIN + int(m.group(1))), line))


def known_findings():
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=\[(.*?)\] (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-models", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.prop not in PLAN and a.prop != "all":
        die("unknown property")
    t0 = time.time()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(BUILD, "run"))
    try:
        sys.exit(explore(prop, tier, a, work, t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, a, work, t0):
    exe = build(work)
    os.environ["FXD_CONSTANTS"] = constants()
    until = t0 + DEADLINE[tier]
    jobs = []
    programs = []
    for profile, quick, thorough, per in PLAN[prop]:
        n = quick if tier == "quick" else thorough
        if profile.startswith("@"):
            if n and not a.no_models:
                programs.append((profile, n, per))
            continue
        size = int(subprocess.run([exe, "size", "--profile", profile], stdout=subprocess.PIPE, text=True).stdout)
        n = int(n * a.scale) if n else size
        if size:
            n = min(n, size)
        lo = 0
        while lo < n:
            hi = min(n, lo + per)
            jobs.append((profile, a.seed, lo, hi))
            lo = hi
    total = dict(events=0, hist=0, rejected=0, generated=0, distinct=0)
    kinds, bad, lost, errors, per_profile, samples = {}, [], [], [], {}, []
    complete = []

    def one(job):
        i, args = job
        trace = os.path.join(work, "t%d.ndjson" % i)
        gone = generate(exe, args, trace, prop, until)
        # the same histories with the library built as users build it: judged as well when they differ
        if len(LOST) < ENOUGH:
            gone += generate(exe + ".plain", args, trace + ".plain", prop, until)
            if differ(trace, trace + ".plain"):
                join(trace, trace + ".plain")
            os.unlink(trace + ".plain")
        if os.path.getsize(trace) == 0:
            res = {"events": 0, "hist": 0, "rejected": 0, "rejects": [], "kinds": {}, "generated": 0, "distinct": 0}
        else:
            res = validate(trace, prop, work)
        found = []
        pick = None
        if "error" not in res:
            want = {}
            for h, l, ids in res["rejects"]:
                want.setdefault(h, []).append((l, ids))
            with open(trace) as f:
                for k, line in enumerate(f):
                    if want or k == 0:
                        d = json.loads(line)
                        if k == 0:
                            pick = (args, describe(d, None, limit=12))
                        for l, ids in want.pop(d["h"], []):
                            found.append({"profile": args[0], "seed": args[1], "h": d["h"] % PLAIN, "plain": d["h"] >= PLAIN, "l": l, "ids": ids,
                                          "text": describe(d, l), "event": d["ev"][l - 1]})
                            if len(args) > 4:
                                found[-1]["program"] = open(args[4]).read().split("\n")[d["h"] % PLAIN]
        os.unlink(trace)
        return args, res, gone, found, pick

    models = [] if a.no_models else MODELS.get(prop, [])
    model_results = []

    def run_tlc(name, module, invs, consts, view, workers, heap):
        t = time.time()
        cfg = os.path.join(work, re.sub(r"\W", "_", name) + ".cfg")
        refuted = [i[1:] for i in invs if i.startswith("!")]       # invariants this model must violate
        config(cfg, consts, refuted or invs, view)
        code, out = tlc(cfg, module + ".tla", work, {}, heap=heap, workers=workers,
                        extra=("-seed", str(a.seed), "-fp", "1"))
        st = STATES.findall(out)
        ok = code == 0 and "No error has been found" in out
        if refuted:
            ok = "Invariant %s is violated" % refuted[0] in out
        res = {"model": module, "cfg": "%s: %s" % (name, " ".join(invs)), "constants": consts, "ok": ok,
               "states": int(st[-1][1]) if st else 0, "transitions": int(st[-1][0]) if st else 0,
               "wall_s": round(time.time() - t, 1), "out": "" if ok else out[-2500:]}
        return res, out

    def model(k):
        module, invs, quick, thorough = models[k]
        return run_tlc("%s.%d" % (module, k), module, invs, quick if tier == "quick" else thorough, False,
                       2 if tier == "quick" else 4, "3g")[0]

    def program(p):
        """TLC writes the programs of a model; they become jobs of the driver"""
        name, limit, per = p
        module, invs, quick, thorough = GEN[name]
        # campaigns over many changes of the code explore a model once (never set by a registered command)
        cache = os.environ.get("CHECK_PROGRAM_CACHE")
        kept = cache and os.path.join(cache, "%s.%s.%s.json" % (name[1:], tier, a.seed))
        if kept and os.path.exists(kept):
            with open(kept) as f:
                res, out = json.load(f)
        else:
            res, out = run_tlc(name, module, invs, quick if tier == "quick" else thorough, True,
                               1 if tier == "quick" else 4, "3g")
            if kept:
                with open(kept, "w") as f:
                    json.dump([res, out], f)
        lines = sorted(set(re.findall(r'^"PROG (.*)"$', out, re.M)))
        res["programs"] = len(lines)
        if limit > 0 and len(lines) > limit:
            # an even sample, another for every seed
            step = len(lines) / limit
            lines = [lines[int((k + a.seed * 0.618 % 1) * step)] for k in range(limit)]
        res["programs_run"] = len(lines)
        path = os.path.join(work, name[1:] + ".prog")
        with open(path, "w") as f:
            f.write("\n".join(lines))
        return res, [(name, a.seed, lo, min(lo + per, len(lines)), path) for lo in range(0, len(lines), per)]

    with cf.ThreadPoolExecutor(WORKERS) as pool:
        pf = [pool.submit(program, p) for p in programs]
        mf = [pool.submit(model, k) for k in range(len(models))]
        first = [pool.submit(one, j) for j in enumerate(jobs)]
        more = []
        for f in pf:
            res, extra = f.result()
            model_results.append(res)
            more += extra
        rest = [pool.submit(one, j) for j in enumerate(more, len(jobs))]
        for args, res, gone, found, pick in (f.result() for f in first + rest):
            lost += gone
            if "error" in res:
                errors.append((args, res["error"]))
                continue
            for k in total:
                total[k] += res[k]
            for k, n in res["kinds"].items():
                kinds[k] = kinds.get(k, 0) + n
            p = per_profile.setdefault(args[0], {"histories": 0, "events": 0})
            p["histories"] += res["hist"]
            p["events"] += res["events"]
            bad += found
            if pick and len(samples) < 4 and pick[0][0] not in [s["profile"] for s in samples]:
                samples.append({"profile": pick[0][0], "history": pick[0][2], "steps": pick[1]})
        model_results += [f.result() for f in mf]

    for m in model_results:
        if not m["ok"]:
            print(m["out"])
            errors.append((m["model"], "the specification itself fails its own check"))
    # histories that hung or crashed belong to the properties of the operation
    for g in lost:
        op = re.search(r'"o":"(\w+)"', g["head"])
        owners = HANG_OWNERS.get(op.group(1) if op else "", None)
        if owners is None or prop in owners or prop == "all":
            bad.append(dict(g, ids=[prop if prop != "all" else "lost"], text=["%s: %s" % ("hang" if g["hang"] else "crash", g["head"][:300])],
                            event={"o": op.group(1) if op else "?"}))
    if prop == "all":
        tally = {}
        for b in bad:
            for i in b["ids"]:
                tally.setdefault(i, []).append(b)
        for i in sorted(tally):
            print(i, len(tally[i]))
            for b in tally[i][:3]:
                print("    %s h=%d l=%d  %s" % (b["profile"], b["h"], b["l"], b["text"][-1]))
    known = known_findings()
    new, seen = [], set()
    for b in bad:
        k = [x for x in known if x[0] == prop and x[1] in b["text"][-1]]
        if k:
            if k[0][1] not in seen:
                seen.add(k[0][1])
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
        else:
            new.append(b)
    wall = time.time() - t0
    write_evidence(prop, tier, a, total, kinds, per_profile, samples, model_results, new, wall)
    print("%s %s: %d histories, %d steps, %d rejected; models: %s; %.1f s" % (
        prop, tier, total["hist"], total["events"], total["rejected"],
        ", ".join("%s %d states%s" % (m["cfg"].split(":")[0], m["states"],
                                          ", %d programs" % m["programs_run"] if "programs_run" in m else "")
                  for m in model_results) or "none", wall))
    if CUT:
        print("%d jobs not finished within %d s" % (len(CUT), DEADLINE[tier]))
    if new:
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, new[0]["profile"], new[0]["h"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "constants": os.environ["FXD_CONSTANTS"], **new[0], "others": [b["text"][-1] for b in new[1:20]]}, f, indent=1)
        for line in new[0]["text"]:
            print("   ", line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for args, e in errors[:3]:
            print("check error in", args, ":\n", e)
        return 2
    return 0


def write_evidence(prop, tier, a, total, kinds, per_profile, samples, models, new, wall):
    if prop == "all":
        return
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": total["distinct"] + sum(m["states"] for m in models),
            "transitions": total["events"] + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": total["hist"],
            "steps_validated_against_impl": total["events"],
            "trace_states": total["distinct"],
            "steps_by_kind": kinds,
            "profiles": per_profile,
            "jobs_cut_short": len(CUT),
            "models": [{k: m[k] for k in ("model", "cfg", "constants", "states", "transitions", "programs", "programs_run",
                                           "wall_s") if k in m} for m in models],
            "samples": samples,
        },
        "assumptions": [
            "TLC, and the Java override of BigNat (checked against the TLA+ definitions by MC_BigNat)",
            "the driver records faithfully what the library returned (values are read through the Debug form if "
            "it shows them as expected, else through to_string)",
            "values outside the generated families are not explored",
        ],
        "wall_s": round(wall, 1),
        "violations": len(new),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay.", dir=os.path.join(BUILD, "run"))
    try:
        exe = build(work) + (".plain" if r.get("plain") else "")
        os.environ["FXD_CONSTANTS"] = r.get("constants", "")
        trace = os.path.join(work, "t.ndjson")
        args = (r["profile"], r["seed"], r["h"], r["h"] + 1)
        if "program" in r:
            path = os.path.join(work, "p.prog")
            with open(path, "w") as f:
                f.write(r["program"])
            args = (r["profile"], r["seed"], 0, 1, path)
        gone = generate(exe, args, trace, r["property"], time.time() + 300)
        if gone:
            print("history ends:", gone[0]["head"])
            sys.exit(1)
        res = validate(trace, r["property"], work)
        if "error" in res:
            die(res["error"])
        d = json.loads(open(trace).readline())
        for line in describe(d, None):
            print("  ", line)
        for h, l, ids in res["rejects"]:
            print("rejected step %d: %s  %s" % (l, ids, describe(d, l)[-1]))
        sys.exit(1 if res["rejects"] else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
