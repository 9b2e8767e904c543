#!/usr/bin/env python3
"""Mutation campaign: makes small syntactic changes to the library in scratch copies, keeps those that
build and pass the repository's own tests, and runs the checks ("all" mode) against them.

    python3 tools/mutate.py OUT.jsonl [--jobs N] [--scale X] [--files a.rs,b.rs] [--sample N] [--seed N]

Each line of OUT tells one change and whether it was noticed. Survivors are looked at by hand: they either
change no behaviour or show what the checks do not explore.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["arith.rs", "round.rs", "serde.rs", "decimal.rs", "cmp.rs", "utils.rs"]

SWAPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
         (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]),
         (r" -= ", [" += "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" && ", [" || "]),
         (r" \|\| ", [" && "]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
         (r"Ordering::Less\b", ["Ordering::Greater", "Ordering::Equal"]), (r"Ordering::Greater\b", ["Ordering::Less"]),
         (r"Ordering::Equal\b", ["Ordering::Less"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"if !", ["if "]),
         (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\bliu\b", ["riu"]), (r"\briu\b", ["liu"]),
         (r"\blfu\b", ["rfu"]), (r"\brfu\b", ["lfu"]), (r"\bMAX_UNITS\b", ["(MAX_UNITS - 1)"]),
         (r"\bMAX_FRAC_UNITS\b", ["(MAX_FRAC_UNITS + 1)", "(MAX_FRAC_UNITS - 1)"]),
         (r"intg_units_non_zero\(\)", ["intg_units()"]), (r"intg_non_zero\(\)", ["intg() as usize"]),
         (r"set_neg_and_check_zero", ["set_neg"]), (r"\bUNIT\b", ["(UNIT - 1)"]), (r"HALF_UNIT", ["(HALF_UNIT - 1)"]),
         (r"\.\.=", [".."]), (r"(?<=[\w\)])\.\.(?=[\w\(])", ["..="])]


def mutants(src):
    body = src.split("#[cfg(test)]")[0]
    lines = body.split("\n")
    out = []
    for i, ln in enumerate(lines):
        st = ln.strip()
        if not st or st.startswith(("//", "use ", "#[", "pub use", "mod ", "pub fn", "fn ", "impl", "pub const", "const")):
            continue
        code = ln.split("//")[0]
        if "assert" in code or "panic!" in code:
            continue
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    out.append((i, ln, ln[:m.start()] + r + ln[m.end():]))
        for m in re.finditer(r"(?<![\w.])\d[\d_]*(?![\w.])", code):
            v = int(m.group().replace("_", ""))
            for w in (v + 1, v - 1):
                if w >= 0:
                    out.append((i, ln, ln[:m.start()] + str(w) + ln[m.end():]))
        if st.endswith(";") and not st.startswith(("let ", "return", "}", "break", "continue")) and st.count("(") == st.count(")"):
            out.append((i, ln, ln[:len(ln) - len(ln.lstrip())] + "();"))
        m = re.match(r"^(\s*(?:\} else )?if )(.*)( \{)$", ln)
        if m and "let " not in m.group(2):
            out.append((i, ln, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
            out.append((i, ln, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
    return out, lines


def run(cmd, timeout, **k):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--scale", default="0.4")
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--prop", default="all")
    a = ap.parse_args()
    todo = []
    for f in a.files.split(","):
        src = open("/repo/src/" + f).read()
        ms, _ = mutants(src)
        todo += [(f, i, old, new) for i, old, new in ms]
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    seen = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            seen.add((d["file"], d["line"], d["new"]))
    todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in seen]
    print(len(todo), "mutants")
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    cache = tempfile.mkdtemp(prefix="mutcache.", dir="/tmp")

    def worker(k):
        work = tempfile.mkdtemp(prefix="mut%d." % k, dir="/tmp")
        repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
        run(["git", "clone", "-q", "/repo", repo], 60)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", repo)
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "run", "target"))
        t = os.path.join(ver, "driver", "Cargo.toml")
        s = open(t).read().replace('"/repo"', '"%s"' % repo)
        open(t, "w").write(s)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"), CARGO_NET_OFFLINE="true")
        env2 = dict(os.environ, CHECK_PROGRAM_CACHE=cache, CHECK_WORKERS=str(max(1, 8 // a.jobs)))
        try:
            while True:
                try:
                    f, i, old, new = q.get_nowait()
                except queue.Empty:
                    return
                path = os.path.join(repo, "src", f)
                orig = open("/repo/src/" + f).read()
                lines = orig.split("\n")
                assert lines[i] == old
                lines[i] = new
                open(path, "w").write("\n".join(lines))
                rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new, "res": ""}
                code, out = run(["timeout", "-k", "1", "40", "cargo", "test", "--offline", "--lib", "-q"], 60, cwd=repo, env=env)
                if code != 0:
                    rec["res"] = "nobuild" if "could not compile" in out else "tests"
                else:
                    code, out = run([sys.executable, "check.py", a.prop, "--scale", a.scale], 600, cwd=ver, env=env2)
                    if code == 1:
                        rec["res"] = "caught"
                        rec["tally"] = re.findall(r"^(C\d\d) (\d+)$", out, re.M)
                    elif code == 0:
                        rec["res"] = "SURVIVED"
                    else:
                        rec["res"] = "error"
                        rec["out"] = out[-600:]
                open(path, "w").write(orig)
                with lock, open(a.out, "a") as g:
                    g.write(json.dumps(rec) + "\n")
        finally:
            shutil.rmtree(work, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
