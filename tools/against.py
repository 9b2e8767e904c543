"""Runs the check of each planted change's property (or --all-checks) against it, in scratch copies.

    python3 tools/against.py [--jobs N] [--props C01,C02|own] [id ...]

Prints which changes are caught. Nothing in /repo or /verif is touched.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--dir", default=os.path.join(ROOT, "seeded"))
    ap.add_argument("--props", default="own")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(a.dir))
    work = tempfile.mkdtemp(prefix="against.", dir="/tmp")
    try:
        repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
        run(["git", "clone", "-q", "/repo", repo])
        if not os.path.exists(os.path.join(repo, "Cargo.lock")):
            shutil.copy("/repo/Cargo.lock", repo)
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "run"))
        t = os.path.join(ver, "driver", "Cargo.toml")
        s = open(t).read().replace('"/repo"', '"%s"' % repo)
        open(t, "w").write(s)
        missed = []
        for i in ids:
            d = os.path.join(a.dir, i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            props = [meta["property"]] if a.props == "own" else a.props.split(",")
            run(["git", "checkout", "-q", "--", "."], cwd=repo)
            r = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout)
                continue
            for p in props:
                t0 = time.time()
                r = run([sys.executable, "check.py", p, "--tier", a.tier, "--seed", a.seed], cwd=ver)
                hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
                m = re.search(r"(\d+) rejected", r.stdout)
                print("%-36s %s %-7s rejected=%s %.0fs%s" % (i, p, "caught" if hit else "MISSED", m.group(1) if m else "?",
                      time.time() - t0, "" if r.returncode in (0, 1) else "\n" + r.stdout[-800:]), flush=True)
                if not hit:
                    missed.append((i, p))
        print("missed:", missed)
    finally:
        shutil.rmtree(work)


main()
