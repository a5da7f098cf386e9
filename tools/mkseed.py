#!/usr/bin/env python3
"""Build and confirm planted bugs.

tools/seeds/*.py each define SEEDS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo)].   usage: mkseed.py ID [ID...] [--no-tests] [--check]
Everything runs in a scratch copy of /repo under /tmp; /repo is not touched.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


DEMO_SH = '''#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def tests(copy):
    """Run the suite in the copy; return set of passed ids."""
    out = os.path.join(copy, "..", "res.json")
    code, txt = sh(f"""sed -e 's#cd /repo#cd {copy}#' /opt/vp/test.sh > {copy}/../t.sh
PYTHONPATH={copy} bash {copy}/../t.sh {out}""")
    return json.load(open(out)), txt


def build(s, run_tests=True, run_check=True):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="seed_")
    copy = os.path.join(work, "repo")
    res = {}
    try:
        sh(f"git -C {REPO} worktree prune; git clone -q {REPO} {copy}")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].lstrip("\n"))
        for fn in s.get("files", []):  # stand-ins the demo imports, copied beside it
            shutil.copy(os.path.join(V, fn), os.path.join(d, os.path.basename(fn)))
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        code, txt = sh(f"bash {d}/demo.sh", cwd=copy)
        res["demo_clean"] = code
        if code:
            print(txt[-1500:])
        for fn, old, new in s["edits"]:
            p = os.path.join(copy, fn)
            src = open(p).read()
            assert src.count(old) == 1, (s["id"], fn, src.count(old), old)
            open(p, "w").write(src.replace(old, new))
        code, diff = sh("git diff", cwd=copy)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        code, txt = sh(f"bash {d}/demo.sh", cwd=copy)
        res["demo_bug"] = code
        res["demo_tail"] = txt.strip().splitlines()[-1:] if txt.strip() else []
        if run_tests:
            r, txt = tests(copy)
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = set(base if isinstance(base, list) else base.get("stable", base.get("passed", base.get("tests", []))))
            passed = set(r.get("passed", []))
            res["broken_tests"] = sorted(stable - passed)[:6]
        if run_check:
            env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(work, "ev"), VERIF_TIER="quick")
            code, txt = sh(f"./run.sh {s['property']} quick", cwd=V, env=env)
            res["check"] = code
            res["first"] = [l for l in txt.splitlines() if not l.startswith("VIOLATION")][:3]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ok = res["demo_clean"] == 0 and res["demo_bug"] != 0 and not res.get("broken_tests")
    print(("OK   " if ok else "BAD  ") + ("caught " if res.get("check") == 1 else "MISSED " if "check" in res else "") + s["id"], s["property"], json.dumps(res)[:900], flush=True)
    return ok


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    al = load()
    for i in args or list(al):
        if i.endswith("*"):
            ids = [k for k in al if k.startswith(i[:-1])]
        else:
            ids = [i]
        for k in ids:
            try:
                build(al[k], "--no-tests" not in sys.argv, "--no-check" not in sys.argv)
            except AssertionError as e:
                print("BAD  ", k, e)
