#!/usr/bin/env python3
"""Write /verif/seeded from seeds_*.py and try the bugs. usage: gen.py write|try|check [id...]"""
import os, subprocess, sys, json, shutil, time
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import importlib
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith("seeds_")): importlib.import_module(m)
from seeds_a import SEEDS
REPO, OUT = "/repo", "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(id):
    s = SEEDS[id]; d = f"{OUT}/{id}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d + "/src")
    t = f"/tmp/seedgen{os.getpid()}"; sh(f"rm -rf {t}; git -C {REPO} worktree prune; git clone -q {REPO} {t}")
    for f, old, new in s["edits"]:
        p = f"{t}/{f}"; x = open(p).read()
        assert x.count(old) == 1, (id, f, x.count(old), old[:60])
        open(p, "w").write(x.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(f"git -C {t} diff").stdout)
    sh(f"rm -rf {t}")
    shutil.copy(here + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/verif/harness/Cargo.lock", d)
    os.makedirs(d + "/mc/src")
    shutil.copy("/verif/mc/Cargo.toml", d + "/mc")
    for f in os.listdir("/verif/mc/src"): shutil.copy(f"/verif/mc/src/{f}", d + "/mc/src")
    shutil.copy(here + "/support.rs", d + "/src")
    open(d + "/src/main.rs", "w").write("mod support;\n#[allow(unused_imports)]\nuse bellpepper_core::ConstraintSystem;\n#[allow(unused_imports)]\nuse mc::XField;" + s["main"].replace("use bellpepper_core::ConstraintSystem as _;\n", ""))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def attempt(id):
    W = os.environ.get("W", ""); t = "/tmp/seedtry" + W
    if not os.path.isdir(t): sh(f"cp -a {REPO} {t}")
    sh(f"git -C {t} checkout -q -- . && git -C {t} fetch -q {REPO} HEAD && git -C {t} reset -q --hard FETCH_HEAD")
    env = dict(os.environ, DEMO_TARGET="/tmp/seedtarget" + W)
    a = sh(f"cd {t} && {OUT}/{id}/demo.sh", env=env)
    p = sh(f"git -C {t} apply {OUT}/{id}/patch.diff")
    if p.returncode: return print(id, "PATCH FAILS", p.stdout)
    b = sh(f"cd {t} && {OUT}/{id}/demo.sh", env=env)
    c = sh(f"sed 's#cd /repo#cd {t}#' /opt/vp/env.sh > /tmp/seedenv{W}.sh; . /tmp/seedenv{W}.sh; cargo test --workspace --offline 2>&1 | grep -E '^test result|FAILED|panicked|^error' | head -20", executable="/bin/bash")
    ok = sum(int(l.split()[3]) for l in c.stdout.splitlines() if l.startswith("test result: ok"))
    bad = "FAILED" in c.stdout or "error" in c.stdout
    verdict = "good" if a.returncode == 0 and b.returncode == 1 and ok == 36 and not bad else "BAD"
    print(f"{id}: {verdict} demo {a.returncode} -> {b.returncode}; tests {ok}{' FAIL' if bad else ''} | {a.stdout.strip()[-200:]} | {b.stdout.strip()[-300:]}", flush=True)
    if verdict == "BAD": print(c.stdout[-600:])
def check(id, all_=False):
    s = SEEDS[id]
    p = sh(f"git -C {REPO} apply {OUT}/{id}/patch.diff")
    if p.returncode: return print(id, "PATCH FAILS", p.stdout)
    try:
        for c in ([s["prop"]] if not all_ else [f"C{i:02}" for i in range(1, 29)]):
            t0 = time.time()
            r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {c} quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{id}: {c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'missed'} {time.time()-t0:.0f}s {v[:1]}", flush=True)
    finally:
        sh(f"git -C {REPO} checkout -- .")
ids = sys.argv[2:] or list(SEEDS)
for i in ids:
    {"write": write, "try": attempt, "check": check, "all": lambda i: check(i, True)}[sys.argv[1]](i)
