#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy (never in /repo) and says which checks see them.

  try_seeds.py confirm ID...   patch applies, builds, stable tests pass, demo 0 without / nonzero with it
  try_seeds.py detect [all] ID...   runs the check of the change's property (or all checks) on the changed copy
"""
import json, os, subprocess, sys, pathlib, shutil
V = pathlib.Path(__file__).resolve().parent.parent
W = pathlib.Path(os.environ.get("SW", "/tmp/sw"))
REPO = W / "repo"
ENV = dict(os.environ, CARGO_TARGET_DIR=str(W / "target"), CARGO_NET_OFFLINE="true")
def sh(c, cwd, env=ENV, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=env, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def fresh():
    W.mkdir(exist_ok=True)
    if not REPO.exists():
        subprocess.run(["git", "clone", "-q", "/repo", str(REPO)], check=True)
    subprocess.run("git fetch -q origin && git checkout -q -f FETCH_HEAD 2>/dev/null || git checkout -q -f origin/HEAD; git clean -qfd", shell=True, cwd=REPO, check=True)
    if not (REPO / 'Cargo.lock').exists():
        shutil.copy('/repo/Cargo.lock', REPO)
def apply(i):
    fresh()
    r, o = sh(f"git apply {V}/seeded/{i}/patch.diff", REPO)
    assert r == 0, o
def confirm(i):
    d = V / "seeded" / i
    fresh()
    demo = W / "demo" / i
    if demo.exists():
        shutil.rmtree(demo)
    shutil.copytree(d, demo)
    for f in ["patch.diff", "meta.json"]:
        (demo / f).unlink()
    env = {k: v for k, v in ENV.items() if k != "CARGO_TARGET_DIR"}
    r0, o0 = sh(f"bash {demo}/demo.sh", REPO, env, 300)
    apply(i)
    rb, ob = sh("cargo test --workspace --no-run --offline -q", REPO)
    rt, ot = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", REPO)
    r1, o1 = sh(f"bash {demo}/demo.sh", REPO, env, 300)
    ok = r0 == 0 and rb == 0 and rt == 0 and r1 != 0
    print(f"{i}: {'ok' if ok else 'BAD'} demo without {r0}, build {rb}, tests {rt}, demo with {r1}: {o1.strip().splitlines()[-1:] if o1 else ''}", flush=True)
    if not ok:
        print(*(x for x in (r0 and o0[-1500:], rb and ob[-1500:], rt and '\n'.join(l for l in ot.splitlines() if 'FAILED' in l or 'panicked' in l)[:1500]) if x), sep="\n---\n")
    fresh()
def detect(i, props):
    apply(i)
    C = W / "verif"
    C.mkdir(exist_ok=True)
    sh(f"cp -r {V}/mc {V}/check.sh {V}/known_findings.txt {V}/properties.jsonl {C}/ && mkdir -p {C}/evidence && sed -i 's#\"/repo/#\"{REPO}/#' mc/Cargo.toml && grep -rl '/repo/' mc/src | xargs -r sed -i 's#/repo/#{REPO}/#g'", C)
    env = {k: v for k, v in ENV.items() if k != "CARGO_TARGET_DIR"}
    p = json.loads((V / "seeded" / i / "meta.json").read_text())["property"]
    hit = []
    for q in props or [p]:
        r, o = sh(f"./check.sh {q} quick", C, env)
        if r == 1 and f"VIOLATION property={q} " in o:
            hit.append(q)
        elif r != 0:
            hit.append(f"{q}?{r}:{o[-300:]}")
        if q == p:
            own = (r, [l for l in o.splitlines()][:3])
            if r == 1:
                with open(W / "detected.txt", "a") as f:
                    f.write(f"{i}\t{p}\t{o.splitlines()[0][:300]}\n")
    print(f"{i}: {p} {'CAUGHT' if p in hit else 'MISSED'} {own if p not in hit or not props else ''} {' '.join(hit) if props else ''}", flush=True)
    fresh()
a = sys.argv[1:]
mode = a.pop(0)
props = None
if a and a[0] == "all":
    a.pop(0)
    props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
if not a:
    a = sorted(x.name for x in (V / "seeded").iterdir())
for i in a:
    confirm(i) if mode == "confirm" else detect(i, props)
