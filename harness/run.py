#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--group G] [--replay FILE] -- see DESIGN.md"""
import argparse
import glob
import importlib
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MAGPI_REPO", "/repo")
PY = "/opt/venv/bin/python"
N_X64, N_F32 = 6, 2
SOFT = dict(quick=300, thorough=3000)
HARD = dict(quick=840, thorough=3600 * 3)
HANG = 180  # seconds of this process's own CPU time that a single case may take (they take well below 10)


def worker_env(mode):
    env = dict(os.environ)
    env.update(JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1" if mode == "x64" else "0", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", PYTHONWARNINGS="ignore",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NPROC="1", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), "hyp-none"))
    env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    env.pop("PYTHONPATH", None)
    env.pop("JAX_COMPILATION_CACHE_DIR", None)
    return env


def setup_paths():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if importlib.util.find_spec("hypothesis") is None:
        for d in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if os.path.isdir(os.path.join(d, "hypothesis")):
                # appended last: everything MagPI uses still comes from /opt/venv
                sys.path.append(d)
                break
        else:
            sys.exit("hypothesis is not available")


def load(pid):
    import warnings
    warnings.filterwarnings("ignore")
    import magpi
    root = os.path.realpath(REPO) + "/"
    if not os.path.realpath(magpi.__file__).startswith(root):
        sys.exit(f"magpi imported from {magpi.__file__}, expected {root}")
    return importlib.import_module(f"props.{pid.lower()}")


def write(a, out):
    tmp = a.out + ".tmp"
    with open(tmp, "w") as h:
        json.dump(out, h)
    os.replace(tmp, a.out)


def watch(a, core, out):
    """A case that keeps computing for HANG seconds does not terminate: report it and end this worker."""
    while True:
        time.sleep(2)
        c = dict(core.CURRENT)
        if c["case"] is not None and time.process_time() - c["cpu"] > HANG and time.time() - c["wall"] > HANG and core.CURRENT["case"] is c["case"]:
            out["violations"].append(dict(property=a.id, group=c["group"], mode=a.mode, tier=a.tier, seed=a.seed, shard=a.shard, case=c["case"],
                                          message=f"no result after {HANG} s of computing: does not terminate", reproduced=None))
            write(a, out)
            os._exit(0)


def worker(a):
    setup_paths()
    os.environ.update(HARNESS_TIER=a.tier, HARNESS_SHARD=str(a.shard), HARNESS_SEED=str(a.seed))
    import core
    mode = a.mode
    mod = load(a.id)
    t0 = time.time()
    deadline = t0 + SOFT[a.tier]
    ctx = core.Ctx()
    out = dict(groups={}, violations=[], labels={}, points=0)
    threading.Thread(target=watch, args=(a, core, out), daemon=True).start()
    groups = [g for g in mod.GROUPS if not a.group or g.name in a.group.split(",")]
    # regression inputs first: shrunk cases of defects found earlier
    if a.shard in (0, N_X64):
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", a.id, "*.json"))):
            r = json.load(open(f))
            g = next((g for g in groups if g.name == r["group"]), None)
            if g is None or r.get("mode", "x64") != mode:
                continue
            msg = core.run_case(g, r["case"], ctx)
            out["regress"] = out.get("regress", 0) + 1
            if msg:
                out["violations"].append(dict(property=a.id, group=g.name, mode=mode, tier=a.tier, seed=a.seed,
                                              shard=a.shard, case=r["case"], message=msg, reproduced=True,
                                              regression=os.path.basename(f)))
    for g in groups:
        if mode not in g.modes or not g.n[a.tier]:
            continue
        shards = (N_X64 if "x64" in g.modes else 0) + (N_F32 if "f32" in g.modes else 0)
        n = max(1, -(-int(g.n[a.tier] * a.factor) // shards))
        t1 = time.time()
        res = core.run_group(a.id, g, a.tier, a.seed, a.shard, n, deadline, ctx, mode)
        res["distinct"] = sorted(res["distinct"])
        res["wall_s"] = round(time.time() - t1, 2)
        v = res.pop("violation")
        if v:
            out["violations"].append(v)
        out["groups"][g.name] = res
        if v and len(out["violations"]) >= 2:
            break
    out["labels"], out["points"] = ctx.labels, ctx.points
    out["wall_s"] = time.time() - t0
    write(a, out)


def replay(a):
    r = json.load(open(a.replay))
    if not a.inner:
        cmd = [PY, os.path.abspath(__file__), r["property"], "--replay", os.path.abspath(a.replay), "--inner"]
        sys.exit(subprocess.call(cmd, env=worker_env(r.get("mode", "x64"))))
    setup_paths()
    import core
    mod = load(r["property"])
    g = next(g for g in mod.GROUPS if g.name == r["group"])
    msg = core.run_case(g, r["case"], core.Ctx())
    print(json.dumps(r["case"]))
    print("REPLAY", r["property"], r["group"], "violates: " + msg if msg else "holds")
    sys.exit(1 if msg else 0)


def known_findings():
    """Lines 'known: property=<id> group=<g> match=<substring> <what fails>' suppress exactly that failure."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = dict(p.split("=", 1) for p in line[7:].split() if "=" in p)
                out.append((f, line.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--group", default="")
    ap.add_argument("--factor", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--inner", action="store_true")
    ap.add_argument("--shard", type=int, default=-1)
    ap.add_argument("--mode", default="x64")
    ap.add_argument("--out")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in SOFT:
        a.tier = "quick"
    if a.replay:
        return replay(a)
    if a.out:
        return worker(a)

    t0 = time.time()
    # never run stale bytecode of the code under test (ignored by git, build.sh does the same)
    shutil.rmtree(os.path.join(REPO, "magpi", "__pycache__"), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        for s in range(N_X64 + N_F32):
            mode = "x64" if s < N_X64 else "f32"
            out = os.path.join(tmp, f"{s}.json")
            cmd = [PY, os.path.abspath(__file__), a.id, "--tier", a.tier, "--seed", str(a.seed), "--shard", str(s),
                   "--mode", mode, "--out", out, "--factor", str(a.factor)]
            if a.group:
                cmd += ["--group", a.group]
            log = open(os.path.join(tmp, f"{s}.log"), "w")
            procs.append((s, mode, out, log, subprocess.Popen(cmd, stdout=log, stderr=log, env=worker_env(mode), cwd=tmp)))
        errors, results = [], []
        for s, mode, out, log, p in procs:
            left = HARD[a.tier] - (time.time() - t0)
            try:
                rc = p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "timeout"
            log.close()
            if rc != 0 or not os.path.exists(out):
                text = open(log.name).read()[-3000:]
                errors.append(f"worker {s} ({mode}) ended with {rc}:\n{text}")
            else:
                results.append((s, mode, json.load(open(out))))
        return finish(a, t0, results, errors)
    finally:
        for *_, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def finish(a, t0, results, errors):
    sys.path.insert(0, HERE)
    groups, labels, violations, points, regress = {}, {}, [], 0, 0
    for s, mode, r in results:
        violations += r["violations"]
        points += r["points"]
        regress += r.get("regress", 0)
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for g, x in r["groups"].items():
            d = groups.setdefault(g, dict(evaluations=0, distinct=set(), samples=[], truncated=False, wall=0.0))
            d["evaluations"] += x["evaluations"]
            d["distinct"] |= {(mode, h) for h in x["distinct"]}
            d["samples"] += [dict(group=g, mode=mode, case=c) for c in x["samples"]]
            d["truncated"] |= x["truncated"]
            d["wall"] = max(d["wall"], x["wall_s"])
    violations.sort(key=lambda v: len(json.dumps(v["case"])))
    known = known_findings()
    fresh, seen_known = [], {}
    for v in violations:
        hit = next((line for f, line in known if f.get("property") == a.id and f.get("group") == v["group"]
                    and f.get("match", "\0") in v["message"]), None)
        if hit:
            seen_known[hit] = v
        else:
            fresh.append(v)

    spec = {}
    meta = os.path.join(HERE, "meta.json")
    if os.path.exists(meta):
        spec = json.load(open(meta)).get(a.id, {})
    samples = []
    for g in groups.values():
        samples += g["samples"][-2:]
    ev = dict(
        property=a.id, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(g["evaluations"] for g in groups.values()),
            distinct_nontrivial=sum(len(g["distinct"]) for g in groups.values()),
            rule=spec.get("rule", "Hypothesis-generated cases; non-trivial unless skipped or degenerate"),
            samples=samples[:12],
            regression_inputs=regress,
            point_evaluations=points,
            groups={k: dict(evaluations=g["evaluations"], distinct_nontrivial=len(g["distinct"]),
                            truncated_by_time=g["truncated"], slowest_shard_s=g["wall"]) for k, g in groups.items()},
            labels=dict(sorted(labels.items())),
            modes=f"{N_X64} shards float64, {N_F32} shards float32",
        ),
        assumptions=spec.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not a.no_evidence and not a.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.id}.json"), "w") as h:
            json.dump(ev, h, indent=1)
    if a.v:
        print(json.dumps(ev["coverage"]["groups"], indent=1))
        print(json.dumps(ev["coverage"]["labels"]))
    for line, v in seen_known.items():
        print(f"KNOWN-FINDING: property={a.id} {line[7:]}")
    printed = set()
    for v in fresh:
        key = (v["group"], v["message"][:40])
        if key in printed:
            continue
        printed.add(key)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        import core
        path = os.path.join(VERIF, "replays", f"{a.id}-{v['group']}-{core.chash(v['case'])}.json")
        with open(path, "w") as h:
            json.dump(v, h, indent=1)
        print(f"VIOLATION property={a.id} replay={path}")
        print(f"  group={v['group']} mode={v['mode']} reproduced={v['reproduced']}: {v['message']}")
        print(f"  case: {json.dumps(v['case'])[:2000]}")
    print(f"{a.id} {a.tier} seed={a.seed}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, {points} point evaluations, "
          f"{len(fresh)} violations, {ev['wall_s']} s")
    if fresh:
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
