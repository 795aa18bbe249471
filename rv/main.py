"""Entry point: runs a property's sub-checks in parallel and reports."""

import base64
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time

from . import boot, core
from .worker import load_prop, quiet, short_repr

VERIF = boot.VERIF
MAX_PROCS = int(os.environ.get("RV_PROCS", "8"))


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def write_replay(pid, sub, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = core.case_hash([pid, sub, v.get("case", "")])
    path = os.path.join(d, f"{pid}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub=sub, **v), f, indent=1)
    return path


def run(pid, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load_prop(pid)
    outdir = tempfile.mkdtemp(prefix=f"rvmain-{pid}-")
    tasks = []
    budget = 840 if tier == "quick" else 6 * 3600
    for sub in prop.subs.values():
        if only and sub.name not in only:
            continue
        shards = sub.shards if tier == "quick" else max(sub.shards, 4)
        for s in range(shards):
            tasks.append((sub, s, shards))
    # longest first
    running, results, errors = [], [], []
    pending = list(tasks)
    while pending or running:
        while pending and len(running) < MAX_PROCS:
            sub, s, n = pending.pop(0)
            out = os.path.join(outdir, f"{sub.name}-{s}.json")
            log = open(out + ".log", "w")
            p = subprocess.Popen(
                [
                    sub.python or sys.executable,
                    "-m",
                    "rv.worker",
                    pid,
                    sub.name,
                    str(s),
                    str(n),
                    tier,
                    str(seed),
                    out,
                ],
                stdout=log,
                stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL,
                start_new_session=True,
                cwd=VERIF,
            )
            running.append((p, sub, s, out))
        still = []
        for p, sub, s, out in running:
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > budget:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    errors.append(f"{sub.name}/{s}: time budget exceeded (inconclusive)")
                    continue
                still.append((p, sub, s, out))
                continue
            if os.path.exists(out):
                with open(out) as f:
                    results.append((sub, json.load(f)))
            else:
                with open(out + ".log") as f:
                    tail = f.read()[-2000:]
                if sub.guard and rc < 0 and rc != -signal.SIGKILL and os.path.exists(out + ".case"):
                    with open(out + ".case") as f:
                        c = json.load(f)
                    results.append(
                        (
                            sub,
                            dict(
                                sub=sub.name,
                                shard=s,
                                evaluations=1,
                                rejected=0,
                                hashes=[],
                                labels={},
                                samples=[],
                                error=None,
                                violation=dict(
                                    key=f"crash:signal{-rc}",
                                    msg=f"the process died with signal {-rc}: {tail[-800:]}",
                                    **c,
                                ),
                            ),
                        )
                    )
                else:
                    errors.append(f"{sub.name}/{s}: worker exit {rc}: {tail}")
        running = still
        time.sleep(0.02)

    evaluations = rejected = 0
    hashes = set()
    labels = {}
    samples = []
    per_sub = {}
    violations = []
    for sub, r in results:
        evaluations += r["evaluations"]
        rejected += r["rejected"]
        hashes.update(sub.name + h for h in r["hashes"])
        d = per_sub.setdefault(sub.name, dict(evaluations=0, distinct_nontrivial=0, rejected=0, labels={}, wall_s=0.0))
        d["evaluations"] += r["evaluations"]
        d["rejected"] += r["rejected"]
        d["wall_s"] = round(d["wall_s"] + r.get("wall_s", 0), 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if r["shard"] == 0:
            samples += [{"sub": sub.name, "case": s} for s in r["samples"]]
        if r["error"]:
            errors.append(f"{sub.name}/{r['shard']}: {r['error']}")
        if r["violation"]:
            violations.append((sub, r["violation"]))
    for h in hashes:
        for name in per_sub:
            pass
    for name, d in per_sub.items():
        d["distinct_nontrivial"] = len({h for s, r in results if s.name == name for h in r["hashes"]})
        d["labels"] = dict(sorted(d["labels"].items(), key=lambda kv: -kv[1])[:60])

    # Recorded defects: fixed inputs, each run once
    findings = [k for k in known_findings(pid) if k.get("status", "known") == "known"]
    known_lines = []
    if findings:
        quiet()
    for k in findings:
        probe = prop.probes.get(k["id"])
        if probe is None:
            errors.append(f"known finding {k['id']} has no probe")
            continue
        ctx = core.Ctx(outdir)
        try:
            probe(ctx)
        except core.Violation:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
        except Exception as e:
            errors.append(f"probe {k['id']}: {type(e).__name__}: {e}")
        finally:
            ctx.close()

    lines = []
    seen_keys = set()
    for sub, v in violations:
        k = (sub.name, v["key"])
        if k in seen_keys:
            continue
        seen_keys.add(k)
        path = write_replay(pid, sub.name, v)
        print(f"[{pid}/{sub.name}] {v['key']}: {v['msg'][:1500]}")
        print(f"  minimal case: {v['repr'][:1500]}")
        lines.append(f"VIOLATION property={pid} replay={path}")

    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(hashes),
            rule=prop.rule,
            samples=samples[:24],
            rejected=rejected,
            sub_checks=per_sub,
            known_findings_reproduced=len(known_lines),
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(lines),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    import shutil

    shutil.rmtree(outdir, ignore_errors=True)
    for line in known_lines:
        print(line)
    for e in errors[:3]:
        print(f"ERROR [{pid}] {e}")
    for line in lines:
        print(line)
    print(
        f"{pid} tier={tier} seed={seed} evaluations={evaluations} "
        f"distinct_nontrivial={len(hashes)} rejected={rejected} "
        f"violations={len(lines)} errors={len(errors)} wall={time.time() - t0:.1f}s"
    )
    for name, d in per_sub.items():
        print(f"   {name}: {d['evaluations']} evals, {d['distinct_nontrivial']} nontrivial, rej {d['rejected']}, {d['wall_s']}s cpu")
    sys.stdout.flush()
    if lines:
        return 1
    if errors:
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    quiet()
    prop = load_prop(r["property"])
    sub = prop.subs[r["sub"]]
    case = pickle.loads(base64.b64decode(r["case"]))
    print("case:", short_repr(case, 4000))
    root = tempfile.mkdtemp(prefix="rv-replay-")
    try:
        core.run_case(sub, case, root)
    except core.Violation as e:
        print(f"{e.key}: {e.msg}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    except core.HarnessError as e:
        print("ERROR", e)
        return 2
    print("holds on this case")
    return 0


def main():
    argv = sys.argv[1:]
    cmd = argv.pop(0)
    if cmd == "run":
        pid = argv.pop(0)
        tier = os.environ.get("VERIF_TIER", "quick")
        only = None
        while argv:
            a = argv.pop(0)
            if a == "--tier":
                tier = argv.pop(0)
            elif a == "--sub":
                only = argv.pop(0).split(",")
        rc = run(pid, tier, only)
    elif cmd == "replay":
        rc = replay(argv[0])
    elif cmd == "setup":
        import hypothesis
        import rsciio

        print("hypothesis", hypothesis.__version__, "rsciio from", rsciio.__file__)
        rc = 0
    else:
        print(__doc__)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
