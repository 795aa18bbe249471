"""Runs one shard of one sub-check: python -m rv.worker PROP SUB SHARD NSHARDS TIER SEED OUT"""

import importlib
import json
import os
import pickle
import base64
import resource
import shutil
import sys
import tempfile
import time
import traceback

from . import boot, core, cov

_ = boot


def load_prop(pid):
    return importlib.import_module(f"rv.props.{pid.lower()}").PROP


def quiet():
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import dask

    dask.config.set(scheduler="synchronous")
    import numpy as np

    np.seterr(all="ignore")


def encode_case(case):
    return base64.b64encode(pickle.dumps(case, protocol=4)).decode()


def short_repr(case, n=1200):
    r = repr(case)
    return r if len(r) <= n else r[: n - 20] + f"...<{len(r)} chars>"


def main(argv):
    pid, subname, shard, nshards, tier, seed, out = argv
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    limit = int(os.environ.get("RV_MEM_GB", "8")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    scratch = tempfile.mkdtemp(prefix=f"rv-{pid}-{subname}-")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    res = dict(
        sub=subname,
        shard=shard,
        evaluations=0,
        rejected=0,
        hashes=[],
        labels={},
        samples=[],
        violation=None,
        error=None,
    )
    t0 = time.time()
    covered = cov.start()
    try:
        quiet()
        prop = load_prop(pid)
        quiet()
        sub = prop.subs[subname]
        total = sub.thorough if tier == "thorough" else sub.quick
        n = total // nshards + (1 if shard < total % nshards else 0)
        if os.environ.get("RV_SCALE"):
            n = max(1, int(n * float(os.environ["RV_SCALE"])))
        explore(sub, n, (seed * 1000003 + shard * 7919) & 0x7FFFFFFF, scratch, res, out)
    except core.HarnessError as e:
        res["error"] = str(e)
    except BaseException:
        res["error"] = traceback.format_exc()[-4000:]
    res["wall_s"] = time.time() - t0
    covered(f"{pid}-{subname}-{shard}")
    shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)  # no interpreter teardown: lazily opened files may still be referenced


def explore(sub, n, seed, scratch, res, out):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings

    engine.MAX_SHRINKING_SECONDS = 90
    seen = set()
    labels = {}
    last_failure = {}
    first_failure = {}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(sub.strategy())
    def test(case):
        if sub.guard:
            with open(out + ".case", "w") as f:
                json.dump({"case": encode_case(case), "repr": short_repr(case, 4000)}, f)
        try:
            ctx = core.run_case(sub, case, scratch)
        except core.Reject:
            res["rejected"] += 1
            hypothesis.assume(False)
        except core.Violation as e:
            e.__cause__ = None
            e.__context__ = None
            for d in (last_failure,) if first_failure else (last_failure, first_failure):
                d.update(case=case, key=e.key, msg=e.msg)
            raise
        finally:
            core.maybe_gc()
        res["evaluations"] += 1
        h = core.case_hash(case)
        for lab in ctx.labels:
            labels[lab] = labels.get(lab, 0) + 1
        if ctx.is_nontrivial and h not in seen:
            seen.add(h)
            if len(res["samples"]) < 2 or (len(res["samples"]) < 3 and len(seen) % 7 == 0):
                res["samples"].append(short_repr(case, 900))

    try:
        test()
    except core.Violation:
        f = last_failure
        res["violation"] = dict(
            key=f["key"], msg=f["msg"][:4000], case=encode_case(f["case"]), repr=short_repr(f["case"], 4000)
        )
    except core.HarnessError:
        raise
    except Exception as e:
        if first_failure:
            # e.g. hypothesis Flaky: the failure was observed, but depends on history
            f = first_failure
            res["violation"] = dict(
                key=f["key"],
                msg=f"(observed once; {type(e).__name__} while shrinking) " + f["msg"][:4000],
                case=encode_case(f["case"]),
                repr=short_repr(f["case"], 4000),
            )
        else:
            raise
    res["hashes"] = sorted(seen)
    res["labels"] = labels


if __name__ == "__main__":
    main(sys.argv[1:])
