"""Runs one shard of one property: python -m pbt.worker SPEC.json"""

import importlib
import json
import os
import sys
import time
import traceback
import warnings

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    spec = json.load(open(sys.argv[1]))
    out = spec["out"]
    res = {"status": "error", "detail": "", "shard": spec["shard"]["name"]}
    t0 = time.time()

    def write():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    try:
        import numpy as np

        np.seterr(all="ignore")
        warnings.simplefilter("ignore")
        from pbt.core import Ctx, Violation

        mod = importlib.import_module("pbt.props." + spec["property"].lower())
        ctx = Ctx(spec["marker"])
        shard = spec["shard"]
        known = spec.get("known", [])
        state = {"failing": None}

        def run_case(case):
            if case in known:
                return
            ctx.begin(case)
            try:
                mod.check(ctx, shard, case)
            except Violation as e:
                if state["failing"] is None:
                    # keep it in case shrinking is cut short
                    with open(out + ".first", "w") as f:
                        json.dump({"status": "violation", "case": case,
                                   "detail": str(e), "shard": spec["shard"]["name"]}, f)
                state["failing"] = (case, str(e))
                raise
            finally:
                ctx.end(case)

        violation = None
        # 1. saved inputs of repaired defects, and hand-picked corner cases
        for case in spec.get("corpus", []):
            try:
                run_case(case)
            except Violation as e:
                violation = (case, str(e))
                break
        # 2. generated search
        if violation is None and hasattr(mod, "run") and shard["n"] > 0:
            violation = mod.run(ctx, shard, spec)
        elif violation is None and shard["n"] > 0:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            import hypothesis.internal.conjecture.engine as engine

            engine.MAX_SHRINKING_SECONDS = 30
            seed = int(spec["seed"]) * 7919 + spec["index"] * 101 + 1

            @hypothesis.seed(seed)
            @settings(
                max_examples=shard["n"],
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )
            @given(mod.strategy(shard))
            def test(case):
                run_case(case)

            try:
                test()
            except Violation as e:
                violation = state["failing"] or (None, str(e))
            except hypothesis.errors.Flaky as e:
                if state["failing"] is None:
                    raise
                # The code under test is not a function of its input: the
                # last failing case did fail.
                violation = (state["failing"][0],
                             state["failing"][1] + " [not reproducible]")
        res["classes"] = ctx.classes
        res["evaluations"] = ctx.evaluations
        res["hashes"] = sorted(ctx.hashes)
        res["samples"] = ctx.samples
        res["extra"] = ctx.extra
        if violation is not None:
            res["status"] = "violation"
            res["case"], res["detail"] = violation
        else:
            res["status"] = "ok"
    except BaseException as e:  # noqa: BLE001
        if not isinstance(e, Exception) and not isinstance(e, SystemExit):
            raise
        res["status"] = "error"
        res["detail"] = "".join(traceback.format_exception(e))[-4000:]
    res["wall_s"] = time.time() - t0
    write()


if __name__ == "__main__":
    main()
