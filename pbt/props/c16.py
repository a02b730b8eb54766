"""C16: the lists of solvers tell the truth."""

import importlib
import inspect
import pkgutil
import re

from pbt.props.common import *

RULE = ("Hypothesis draws, for every solver, a problem of a class which one of the lists holding it "
        "promises (direct, feasible multi-revolution in both paths, any geometry and conic) and "
        "compares the answer with the reference; when no list promises multi-revolution problems "
        "the solver has to refuse them; besides, the lists are compared with each other and with "
        "the public functions found in the package; non-trivial when the solver is in the list")

LISTS = ["ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "NON_ROBUST_SOLVERS",
         "ROBUST_SOLVERS"]
TOL = 1e-5


def shards(tier):
    out = solver_shards(ALL, 2500, tier)
    out.append(dict(name="registry", solver=None, n=200, jit=False))
    for i in range(2):
        out.append(dict(name=f"interpreted-{i}", solver="any", jit=False, cost=4,
                        n=800 * (1 if tier == "quick" else 40)))
    return out


def held(name):
    import lamberthub

    f = getattr(lamberthub, name)
    return [l for l in LISTS if f in getattr(lamberthub, l)]


def strategy(shard):
    if shard["solver"] is None:
        return st.fixed_dictionaries({
            "list": st.sampled_from(LISTS),
            "name": st.sampled_from(ALL),
        })

    @st.composite
    def s(draw):
        name = shard["solver"]
        if name == "any":
            name = draw(st.sampled_from(ALL))
        what = draw(st.sampled_from(["direct", "multi", "multi", "robust"]))
        if what == "multi":
            # out of the list it has to be refused
            c = draw(gen.problem_m(near=0.05, flo=-4, fhi=2, mmax=6))
        elif what == "direct":
            # what each method is known for; any of them does better
            c = draw(direct(name, which_units=(0,)))
        else:
            c = draw(gen.problem0(near=0.05, span=1.3, flo=math.log10(0.05), fhi=2.4))
        c["kw"] = dict(tight(name))
        c["what"], c["solver"] = what, name
        return c

    return s()


def registry(ctx, case):
    import lamberthub

    lists = {l: getattr(lamberthub, l) for l in LISTS}
    every = lists["ALL_SOLVERS"]
    names = [f.__name__ for f in every]
    this = [f.__name__ for f in lists[case["list"]]]
    if len(set(this)) != len(this):
        raise Violation(f"{case['list']} repeats solvers: {this}")
    for f in lists[case["list"]]:
        if f not in every:
            raise Violation(f"{f.__name__} is in {case['list']} but not in ALL_SOLVERS")
        if getattr(lamberthub, f.__name__, None) is not f:
            raise Violation(f"{f.__name__} in {case['list']} is not the public function")
    if case["name"] not in names:
        raise Violation(f"{case['name']} is not in ALL_SOLVERS: {names}")
    if set(lists["NON_ROBUST_SOLVERS"]) & set(lists["ROBUST_SOLVERS"]):
        raise Violation("a solver is both robust and non-robust")
    # the solvers defined anywhere in the package
    for m in pkgutil.walk_packages(lamberthub.__path__, "lamberthub."):
        mod = importlib.import_module(m.name)
        for k, v in vars(mod).items():
            if (re.fullmatch(r"[a-z]+(1[6-9]|20)\d\d", k) and inspect.isfunction(v)
                    and v.__module__.startswith("lamberthub.") and k not in names):
                raise Violation(f"{k}, defined in {v.__module__}, is not in ALL_SOLVERS")
    ctx.nontrivial = True


def check(ctx, shard, case):
    if shard["solver"] is None:
        return registry(ctx, case)
    name, what = case["solver"], case["what"]
    lists = held(name)
    want = {"direct": "ZERO_REV_SOLVERS", "multi": "MULTI_REV_SOLVERS",
            "robust": "ROBUST_SOLVERS"}[what]
    ctx.label(f"{what}: " + ("promised" if want in lists else "not promised"))
    where = (f"theta={theta_of(case):.6g}, f={case['f']:.6g}, M={case['M']}, "
             f"{'low' if case['low'] else 'high'} path, kw={case['kw']}")
    if want not in lists:
        if what == "multi":
            ctx.nontrivial = True
            out = run_solver(ctx, name, case)
            if not isinstance(out, Raised):
                raise Violation(f"{name} is not in {want} but answers {show(out)} ({where})")
            if out.type not in CLEAN:
                raise Violation(f"{name}, not in {want}, fails with {out!r} ({where})")
        return
    ctx.nontrivial = True
    out = run_solver(ctx, name, case)
    if isinstance(out, Raised):
        raise Violation(f"{name} is in {want} but raises {out!r} ({where})")
    e = vel_error(gen.reference(case), out[0], out[1])
    ctx.max(f"{what}: largest relative error", e)
    if not e <= TOL * LAX:
        raise Violation(f"{name} is in {want} but its velocities have an error of {e:.3g} "
                        f"({where}): {show(out)}, {flies(case, out[0], out[1])}")
