"""Solving: what Model.solve returns, and that it is the optimum."""

import logging
import types
import warnings

import numpy as np
from hypothesis import strategies as st
from oemof import solph
from pyomo.environ import Constraint, Suffix
from pyomo.opt import (
    SolverFactory,
    SolverResults,
    SolverStatus,
    TerminationCondition,
)

from ..build import build, names
from ..extract import compile_pyomo
from ..gen import maybe, num
from ..lp import FEAS_TOL, VAL_TOL, Pair, SolverTrouble, solve
from ..ref import Ref
from ..run import Inconclusive
from . import compose, convert, flows, invest, limits, storage
from .compose import composed
from .outputs import Base, check, expanded, same

CALLS = []


@SolverFactory.register("vf_fake", doc="reports what it is told to")
class FakeSolver:
    outcome = ("ok", "optimal")
    facts = {}
    value = None

    def __init__(self, **kwargs):
        self.init = kwargs
        self.options = {}

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def available(self, exception_flag=True):
        return True

    def solve(self, model, **kwargs):
        CALLS.append(
            {"init": self.init, "options": dict(self.options),
             "kwargs": kwargs, "model": model}
        )
        r = SolverResults()
        r.solver.status = SolverStatus(self.outcome[0])
        r.solver.termination_condition = TerminationCondition(self.outcome[1])
        for k, v in self.facts.items():
            setattr(r.problem, k, v)
        if self.value is not None:
            from pyomo.environ import Var

            for v in model.component_data_objects(Var):
                v.set_value(self.value, skip_validation=True)
        return r


STATUS = [s.value for s in SolverStatus]
TERMINATION = [s.value for s in TerminationCondition]


def outcome_of(m, spec, **kw):
    """-> (returned object or None, error or None, warnings about optimality)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            if spec["allow"] or spec.get("explicit"):
                kw["allow_nonoptimal"] = spec["allow"]
            out, err = m.solve(**kw), None
        except RuntimeError as e:
            out, err = None, e
    told = [
        w
        for w in rec
        if issubclass(w.category, UserWarning)
        and not issubclass(w.category, (DeprecationWarning, FutureWarning))
        and "optimal" in str(w.message)
    ]
    return out, err, told


def judge(m, spec, optimal, out, err, told, details=()):
    if optimal:
        check(err is None, "error for an optimal solution: {}", err)
        check(isinstance(out, solph.Results), "no results but {}", type(out))
        check(not told, "warning for an optimal solution")
    elif spec["allow"]:
        check(err is None, "error although it is allowed: {}", err)
        check(not isinstance(out, solph.Results),
              "results without an optimal solution")
        check(out is m.solver_results, "not the solver's results but {}",
              type(out))
        check(len(told) == 1, "{} warnings without an optimal solution",
              len(told))
        text = str(told[0].message)
    else:
        check(err is not None, "no error without an optimal solution but {}",
              type(out))
        text = str(err)
    if not optimal:
        for d in details:
            check(d in text, "{!r} is missing in the message {!r}", d, text)


def fake_case(spec):
    b = build(spec)
    m = b.m
    FakeSolver.outcome = (spec["status"], spec["termination"])
    optimal = FakeSolver.outcome == ("ok", "optimal")
    FakeSolver.value = 1.0 if optimal else None
    FakeSolver.facts = spec.get("facts", {})
    CALLS.clear()
    given_options = dict(spec["options"])
    given_kwargs = dict(spec["kwargs"])
    kw = {}
    if spec["options"] or spec["dir"] % 2:
        kw["cmdline_options"] = given_options
    if spec["kwargs"] or spec["dir"] % 2:
        kw["solve_kwargs"] = given_kwargs
    if spec.get("io"):
        kw["solver_io"] = spec["io"]
    out, err, told = outcome_of(m, spec, solver="vf_fake", **kw)
    judge(m, spec, optimal, out, err, told,
          (spec["status"], spec["termination"]))
    check(len(CALLS) == 1, "solver called {} times", len(CALLS))
    call = CALLS[0]
    check(call["model"] is m, "another model was solved")
    check(call["options"] == spec["options"], "solver options {} not {}",
          call["options"], spec["options"])
    check(call["kwargs"] == spec["kwargs"], "solver arguments {} not {}",
          call["kwargs"], spec["kwargs"])
    check(call["init"].get("solver_io") == spec.get("io", "lp"),
          "solver interface {}", call["init"])
    check(given_options == spec["options"] and given_kwargs == spec["kwargs"],
          "the given options were changed")
    check(b.es.results is m.solver_results, "es.results is something else")
    check(
        str(m.solver_results.solver.termination_condition)
        == spec["termination"],
        "solver results were changed",
    )
    if optimal:
        check_meta(m, spec)
    return ["fake", "optimal" if optimal else "not optimal"]


def check_meta(m, spec):
    facts = spec["facts"]
    meta = solph.processing.meta_results(m)
    check(same(meta["objective"], float(m.objective())), "objective {}",
          meta["objective"])
    for k, v in facts.items():
        got = meta["problem"][k.replace("_", " ").capitalize()]
        check(got == v, "{} is {} instead of {}", k, got, v)
    check(str(meta["solver"]["Status"]) == spec["status"],
          "status {}", meta["solver"].get("Status"))
    check(str(meta["solver"]["Termination condition"]) == spec["termination"],
          "termination condition {}", meta["solver"])
    lo, hi = facts["lower_bound"], facts["upper_bound"]
    if lo == hi:
        want = 0.0
    elif lo == -hi:
        want = float("inf")
    else:
        want = abs(hi - lo) / (abs(hi + lo) / 2)
    got = meta["problem"]["MIPGap"]
    check(got == want or same(got, want), "gap {} instead of {}", got, want)
    full = solph.processing.meta_results(m, undefined=True)
    for part in ("problem", "solver"):
        check(set(meta[part]) <= set(full[part]), "{} is incomplete", part)
        check("<undefined>" not in [str(v) for v in meta[part].values()],
              "undefined values in {}", part)
        for k in set(full[part]) - set(meta[part]):
            text = str(full[part][k])
            check(text == "<undefined>" or text.startswith("Cannot fetch"),
                  "{} of the {} is missing", k, part)
        for k, v in meta[part].items():
            check(full[part][k] == v, "other value of {}", k)


def twist(spec):
    """-> spec with one more part that has no or no best solution"""
    extra = []
    if spec["twist"] == "infeasible":
        extra = [
            {"k": "bus", "n": "tw1"},
            {"k": "source", "n": "tw2",
             "out": {"tw1": {"nominal_capacity": 3}}},
            {"k": "sink", "n": "tw3",
             "in": {"tw1": {"nominal_capacity": 1, "fix": 3.5}}},
        ]
    elif spec["twist"] == "unbounded":
        extra = [
            {"k": "bus", "n": "tw1"},
            {"k": "source", "n": "tw2",
             "out": {"tw1": {"variable_costs": -1}}},
            {"k": "sink", "n": "tw3", "in": {"tw1": {}}},
        ]
        if spec["time"].get("weights"):
            spec = dict(spec, time=dict(spec["time"]))
            del spec["time"]["weights"]
    return dict(spec, nodes=spec["nodes"] + extra)


def objective_close(a, b, scale=1.0):
    return abs(a - b) <= 2e-5 * (scale + abs(a) + abs(b))


def real_case(spec):
    spec = twist(spec)
    r = Ref(spec)
    rmat, _ = r.m.compile()
    if spec["twist"]:
        state = spec["twist"]
    else:
        state, value, _ = solve(rmat, rmat.c)
    b = build(spec)
    m = b.m
    mat, _ = compile_pyomo(m)
    if state == "optimal":
        # (a solver that fails is no fault of the model)
        s2, v2, _ = solve(mat, mat.c)
        if s2 != "optimal":
            raise Inconclusive("the model itself differs")
    limit = {"sec": 20} if spec["solver"] == "cbc" else {"tmlim": 20}
    out, err, told = outcome_of(
        m, spec, solver=spec["solver"], cmdline_options=limit
    )
    end = str(m.solver_results.solver.termination_condition)
    if end == "maxTimeLimit":
        raise Inconclusive("time limit")
    judge(m, spec, state == "optimal", out, err, told)
    if state == "optimal":
        check(objective_close(out["objective"], value + rmat.const, 50),
              "objective {} instead of {}", out["objective"],
              value + rmat.const)
        meta = solph.processing.meta_results(m)
        check(objective_close(meta["objective"], out["objective"], 1e-3),
              "objective {} in the meta results", meta["objective"])
    return ["solver " + spec["solver"], state]


def bounded(draw):
    return composed(draw, kinds=("plain", "plain", "multi", "tsam"), lo=1,
                    hi=2)


class StatusProp(Base):
    quick = 320
    thorough = 8000

    def case(self, spec):
        logging.disable(logging.CRITICAL)
        try:
            if "status" in spec:
                for status, termination in spec.get("before", ()):
                    fake_case(dict(spec, status=status,
                                   termination=termination))
                lab = fake_case(spec)
            else:
                lab = real_case(spec)
        finally:
            logging.disable(logging.NOTSET)
        return {"labels": lab + (["allowed"] if spec["allow"] else []),
                "nontrivial": True}


def status_make(draw):
    fake = not maybe(draw, 3)
    if fake:
        spec = flows.cost_system(draw)
        spec["status"] = draw(st.sampled_from(["ok", "ok"] + STATUS))
        spec["termination"] = draw(
            st.sampled_from(["optimal"] * 4 + TERMINATION)
        )
        if maybe(draw, 2):
            spec["before"] = [
                [draw(st.sampled_from(["ok", "ok", "ok"] + STATUS)),
                 draw(st.sampled_from(["optimal"] + TERMINATION))]
                for _ in range(6)
            ]
        spec["options"] = draw(
            st.dictionaries(
                st.sampled_from(["ratioGap", "mipgap", "threads", "sec"]),
                st.sampled_from([0, 1, 0.01, "", "5"]),
                max_size=2,
            )
        )
        spec["kwargs"] = draw(
            st.dictionaries(
                st.sampled_from(["tee", "keepfiles", "timelimit"]),
                st.sampled_from([True, False, 5]),
                max_size=2,
            )
        )
        lo = draw(num(-3, 3, 0.5))
        spec["facts"] = {
            "lower_bound": lo,
            "upper_bound": lo + (0 if maybe(draw, 2)
                                 else draw(num(0, 6, 0.5))),
            "number_of_variables": draw(st.integers(0, 9)),
        }
        if maybe(draw, 3):
            spec["io"] = draw(st.sampled_from(["lp", "nl", "python"]))
    else:
        spec = bounded(draw)
        spec["twist"] = draw(
            st.sampled_from(["", "", "infeasible", "unbounded"])
        )
        spec["solver"] = draw(st.sampled_from(["cbc", "cbc", "glpk"]))
    spec["allow"] = draw(st.booleans())
    spec["explicit"] = maybe(draw, 3)
    return spec


StatusProp(
    "solve-status",
    status_make,
    "case: a generated model is solved with cbc or glpk (feasible, "
    "infeasible and unbounded ones), or with a stand-in solver that reports "
    "a generated status and termination condition; what Model.solve "
    "returns, raises and warns is compared with what is documented. All "
    "cases are non-trivial.",
    assumptions=["cbc and glpk tell optimal from other outcomes"],
)


# -- C35 ----------------------------------------------------------------------
def optimal_case(spec):
    if not compose.size(spec):
        return {"labels": ["no flows"], "nontrivial": False}
    r = Ref(spec)
    rmat, rcol = r.m.compile()
    state, value, _ = solve(rmat, rmat.c)
    if state != "optimal":
        return {"labels": [state], "nontrivial": False}
    value += rmat.const
    b = build(spec)
    m = b.m
    try:
        out = m.solve(solver="cbc", cmdline_options={"sec": 20})
    except RuntimeError as e:
        if "maxTimeLimit" in str(e):
            raise Inconclusive("time limit") from e
        raise
    mat, col = compile_pyomo(m)
    lookup = {id(v): v for v in names(b).values()}
    pub = {k: v for k, v in names(b).items() if id(v) in col and k in rcol}
    x = np.array([0.0 if v.value is None else float(v.value)
                  for v in pub.values()])
    pair = Pair(mat, {k: col[id(v)] for k, v in pub.items()}, rmat, rcol,
                box=1e7)
    # is it a solution of the model as it was given to the solver?
    st_a, val_a, _ = pair._cost_at(mat, pair.ia, x)
    if st_a != "optimal":
        raise Inconclusive("the solver's point does not fit the model")
    s2, v2, _ = solve(mat, mat.c)
    if s2 != "optimal" or not objective_close(
        v2 + mat.const, val_a + mat.const, 20
    ):
        if not (s2 == "optimal" and not objective_close(
            v2 + mat.const, value, 20
        )):
            raise Inconclusive("the solver's point is not the optimum")
    st_b, val_b, w = pair._cost_at(rmat, pair.ib, x)
    check(st_b == "optimal", "the solution breaks the rules of the reference "
          "({}): {}", w, pair.show(x))
    scale = 1 + float(np.abs(rmat.c[pair.ib]) @ np.abs(x))
    check(objective_close(val_b + rmat.const, value, 20 + scale * FEAS_TOL),
          "the solution costs {} but the optimum is {}", val_b + rmat.const,
          value)
    check(objective_close(out["objective"], value, 20 + scale * FEAS_TOL),
          "objective {} but the optimum is {}", out["objective"], value)
    # the results are the values of this solution
    flow = out["flow"]
    T = len(spec["time"]["inc"])
    for (i, o) in m.flows:
        got = flow[(i, o)].tolist()
        for t in range(T):
            k = ("flow", str(i.label), str(o.label), t)
            if k in pub:
                v = pub[k].value
                check(same(v, got[t]), "flow {} is {} in the results", k, got[t])
    _ = lookup
    return {"labels": [spec["kind"], "optimal"]
            + [c["c"] for c in spec.get("constraints", ())],
            "nontrivial": bool(np.any(np.abs(x) > 1e-6))}


class OptimalProp(Base):
    quick = 240
    thorough = 6000

    def case(self, spec):
        logging.disable(logging.CRITICAL)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return optimal_case(spec)
        finally:
            logging.disable(logging.NOTSET)


OptimalProp(
    "solve-optimal",
    lambda draw: composed(draw, lo=1, hi=3),
    "case: a generated system (all components, one or several years or "
    "typical periods) is solved with cbc through Model.solve; the optimum is "
    "that of the reference model (solved by HiGHS), the solution fulfils all "
    "rules of the reference and costs as much there, and the results hold "
    "its values. Non-trivial: feasible with a flow that is not zero.",
    assumptions=["points of cbc that do not fit the model that cbc was given "
                 "are not judged"],
)


# -- C46 ----------------------------------------------------------------------
LINEAR = [
    flows.bus_system,
    flows.bound_system,
    flows.cost_system,
    flows.gradient_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    storage.dispatch_system,
    invest.invest_flow_system,
    storage.storage_invest_system,
    limits.integral_system,
]


def relax_case(spec):
    b = build(spec)
    m = b.m
    mat, col = compile_pyomo(m)
    order = [v for v in m.component_data_objects(
        __import__("pyomo.environ", fromlist=["Var"]).Var)]
    check(m.relax_problem() is m, "relax_problem returns another model")
    mat2, col2 = compile_pyomo(m)
    check(not mat2.integ.any(), "integer variables are left")
    check(all(id(v) in col2 for v in order), "variables are lost")
    perm = np.array([col2[id(v)] for v in order], dtype=int)
    base = np.array([col[id(v)] for v in order], dtype=int)
    for what in ("lb", "ub", "c"):
        check(np.allclose(getattr(mat, what)[base],
                          getattr(mat2, what)[perm], equal_nan=True),
              "{} differs in the relaxed model", what)
    check(abs(mat.const - mat2.const) < 1e-9, "constant costs differ")
    check(mat.A.shape == mat2.A.shape
          and (mat.infeasible is None) == (mat2.infeasible is None),
          "other constraints in the relaxed model")
    check(abs(mat.A[:, base] - mat2.A[:, perm]).sum() < 1e-9
          and np.allclose(mat.lo, mat2.lo) and np.allclose(mat.hi, mat2.hi),
          "other constraints in the relaxed model")
    return {"labels": ["relaxed", "with integers" if mat.integ.any()
                       else "without integers"],
            "nontrivial": bool(mat.integ.any())}


def bump(spec, bus, t, delta):
    """one more consumer of delta (a supplier, if negative) at a bus"""
    T = len(spec["time"]["inc"])
    fix = [0.0] * T
    fix[t] = abs(delta)
    f = {"nominal_capacity": 1, "fix": fix}
    node = {"k": "sink", "n": "bump", "in": {bus: f}}
    if delta < 0:
        node = {"k": "source", "n": "bump", "out": {bus: f}}
    out = dict(spec, nodes=spec["nodes"] + [node])
    out.pop("order", None)
    return out


def dual_case(spec):
    if not compose.size(spec):
        return {"labels": ["no flows"], "nontrivial": False}
    b = build(spec)
    m = b.m
    m.receive_duals()
    check(isinstance(m.dual, Suffix) and isinstance(m.rc, Suffix),
          "no suffixes for the duals")
    r0, cols = Ref(spec).m.compile()
    state, v0, _ = solve(r0, r0.c)
    if state != "optimal" or r0.integ.any():
        return {"labels": [state], "nontrivial": False}
    v0 += r0.const
    m.solve(solver="cbc")
    reduced = reduced_costs(spec, b, r0, cols, v0)
    res = solph.processing.results(m)
    rows = expanded(spec["time"])
    rng = np.random.default_rng(spec["dir"])
    todo = []
    for n in spec["nodes"]:
        if n["k"] == "bus" and n.get("balanced", True):
            bus = b.nodes[n["n"]]
            if not bus.inputs and not bus.outputs:
                continue
            todo += [(bus, t) for t in range(len(rows))]
    nonzero = 0
    for k in rng.permutation(len(todo))[:4]:
        bus, t = todo[int(k)]
        check((bus, None) in res, "no results for {}", bus)
        check("duals" in res[(bus, None)]["sequences"],
              "no duals for {}", bus)
        duals = res[(bus, None)]["sequences"]["duals"]
        points = (b.es.timeindex if rows == list(range(len(rows)))
                  and not spec["time"].get("tsam") else
                  flow_index(b.m, res))
        check(len(duals) == len(rows)
              and list(duals.index) == list(points)[:len(rows)],
              "the duals are given for {}", list(duals.index))
        price = float(duals.iloc[t])
        t = rows[t]
        nonzero += abs(price) > 1e-7
        # convex: costs(d) >= costs(0) + price * d, for all d
        for delta in (0.25, -0.25, 2.0, -2.0):
            mat, _ = Ref(bump(spec, n_of(bus), t, delta)).m.compile()
            state, v, _ = solve(mat, mat.c)
            if state != "optimal":
                continue
            v += mat.const
            low = v0 + price * delta
            check(v >= low - 1e-5 * (20 + abs(v) + abs(low)),
                  "with {} more consumed at {} in step {} the costs change "
                  "from {} to {}, but the dual is {}", delta, bus, t, v0, v,
                  price)
    return {"labels": ["duals", spec["kind"]]
            + (["reduced costs"] if reduced else []),
            "nontrivial": nonzero > 0 or reduced > 0}


def reduced_costs(spec, b, mat, cols, v0):
    """costs of another value of a flow (within its bounds) are at least
    those given by the reduced costs"""
    m = b.m
    names = {id(node): name for name, node in b.nodes.items()}
    free = []
    for (i, o), t in ((k, t) for k in m.FLOWS for t in m.TIMESTEPS):
        v = m.flow[i, o, t]
        if v.fixed or v.value is None:
            continue
        j = cols.get(("flow", names.get(id(i)), names.get(id(o)), t))
        if j is not None:
            free.append((v, j))
    if not free:
        return 0
    given = [(v, j, m.rc.get(v)) for v, j in free]
    # (solvers leave out variables that do not matter)
    if any(m.dual.get(c) for c in m.component_data_objects(
            Constraint, active=True)):
        check(any(r is not None for _, _, r in given),
              "no reduced costs are received")
    nonzero = 0
    given = [x for x in given if x[2] and abs(x[2]) > 1e-7]
    rng = np.random.default_rng(spec["dir"])
    for k in rng.permutation(len(given))[:3]:
        v, j, r = given[int(k)]
        for delta in (0.25, -0.25, 1.0, -1.0):
            x = v.value + delta
            lo = max(mat.lb[j], -np.inf if v.lb is None else v.lb)
            hi = min(mat.ub[j], np.inf if v.ub is None else v.ub)
            if not lo - 1e-9 <= x <= hi + 1e-9:
                continue
            old = mat.lb[j], mat.ub[j]
            mat.lb[j] = mat.ub[j] = x
            state, w, _ = solve(mat, mat.c)
            mat.lb[j], mat.ub[j] = old
            if state != "optimal":
                continue
            w += mat.const
            low = v0 + r * delta
            check(w >= low - 1e-5 * (20 + abs(w) + abs(low)),
                  "with {} instead of {} for {} the costs change from {} to "
                  "{}, but the reduced costs are {}", x, v.value, v.name,
                  v0, w, r)
            nonzero += 1
    return nonzero


def flow_index(m, res):
    """the points in time the flows are given for"""
    return res[next(iter(m.FLOWS))]["sequences"].index


def n_of(node):
    return str(node.label)


class DualProp(Base):
    quick = 320
    thorough = 6000

    def case(self, spec):
        logging.disable(logging.CRITICAL)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if spec["relax"]:
                    return relax_case(spec)
                return dual_case(spec)
        finally:
            logging.disable(logging.NOTSET)


def dual_make(draw):
    relax = maybe(draw, 3)
    if relax:
        spec = composed(draw, lo=1, hi=2)
    else:
        spec = composed(draw, kinds=("plain", "plain", "multi", "tsam"),
                        makers=LINEAR, lo=1, hi=2)
    spec["relax"] = relax
    return spec


DualProp(
    "duals",
    dual_make,
    "case: a generated linear system is solved with duals, and the dual of a "
    "bus at a time step has to be a subgradient of the optimal costs of the "
    "reference model with respect to the consumption there, as has to be the "
    "reduced cost of a flow with respect to its value; or a generated "
    "model with integers is relaxed and compared with the original "
    "constraints. Non-trivial: a dual or reduced cost that is not zero, a model with "
    "integers.",
)
_ = (types, SolverTrouble, VAL_TOL, compose)
