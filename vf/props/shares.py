"""The named shares of the objective and the totals of limited quantities."""

import importlib

import numpy as np
from hypothesis import strategies as st
from pyomo.repn import generate_standard_repn

from .. import gen
from ..build import build
from ..extract import compile_pyomo
from ..lp import Pair, SolverTrouble, solve
from ..ref import Ref, lin, shared
from ..run import Violation
from . import register

COSTS = {
    "SimpleFlowBlock": ("variable_costs", "fixed_costs"),
    "NonConvexFlowBlock": (
        "startup_costs",
        "shutdown_costs",
        "activity_costs",
        "inactivity_costs",
    ),
    "InvestmentFlowBlock": ("investment_costs", "fixed_costs"),
    "InvestNonConvexFlowBlock": (
        "investment_costs",
        "startup_costs",
        "shutdown_costs",
        "activity_costs",
        "inactivity_costs",
    ),
    "GenericStorageBlock": ("storage_costs", "fixed_costs"),
    "GenericInvestmentStorageBlock": (
        "investment_costs",
        "storage_costs",
        "fixed_costs",
    ),
}
# module, function that draws a system
SOURCES = (
    ("flows", "cost_system"),
    ("commit", "starts_system"),
    ("commit", "status_system"),
    ("commit", "invest_nc_system"),
    ("commit", "count_system"),
    ("storage", "dispatch_system"),
    ("storage", "storage_invest_system"),
    ("storage", "shared_system"),
    ("invest", "invest_flow_system"),
    ("invest", "invest_limit_system"),
    ("limits", "integral_system"),
    ("limits", "integral_system"),
    ("multi", "multi_cost_system"),
    ("multi", "multi_cost_system"),
    ("multi", "multi_storage_system"),
    ("tsam", "weighting_system"),
    ("tsam", "tsam_storage_system"),
    ("tsam", "tsam_invest_system"),
    ("compose", "composed"),
)


def shares_make(draw):
    mod, fn = draw(st.sampled_from(SOURCES))
    make = getattr(importlib.import_module("vf.props." + mod), fn)
    spec = make(draw)
    return {"of": spec, "source": fn}


def linear(expr, col):
    """expression -> (constant, coefficients by column)"""
    repn = generate_standard_repn(expr, compute_values=True)
    if not repn.is_linear():
        raise Violation("a share of the costs is not linear")
    c = {}
    for v, a in zip(repn.linear_vars, repn.linear_coefs):
        c[col[id(v)]] = c.get(col[id(v)], 0.0) + float(a)
    return float(repn.constant or 0), c


def at(lin_, x):
    const, c = lin_
    return const + sum(a * x[j] for j, a in c.items())


def scale(lin_, x):
    const, c = lin_
    return abs(const) + sum(abs(a) * (1 + abs(x[j])) for j, a in c.items())


def ref_linear(expr, col):
    c = {}
    for k, v in expr.items():
        if k is not None:
            c[col[k]] = c.get(col[k], 0.0) + v
    return expr.get(None, 0.0), c


def totals(spec, r):
    """name of a total of the model -> expression of the reference"""
    out = {}
    for c in spec.get("constraints", []):
        k = c["c"]
        if k in ("generic_integral_limit", "emission_limit"):
            name = c.get(
                "limit_name",
                "integral_limit_" + c.get("keyword", "emission_factor"),
            )
            out[name, None] = r._integral(r._listed(c), r.TS)
        elif k == "additional_investment_flow_limit":
            out["invest_limit_" + c["keyword"], None] = lin(
                *[
                    (
                        f["investment"]["custom_properties"][c["keyword"]],
                        {("invest", i, o, p): 1.0},
                    )
                    for (i, o), f in r.flows.items()
                    if c["keyword"]
                    in (f.get("investment") or {}).get("custom_properties", {})
                    for p in r.P
                ]
            )
        elif k == "limit_active_flow_count":
            for t in r.TS:
                out[c["name"], t] = lin(
                    *[(1, {("status", a, b, t): 1.0}) for a, b in c["flows"]]
                )
        elif k == "shared_limit":
            for t, e in shared(r, c).items():
                out[c["name"], t] = e
    return out


class Shares:
    id = "cost-shares"
    quick = 400
    thorough = 12000
    rule = (
        "case: a generated system of one of the other properties (all kinds "
        "of costs, limits, periods, typical periods) is solved for its "
        "objective and for random linear functions; at each optimum the "
        "shares of the objective that the blocks of the model name "
        "(variable, investment, fixed, start, shutdown, activity, inactivity "
        "and storage costs), their sums, the objective itself, and the "
        "totals named by limits (integrals, additional investment limits, "
        "counts, shared limits) are evaluated and compared with the same "
        "shares of the reference model at the same point. Non-trivial: "
        "feasible and at least two shares or totals differ from zero"
    )

    def __init__(self):
        register(self)

    def strategy(self):
        return st.composite(lambda draw: shares_make(draw))()

    def known_case(self, spec):
        return self.case(spec)

    def shares(self, b, col, r, rcol):
        """list of (name, linear form in solph, linear form in reference)"""
        out = []
        for blk, parts in COSTS.items():
            block = getattr(b.m, blk, None)
            if block is None:
                if any(
                    r.m.parts.get(f"{blk}.{p}", {}) for p in parts
                ):
                    raise Violation(f"the model has no {blk}")
                continue
            whole = []
            for p in parts:
                ref = r.m.parts.get(f"{blk}.{p}", {})
                expr = getattr(block, p, None)
                if expr is None:
                    if any(abs(v) > 1e-9 for v in ref.values()):
                        raise Violation(f"{blk} has no {p}")
                    continue
                out.append(
                    (f"{blk}.{p}", linear(expr, col), ref_linear(ref, rcol))
                )
                whole.append((1, ref))
            expr = getattr(block, "costs", None)
            if expr is not None:
                out.append(
                    (
                        f"{blk}.costs",
                        linear(expr, col),
                        ref_linear(lin(*whole), rcol),
                    )
                )
        out.append(
            (
                "objective",
                linear(b.m.objective.expr, col),
                ref_linear(r.m.obj, rcol),
            )
        )
        for (name, idx), ref in totals(b.spec, r).items():
            x = getattr(b.m, name, None)
            if x is None:
                raise Violation(f"the model has no {name}")
            if idx is not None:
                x = x[idx]
            out.append((f"{name}[{idx}]", linear(x, col),
                        ref_linear(ref, rcol)))
        return out

    def case(self, spec):
        of = spec["of"]
        b = build(of)
        r = Ref(of)
        mat, col = compile_pyomo(b.m)
        rmat, rcol = r.m.compile()
        names = {k: col[id(v)] for k, v in b.names.items() if id(v) in col}
        shares = self.shares(b, col, r, rcol)
        pair = Pair(mat, names, rmat, rcol)
        labels = [spec["source"]]
        seen = set()
        feasible = False
        directions = [None] + gen.directions(of, pair.names, 2)
        pos = {k: n for n, k in enumerate(pair.names)}
        for d in directions:
            c = mat.c
            if d is not None:
                c = np.zeros(mat.n)
                for k, v in d.items():
                    if k in pos:
                        c[pair.ia[pos[k]]] = v
            status, _, x = solve(mat, c)
            if status == "infeasible":
                break
            if status != "optimal":
                continue
            x = x[pair.ia]
            full = []
            for model, idx in ((mat, pair.ia), (rmat, pair.ib)):
                lb, ub, bad = pair._fixed(model, idx, x)
                if lb is None:
                    raise SolverTrouble("not a common point")
                status, _, y = solve(model, model.c, lb, ub)
                full.append(y if status == "optimal" else None)
            if full[0] is None and full[1] is None:
                continue
            if full[0] is None or full[1] is None:
                # the other properties decide about this
                raise SolverTrouble("not a common point")
            feasible = True
            for name, a, ref in shares:
                va, vb = at(a, full[0]), at(ref, full[1])
                tol = 1e-4 * (1 + scale(a, full[0]) + scale(ref, full[1]))
                if abs(va - vb) > tol:
                    raise Violation(
                        f"{name}: {va:.8g} in solph's model, {vb:.8g} in the "
                        f"reference, at {pair.show(x)}"
                    )
                if abs(vb) > 1e-6 and name != "objective":
                    seen.add(name.split("[")[0])
        labels += sorted(
            n if "." in n else "total" for n in seen
        )
        labels.append("feasible" if feasible else "infeasible")
        return {"labels": labels, "nontrivial": feasible and len(seen) > 1}


Shares()
