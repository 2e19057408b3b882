"""A tiny LP/MILP modelling layer used by the reference model, and the
comparison of two models (the one built by oemof.solph and the reference).
"""

import math

import numpy as np
from scipy import sparse
from scipy.optimize import Bounds, LinearConstraint, milp

from .extract import INF, Mat

FEAS_TOL = 2e-5
VAL_TOL = 2e-5


class LinModel:
    """Variables are named by tuples; expressions are dicts name -> coef with
    the constant stored under None."""

    def __init__(self):
        self.vars = {}
        self.cons = []
        self.obj = {}
        self.parts = {}  # named shares of the objective

    def var(self, key, lb=-INF, ub=INF, integer=False):
        assert key not in self.vars, key
        self.vars[key] = [lb, ub, integer]
        return {key: 1.0}

    def bound(self, key, lb=-INF, ub=INF):
        v = self.vars[key]
        v[0] = max(v[0], lb)
        v[1] = min(v[1], ub)

    def add(self, expr, lo=-INF, hi=INF, name=""):
        self.cons.append((expr, lo, hi, name))

    def eq(self, a, b, name=""):
        self.add(lin((1, a), (-1, b)), 0, 0, name)

    def le(self, a, b, name=""):
        self.add(lin((1, a), (-1, b)), -INF, 0, name)

    def ge(self, a, b, name=""):
        self.le(b, a, name)

    def cost(self, expr, factor=1.0, part=None):
        share = self.parts.setdefault(part, {})
        for k, v in expr.items():
            self.obj[k] = self.obj.get(k, 0.0) + factor * v
            share[k] = share.get(k, 0.0) + factor * v

    def compile(self):
        mat = Mat()
        col = {}
        for k, (lb, ub, integer) in self.vars.items():
            col[k] = len(mat.lb)
            mat.lb.append(lb)
            mat.ub.append(ub)
            mat.integ.append(1 if integer else 0)
            if lb > ub + 1e-9:
                mat.infeasible = f"bounds {k}"
        for expr, lo, hi, name in self.cons:
            const = expr.get(None, 0.0)
            coefs = {}
            for k, v in expr.items():
                if k is not None and v != 0.0:
                    coefs[col[k]] = v
            lo, hi = lo - const, hi - const
            if not coefs:
                if lo > 1e-9 or hi < -1e-9:
                    mat.infeasible = name or "constant row"
                continue
            mat.rows.append((coefs, lo, hi))
        for k, v in self.obj.items():
            if k is None:
                mat.const += v
            else:
                mat.cost[col[k]] = mat.cost.get(col[k], 0.0) + v
        return mat.freeze(), col


def lin(*terms):
    """lin((c, expr_or_number), ...) -> expr"""
    out = {}
    for c, e in terms:
        c = float(c)
        if isinstance(e, dict):
            for k, v in e.items():
                out[k] = out.get(k, 0.0) + c * v
        else:
            out[None] = out.get(None, 0.0) + c * float(e)
    return out


class SolverTrouble(Exception):
    """The LP solver gave no usable answer (never a violation)."""


def solve(mat, c, lb=None, ub=None):
    """Minimise c x over mat. Returns (status, value, x); status is one of
    'optimal', 'infeasible', 'unbounded'."""
    if mat.infeasible is not None:
        return "infeasible", None, None
    lb = mat.lb if lb is None else lb
    ub = mat.ub if ub is None else ub
    if np.any(lb > ub + 1e-7):
        return "infeasible", None, None
    ub = np.maximum(lb, ub)
    if mat.n == 0:
        return "optimal", 0.0, np.zeros(0)
    cons = (
        [LinearConstraint(mat.A, mat.lo, mat.hi)] if mat.A.shape[0] else []
    )
    for opts in ({}, {"presolve": False}):
        res = milp(
            c,
            constraints=cons,
            bounds=Bounds(lb, ub),
            integrality=mat.integ,
            options={"mip_rel_gap": 0.0, "time_limit": 60.0, **opts},
        )
        if res.status == 0:
            return "optimal", float(res.fun), res.x
        if res.status == 2:
            return "infeasible", None, None
        if res.status == 3:
            return "unbounded", None, None
    raise SolverTrouble(str(res.message))


class Disagreement(Exception):
    """The two models differ; the message says how."""


class Pair:
    """Two models with shared, named columns."""

    def __init__(self, a, a_col, b, b_col, box=1000.0):
        """a: solph side, b: reference side; *_col: name -> column."""
        self.a, self.b = a, b
        self.names = [k for k in a_col if k in b_col]
        self.ia = np.array([a_col[k] for k in self.names], dtype=int)
        self.ib = np.array([b_col[k] for k in self.names], dtype=int)
        # a common box keeps every direction bounded in both models; it only
        # acts on the shared quantities
        for mat, idx in ((a, self.ia), (b, self.ib)):
            if len(idx):
                mat.lb[idx] = np.maximum(mat.lb[idx], -box)
                mat.ub[idx] = np.minimum(mat.ub[idx], box)
                if np.any(mat.lb[idx] > mat.ub[idx] + 1e-9):
                    mat.infeasible = "box"
        self.solves = 0

    def _fixed(self, mat, idx, x):
        lb, ub = mat.lb.copy(), mat.ub.copy()
        tol = FEAS_TOL * (1 + np.abs(x))
        is_int = mat.integ[idx] == 1
        x = np.where(is_int, np.round(x), x)
        tol = np.where(is_int, 0.0, tol)
        new_lb = np.minimum(np.maximum(lb[idx], x - tol), ub[idx])
        new_ub = np.maximum(np.minimum(ub[idx], x + tol), lb[idx])
        bad = (x + tol < lb[idx] - FEAS_TOL) | (x - tol > ub[idx] + FEAS_TOL)
        if np.any(bad):
            return None, None, int(np.argmax(bad))
        lb[idx], ub[idx] = new_lb, new_ub
        return lb, ub, None

    def _cost_at(self, mat, idx, x):
        lb, ub, bad = self._fixed(mat, idx, x)
        if lb is None:
            return "infeasible", None, self.names[bad]
        self.solves += 1
        st, val, _ = solve(mat, mat.c, lb, ub)
        return st, val, None

    def _point(self, x, who, direction, check_cost=True):
        """x (a point of one model) must be a point of both, equal cost."""
        sa, va, wa = self._cost_at(self.a, self.ia, x)
        sb, vb, wb = self._cost_at(self.b, self.ib, x)
        if "unbounded" in (sa, sb):
            if sa != sb:
                raise Disagreement(
                    f"cost at a point: solph {sa}, reference {sb}"
                )
            return
        own = sa if who == "solph's model" else sb
        if own == "infeasible":
            raise SolverTrouble("a point does not belong to its own model")
        if sa != sb:
            raise Disagreement(
                f"a point reachable in {who} (direction {direction}) is "
                f"{sa} in solph's model and {sb} in the reference"
                + (f" [{wa or wb}]" if wa or wb else "")
                + f": {self.show(x)}"
            )
        if sa == "infeasible":
            raise SolverTrouble("point infeasible on both sides")
        va += self.a.const
        vb += self.b.const
        scale = float(
            np.abs(self.a.c[self.ia]) @ (1 + np.abs(x))
            + np.abs(self.b.c[self.ib]) @ (1 + np.abs(x))
        )
        if check_cost and abs(va - vb) > VAL_TOL * (
            1 + 2 * scale + abs(va) + abs(vb)
        ):
            raise Disagreement(
                f"cost of one operation plan: solph {va:.8g}, reference "
                f"{vb:.8g} (direction {direction}): {self.show(x)}"
            )

    def show(self, x, limit=40):
        return {
            "/".join(str(p) for p in k): round(float(v), 5)
            for k, v in list(zip(self.names, x))[:limit]
            if abs(v) > 1e-9
        }

    def compare(self, directions, objective=True):
        """directions: list of {name: coef} over shared names. Returns a dict
        of facts about the comparison; raises Disagreement."""
        facts = {"feasible": None, "directions": 0}
        todo = []
        if objective:
            todo.append(("objective", None))
        todo += [(str(n), d) for n, d in enumerate(directions)]
        pos = {k: n for n, k in enumerate(self.names)}
        for label, d in todo:
            if d is None:
                ca, cb = self.a.c, self.b.c
            else:
                ca, cb = np.zeros(self.a.n), np.zeros(self.b.n)
                for k, v in d.items():
                    if k in pos:
                        ca[self.ia[pos[k]]] = v
                        cb[self.ib[pos[k]]] = v
            self.solves += 2
            sa, va, xa = solve(self.a, ca)
            sb, vb, xb = solve(self.b, cb)
            if sa != sb:
                raise Disagreement(
                    f"direction {label}: solph's model is {sa}, "
                    f"the reference is {sb}"
                )
            facts["feasible"] = sa != "infeasible"
            facts["directions"] += 1
            if sa == "infeasible":
                return facts
            if sa == "unbounded":
                continue
            if d is None:
                va += self.a.const
                vb += self.b.const
                facts["objective"] = va
            scale = float(
                np.abs(ca[self.ia]) @ (1 + np.abs(xa[self.ia]))
                + np.abs(cb[self.ib]) @ (1 + np.abs(xb[self.ib]))
            )
            if abs(va - vb) > VAL_TOL * (1 + abs(va) + abs(vb) + scale):
                raise Disagreement(
                    f"optimum of "
                    f"{'the objective' if d is None else _show_dir(d)}: "
                    f"solph {va:.8g}, reference {vb:.8g}"
                )
            if not len(self.names):
                continue
            self._point(xa[self.ia], "solph's model", label, objective)
            self._point(xb[self.ib], "the reference", label, objective)
        return facts


def _show_dir(d):
    return "min " + " + ".join(
        f"{v:g}*{'/'.join(str(p) for p in k)}" for k, v in list(d.items())[:8]
    )


def finite(x):
    return x is not None and math.isfinite(x)


__all__ = ["LinModel", "lin", "Pair", "Disagreement", "SolverTrouble", "solve"]
_ = sparse
