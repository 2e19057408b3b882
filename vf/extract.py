"""Compile a Pyomo model into matrices (rows, column bounds, integrality)."""

import numpy as np
import pyomo.environ as po
from pyomo.repn import generate_standard_repn
from scipy import sparse

INF = float("inf")


class NonLinear(Exception):
    """A constraint of the model is not linear."""


class Mat:
    """min c x + c0,  lo <= A x <= hi,  lb <= x <= ub, integrality."""

    def __init__(self):
        self.lb = []
        self.ub = []
        self.integ = []
        self.rows = []  # (dict col->coef, lo, hi)
        self.cost = {}
        self.const = 0.0
        self.infeasible = None  # reason, if a constant row is violated

    def freeze(self):
        n = len(self.lb)
        self.n = n
        r, c, d = [], [], []
        lo, hi = [], []
        for k, (coefs, lo_, hi_) in enumerate(self.rows):
            for j, v in coefs.items():
                r.append(k)
                c.append(j)
                d.append(v)
            lo.append(lo_)
            hi.append(hi_)
        self.A = sparse.csr_matrix((d, (r, c)), shape=(len(self.rows), n))
        self.lo = np.array(lo, dtype=float)
        self.hi = np.array(hi, dtype=float)
        self.lb = np.array(self.lb, dtype=float)
        self.ub = np.array(self.ub, dtype=float)
        self.integ = np.array(self.integ, dtype=int)
        self.c = np.zeros(n)
        for j, v in self.cost.items():
            self.c[j] += v
        return self


def compile_pyomo(m):
    """Return (Mat, column index by id(vardata))."""
    mat = Mat()
    col = {}

    def column(v):
        j = col.get(id(v))
        if j is None:
            j = len(mat.lb)
            col[id(v)] = j
            if v.fixed:
                val = float(po.value(v))
                mat.lb.append(val)
                mat.ub.append(val)
                mat.integ.append(0)
            else:
                lb, ub = v.bounds
                mat.lb.append(-INF if lb is None else float(lb))
                mat.ub.append(INF if ub is None else float(ub))
                mat.integ.append(
                    1 if (v.is_integer() or v.is_binary()) else 0
                )
        return j

    for v in m.component_data_objects(po.Var, active=None):
        column(v)
    for c in m.component_data_objects(po.Constraint, active=True):
        repn = generate_standard_repn(c.body, compute_values=True)
        if not repn.is_linear():
            raise NonLinear(c.name)
        k = float(repn.constant or 0)
        lo = -INF if c.lower is None else float(po.value(c.lower)) - k
        hi = INF if c.upper is None else float(po.value(c.upper)) - k
        coefs = {}
        for v, a in zip(repn.linear_vars, repn.linear_coefs):
            j = column(v)
            coefs[j] = coefs.get(j, 0.0) + float(a)
        coefs = {j: a for j, a in coefs.items() if a != 0.0}
        if not coefs:
            if lo > 1e-9 or hi < -1e-9:
                mat.infeasible = c.name
            continue
        mat.rows.append((coefs, lo, hi))
    for o in m.component_data_objects(po.Objective, active=True):
        repn = generate_standard_repn(o.expr, compute_values=True)
        if not repn.is_linear():
            raise NonLinear("objective")
        sign = 1.0 if o.sense == po.minimize else -1.0
        mat.const += sign * float(repn.constant or 0)
        for v, a in zip(repn.linear_vars, repn.linear_coefs):
            j = column(v)
            mat.cost[j] = mat.cost.get(j, 0.0) + sign * float(a)
    return mat.freeze(), col
