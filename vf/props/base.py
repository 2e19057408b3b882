"""Shared case functions."""

from hypothesis import strategies as st

from .. import gen
from ..build import build
from ..extract import compile_pyomo
from ..lp import Pair
from ..ref import Ref
from ..run import Violation
from . import register

COMPARE_RULE = (
    "case: a generated energy system (JSON spec, drawn by Hypothesis) is built "
    "through oemof.solph's public API; the constraint matrix of the resulting "
    "Pyomo model is compared with an independently written reference model: "
    "feasibility, the optimum of the objective and of random linear functions "
    "of the public variables, membership of every optimal point in the other "
    "model, and the cost of that point. "
)


def compare(spec, n_dirs=3, shared=None):
    b = build(spec)
    r = Ref(spec)
    mat, col = compile_pyomo(b.m)
    rmat, rcol = r.m.compile()
    names = {k: col[id(v)] for k, v in b.names.items() if id(v) in col}
    if shared is not None:
        names = {k: v for k, v in names.items() if shared(k)}
    missing = [
        k
        for k in rcol
        if k[0] in ("flow", "status", "invest", "total", "content",
                    "sinvest", "stotal")
        and k not in names
        and (shared is None or shared(k))
    ]
    if missing and not any(k[0] == missing[0][0] for k in names):
        raise RuntimeError(f"no such variables: {missing[:3]}")
    if missing:
        raise Violation(f"variables missing in solph's model: {missing[:5]}")
    pair = Pair(mat, names, rmat, rcol)
    facts = pair.compare(gen.directions(spec, pair.names, n_dirs))
    facts["pair"] = pair
    facts["built"] = b
    facts["ref"] = r
    return facts


class ModelProp:
    """A property decided by comparison with the reference model."""

    quick = 480
    thorough = 16000
    n_dirs = 3
    what = ""

    def __init__(self, pid, make, what, label=None, nontrivial=None, **kw):
        self.id = pid
        self.make = make
        self.rule = COMPARE_RULE + "Non-trivial: " + what
        self.label = label
        self.nontrivial = nontrivial
        self.__dict__.update(kw)
        register(self)

    def strategy(self):
        return st.composite(lambda draw: self.make(draw))()

    def case(self, spec):
        facts = compare(spec, self.n_dirs)
        labels = ["feasible" if facts["feasible"] else "infeasible"]
        if self.label:
            labels += list(self.label(spec))
        nt = facts["feasible"] and (
            self.nontrivial is None or self.nontrivial(spec)
        )
        return {"labels": labels, "nontrivial": bool(nt)}

    def known_case(self, spec):
        return self.case(spec)


def all_flows(spec):
    for n in spec["nodes"]:
        for b, f in n.get("in", {}).items():
            yield b, n["n"], f
        for b, f in n.get("out", {}).items():
            yield n["n"], b, f
