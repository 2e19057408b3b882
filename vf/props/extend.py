"""Models extended by users: own components and blocks, and limits that are
added step by step."""

import copy
import logging
import random

from hypothesis import strategies as st
from oemof import solph
from oemof.network.groupings import Entities
from oemof.network import Node
from pyomo.core import Constraint
from pyomo.core.base.block import ScalarBlock

from .. import build as build_module
from ..build import add_constraint, build, make_flow, names
from ..extract import compile_pyomo
from ..gen import maybe
from ..lp import solve
from ..run import Inconclusive, Violation
from . import commit, convert, flows, invest, limits, storage
from .compose import composed
from .meta import equivalent
from .outputs import Base, any_system, check
from .solving import objective_close


# ------------------------------------------------------------ own parts
def block_class(marked, name="UserBlock"):
    """a user's block: the relation of a converter and own costs"""

    class UserBlock(ScalarBlock):
        if marked:
            CONSTRAINT_GROUP = True

        def _create(self, group=None):
            self.members = list(group or [])
            if group is None:
                return
            m = self.parent_block()

            def rule(_, k, a, b, t):
                n = self.members[k]
                i, o = list(n.inputs)[a], list(n.outputs)[b]
                return (
                    m.flow[i, n, t] * n.factors[o][t]
                    == m.flow[n, o, t] * n.factors[i][t]
                )

            self.user_relation = Constraint(
                [
                    (k, a, b, t)
                    for k, n in enumerate(self.members)
                    for a in range(len(n.inputs))
                    for b in range(len(n.outputs))
                    for t in m.TIMESTEPS
                ],
                rule=rule,
            )

        def _objective_expression(self):
            m = self.parent_block()
            return sum(
                m.flow[i, o, t]
                * c[t]
                * m.objective_weighting[t]
                * m.tsam_weighting[t]
                for n in self.members
                for (i, o), c in n.flow_costs().items()
                for t in m.TIMESTEPS
            )

    UserBlock.__name__ = UserBlock.__qualname__ = name
    return UserBlock


class UserConverter(Node):
    def __init__(self, label, inputs, outputs, factors, costs, block):
        super().__init__(label=label, inputs=inputs, outputs=outputs)
        self.factors = factors
        self.costs = costs
        self.block = block

    def flow_costs(self):
        return {
            ((b, self) if b in self.inputs else (self, b)): c
            for b, c in self.costs.items()
        }

    def constraint_group(self):
        return self.block


class UserNode(Node):
    """no constraints at all"""


def as_series(v, T):
    v = v["v"] if isinstance(v, dict) else v
    return list(v) if isinstance(v, (list, tuple)) else [v] * (T + 1)


def user_converter(n, T, costs, block):
    cf = n.get("cf") or {}
    ins, outs = copy.deepcopy(n.get("in", {})), copy.deepcopy(
        n.get("out", {})
    )
    own = {}
    if costs:
        for side in (ins, outs):
            for b, f in side.items():
                if f.get("variable_costs") is not None:
                    own[b] = as_series(f.pop("variable_costs"), T)

    def make(nodes):
        return UserConverter(
            n["n"],
            {nodes[b]: make_flow(f) for b, f in ins.items()},
            {nodes[b]: make_flow(f) for b, f in outs.items()},
            {
                nodes[b]: as_series(cf.get(b, 1), T)
                for b in list(ins) + list(outs)
            },
            {nodes[b]: c for b, c in own.items()},
            block,
        )

    # (the flows stay for the keys of the public variables)
    return {"k": "custom", "n": n["n"], "make": make}


def user_end(n):
    ins, outs = n.get("in", {}), n.get("out", {})
    return {
        "k": "custom",
        "n": n["n"],
        "make": lambda nodes: UserNode(
            label=n["n"],
            inputs={nodes[b]: make_flow(f) for b, f in ins.items()},
            outputs={nodes[b]: make_flow(f) for b, f in outs.items()},
        ),
    }


def extended(of, changes, seed):
    """-> another build of the same system"""
    rng = random.Random(seed)
    spec = copy.deepcopy(of)
    T = len(spec["time"]["inc"])
    model, more = None, {}
    how = rng.choice(["marked", "argument", "class", "marked argument"])
    block = block_class("marked" in how)
    groups = []
    used = False
    if "converters" in changes:
        costs = "costs" in changes and not spec["time"].get("periods")
        for k, n in enumerate(spec["nodes"]):
            if n["k"] == "conv" and n.get("in") and n.get("out"):
                if rng.random() < 0.8:
                    spec["nodes"][k] = user_converter(n, T, costs, block)
                    used = True
        if "argument" in how:
            groups.append(block)
    if "unused" in changes:
        groups.append(block_class(False, "NeverUsed"))
    if "ends" in changes:
        for k, n in enumerate(spec["nodes"]):
            if n["k"] in ("source", "sink") and rng.random() < 0.5:
                spec["nodes"][k] = user_end(n)
                used = True
    if groups:
        more["constraint_groups"] = groups
    given = list(groups)
    base = solph.Model
    before = list(solph.Model.CONSTRAINT_GROUPS)
    standard = len(solph.GROUPINGS)
    if how == "class" and "converters" in changes:

        class MyModel(solph.Model):
            CONSTRAINT_GROUPS = solph.Model.CONSTRAINT_GROUPS + [block]

        base = model = MyModel
    if "increments" in changes and not (
        spec["time"].get("tsam") or spec["time"].get("mode")
    ):
        more["timeincrement"] = list(spec["time"]["inc"])
        spec["time"]["inc"] = [1.0] * T
        if spec["time"].get("periods") is None:
            used = True
    own = "subclasses" in changes
    if own:
        spec["own"] = True
    if "groupings" in changes:
        spec["groupings"] = [
            Entities(lambda x: ("initial", str(x.label)[0])),
            Entities(lambda x: "marked by a user"
                     if len(str(x.label)) % 2 else None),
        ]
        listed = list(spec["groupings"])
    b = build(spec, model, **more)
    if "groupings" in changes:
        check(spec["groupings"] == listed, "the list of groupings changed")
        check(len(solph.GROUPINGS) == standard,
              "the groupings of all systems were changed")
        for key in {("initial", str(x.label)[0]) for x in b.es.nodes}:
            check(b.es.groups.get(key) == {
                x for x in b.es.nodes if str(x.label)[0] == key[1]},
                "group {}: {}", key, b.es.groups.get(key))
        check(b.es.groups.get("marked by a user", set()) == {
            x for x in b.es.nodes if len(str(x.label)) % 2},
            "marked: {}", b.es.groups.get("marked by a user"))
        used = True
    check(groups == given, "the given list of groups was changed")
    check(before == list(solph.Model.CONSTRAINT_GROUPS),
          "the groups of all models were changed")
    check(type(b.m) is base, "a model of type {}", type(b.m))
    b.spec = of
    return b, used or own or bool(groups)


class UserParts(Base):
    quick = 320
    thorough = 10000

    def case(self, spec):
        of = spec["of"]
        a = build(of)
        try:
            b, used = extended(of, spec["changes"], spec["seed"])
        except build_module.BuildError as e:
            raise Violation(f"refused with {spec['changes']}: {e}") from e
        facts = equivalent(of, a, b, f"with {spec['changes']}")
        return {
            "labels": list(spec["changes"])
            + ["feasible" if facts["feasible"] else "infeasible"],
            "nontrivial": bool(facts["feasible"]) and used,
        }


PARTS = ["converters", "costs", "unused", "ends", "increments", "subclasses",
         "groupings"]


def user_make(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        of = composed(draw, lo=2, hi=3)
    elif k == 1:
        of = convert.converter_system(draw)
    elif k == 2:
        of = composed(
            draw, ("plain",), lo=2, hi=3,
            makers=[convert.converter_system, flows.cost_system,
                    storage.dispatch_system, invest.invest_flow_system],
        )
    else:
        of = any_system(draw)
    # names of nodes are the labels here
    of.pop("nest", None)
    changes = draw(
        st.lists(st.sampled_from(PARTS), min_size=1, max_size=4, unique=True)
    )
    return {"of": of, "changes": sorted(changes),
            "seed": draw(st.integers(0, 10**6)), "dir": 0}


UserParts(
    "user-parts",
    user_make,
    "case: a generated system is built as it is and with parts defined by a "
    "user: converters with an own block of constraints and costs (found by "
    "its mark, given to the model or listed by a subclass of Model), nodes "
    "without a block in place of sources and sinks, subclasses of solph's "
    "components and buses, unused blocks, groupings of nodes, time increments given to the "
    "model; both models have the same plans and costs. Non-trivial: feasible "
    "and at least one part defined by the user.",
)


# ------------------------------------------------------------ growing models
REPLACED = ("generic_integral_limit", "emission_limit")


def solved(m, what):
    """solve; the objective is checked with another solver"""
    mat, _ = compile_pyomo(m)
    state, value, _ = solve(mat, mat.c)
    try:
        r = m.solve(
            solver="cbc", cmdline_options={"sec": 20}, allow_nonoptimal=True
        )
    except ValueError as e:
        if state != "optimal":
            # the solver may leave nothing that could be loaded
            return
        raise Violation(f"no solution {what}: {e}") from e
    end = str(m.solver_results.solver.termination_condition)
    if state != "optimal":
        return
    if end == "maxTimeLimit":
        raise Inconclusive("time limit")
    check(end == "optimal", "{} {}", end, what)
    value += mat.const
    check(objective_close(r["objective"], value, 50),
          "objective {} instead of {} {}", r["objective"], value, what)


class Growing(Base):
    quick = 240
    thorough = 8000

    def case(self, spec):
        logging.disable(logging.CRITICAL)
        try:
            return self.history(spec)
        finally:
            logging.disable(logging.NOTSET)

    def history(self, spec):
        of = spec["of"]
        target = build(of)
        bare = copy.deepcopy(of)
        todo = bare.pop("constraints", [])
        b = build(bare)
        solves = 0
        for n, c in enumerate(todo):
            for step in spec["steps"][n % len(spec["steps"])]:
                if step == "solve":
                    solved(b.m, f"before limit {n}")
                    solves += 1
                elif step == "looser" and c["c"] in REPLACED:
                    other = {
                        k: (v * 2 + 1 if k in ("limit", "upper_limit")
                            else v / 2 - 1 if k == "lower_limit" else v)
                        for k, v in c.items()
                    }
                    add_constraint(b.m, b.nodes, other)
                elif step == "tighter" and c["c"] in REPLACED:
                    other = {
                        k: (v / 2 - 1 if k in ("limit", "upper_limit")
                            else v * 2 + 1 if k == "lower_limit" else v)
                        for k, v in c.items()
                    }
                    add_constraint(b.m, b.nodes, other)
            add_constraint(b.m, b.nodes, c)
        if spec["last"]:
            solved(b.m, "in the end")
            solves += 1
        b.names = names(b)
        facts = equivalent(of, target, b, "with limits added step by step")
        return {
            "labels": [c["c"] for c in todo]
            + ["feasible" if facts["feasible"] else "infeasible"]
            + (["several"] if len(todo) > 1 else [])
            + sorted({s for x in spec["steps"] for s in x}),
            "nontrivial": bool(facts["feasible"]) and solves > 0,
        }


LIMITED = [
    limits.integral_system,
    limits.integral_system,
    limits.equate_system,
    invest.invest_limit_make,
    commit.count_system,
    storage.shared_system,
    storage.level_system,
]


PARTS_LIMITED = [
    invest.invest_limit_system if x is invest.invest_limit_make else x
    for x in LIMITED
]


def growing_make(draw):
    if maybe(draw, 3):
        of = composed(draw, ("plain",), lo=2, hi=3, makers=PARTS_LIMITED)
    else:
        of = draw(st.sampled_from(LIMITED))(draw)
    steps = draw(
        st.lists(
            st.lists(
                st.sampled_from(["solve", "solve", "looser", "tighter"]),
                max_size=3,
            ),
            min_size=1,
            max_size=3,
        )
    )
    return {"of": of, "steps": steps, "last": not maybe(draw, 3), "dir": 0}


Growing(
    "growing-models",
    growing_make,
    "case: a generated system with limits is built without them; they are "
    "added one after another, between solving it and (integral limits) "
    "setting the same limit with another value before; every solution is the "
    "optimum of the model at that time, and the final model has the same "
    "plans and costs as one built at once. Non-trivial: feasible and solved "
    "at least once.",
)

