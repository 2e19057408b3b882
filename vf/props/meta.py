"""Relations between models: equivalent descriptions of a system, refined
time steps, restored systems, and models that are built repeatedly."""

import copy
import math
import os
import random
import re
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from oemof import solph
from oemof.network import Node
from pyomo.environ import Var

from .. import build as build_module
from ..build import Built, add_constraint, build, model_kwargs, names, series
from ..extract import compile_pyomo
from ..gen import REPS, directions, maybe
from ..lp import VAL_TOL, Pair, solve
from ..run import Violation
from . import commit, convert, flows, invest, limits, multi, storage
from .compose import composed
from .outputs import Base, any_system, check, fill, node_properties

# ---------------------------------------------------------- representation

PER_STEP = {
    "variable_costs", "minimum", "maximum", "fix", "min", "max",
    "positive_gradient_limit", "negative_gradient_limit",
    "startup_costs", "shutdown_costs", "activity_costs", "inactivity_costs",
    "loss_rate", "fixed_losses_relative", "fixed_losses_absolute",
    "inflow_conversion_factor", "outflow_conversion_factor", "storage_costs",
}
PER_POINT = {"min_storage_level", "max_storage_level"}
FLOW_DEFAULTS = {
    "variable_costs": 0,
    "integer": False,
    "full_load_time_max": None,
    "full_load_time_min": None,
    "positive_gradient_limit": None,
    "negative_gradient_limit": None,
    "fix": None,
    "lifetime": None,
    "age": None,
    "fixed_costs": None,
    "minimum": 0,
    "maximum": 1,
    "custom_properties": None,
}
NONCONVEX_DEFAULTS = {
    "initial_status": 0,
    "minimum_uptime": 0,
    "minimum_downtime": 0,
    "maximum_startups": None,
    "maximum_shutdowns": None,
    "startup_costs": None,
    "shutdown_costs": None,
    "activity_costs": None,
    "inactivity_costs": None,
    "positive_gradient_limit": None,
    "negative_gradient_limit": None,
    "custom_properties": None,
}
INVEST_DEFAULTS = {
    "maximum": math.inf,
    "minimum": 0,
    "ep_costs": 0,
    "existing": 0,
    "nonconvex": False,
    "offset": 0,
    "overall_maximum": None,
    "overall_minimum": None,
    "lifetime": None,
    "age": 0,
    "fixed_costs": None,
    "custom_properties": None,
}
STORAGE_DEFAULTS = {
    "initial_storage_level": None,
    "invest_relation_input_output": None,
    "invest_relation_input_capacity": None,
    "invest_relation_output_capacity": None,
    "min_storage_level": 0,
    "max_storage_level": 1,
    "balanced": True,
    "loss_rate": 0,
    "fixed_losses_relative": 0,
    "fixed_losses_absolute": 0,
    "inflow_conversion_factor": 1,
    "outflow_conversion_factor": 1,
    "constant_soc_until": None,
    "fraction_saturation_charging": None,
    "fixed_costs": 0,
    "storage_costs": None,
    "lifetime_inflow": None,
    "lifetime_outflow": None,
    "custom_properties": None,
}


def flows_of(spec):
    for n in spec["nodes"]:
        for side in ("in", "out"):
            yield from n.get(side, {}).values()


def in_other_form(rng, v, lengths, scalars):
    """another representation of a scalar or series"""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, dict):
        v = v["v"]
    if isinstance(v, (int, float)):
        if not scalars or rng.random() < 0.4 or not math.isfinite(v):
            return v
        v = [v] * lengths
    elif len(set(v)) == 1 and scalars and rng.random() < 0.7:
        return v[0]
    rep = rng.choice(REPS)
    return {"rep": rep, "v": list(v)}


def reform(spec, rng):
    T = len(spec["time"]["inc"])
    plain = not spec["time"].get("tsam") and not spec["time"].get("periods")

    def go(d):
        for k in list(d):
            if k in ("minimum", "min") and d.get("bidirectional"):
                continue
            if k in PER_STEP:
                d[k] = in_other_form(rng, d[k], T, True)
            elif k in PER_POINT:
                d[k] = in_other_form(rng, d[k], T + 1, plain)

    for n in spec["nodes"]:
        if "kw" in n:
            go(n["kw"])
        for key in ("cf", "cfc"):
            if isinstance(n.get(key), dict):
                n[key] = {
                    b: in_other_form(rng, v, T, True)
                    for b, v in n[key].items()
                }
        if n["k"] == "link":
            n["cf"] = [
                [a, b, in_other_form(rng, v, T, True)] for a, b, v in n["cf"]
            ]
        if n["k"] == "gchp":
            n["beta"] = in_other_form(rng, n["beta"], T, True)
    for f in flows_of(spec):
        inv = f.get("investment")
        go(f)
        if inv is not None:
            f["investment"] = inv
        if f.get("nonconvex"):
            go(f["nonconvex"])


def explicit(spec, rng):
    """give defaults explicitly"""
    def put(d, defaults, skip=()):
        for k, v in defaults.items():
            if k not in d and k not in skip and rng.random() < 0.5:
                d[k] = v

    for n in spec["nodes"]:
        if n["k"] == "bus" and "balanced" not in n:
            n["balanced"] = True
        if n["k"] == "conv" and n.get("cf") is not None:
            for b in list(n.get("in", {})) + list(n.get("out", {})):
                if b not in n["cf"] and rng.random() < 0.5:
                    n["cf"][b] = 1
        if n["k"] == "storage":
            n.setdefault("kw", {})
            put(n["kw"], STORAGE_DEFAULTS)
            if n.get("investment") is not None:
                put(n["investment"], INVEST_DEFAULTS)
    for f in flows_of(spec):
        if "min" in f or "max" in f:
            continue
        skip = set()
        if "nominal_capacity" not in f and "investment" not in f:
            skip |= {"minimum", "maximum"}
        if "fix" in f:
            # not allowed at the same time
            skip |= {"minimum", "maximum"}
        if "custom_attributes" in f:
            skip.add("custom_properties")
        put(f, FLOW_DEFAULTS, skip)
        if f.get("investment") is not None:
            put(f["investment"], INVEST_DEFAULTS)
        if f.get("nonconvex") is not None:
            put(f["nonconvex"], NONCONVEX_DEFAULTS)


def old_names(spec, rng):
    """use the deprecated names of some parameters"""
    for f in flows_of(spec):
        for new, old in (("nominal_capacity", "nominal_value"),
                         ("minimum", "min"), ("maximum", "max"),
                         ("custom_properties", "custom_attributes")):
            if f.get(new) is not None and rng.random() < 0.5:
                f[old] = f.pop(new)
        if f.get("minimum") == -1 and rng.random() < 0.7:
            del f["minimum"]
            f["bidirectional"] = True
        if f.get("investment") is not None and rng.random() < 0.5:
            f["alias"] = "nominal_value"
    for n in spec["nodes"]:
        if n["k"] == "storage" and rng.random() < 0.5:
            if n.get("investment") is not None:
                n["alias"] = "nominal_storage_capacity"
            elif "nominal_capacity" in n.get("kw", {}):
                n["kw"]["nominal_storage_capacity"] = n["kw"].pop(
                    "nominal_capacity"
                )


def shuffle(spec, rng):
    def mix(d):
        keys = list(d)
        rng.shuffle(keys)
        return {k: d[k] for k in keys}

    for n in spec["nodes"]:
        for key in ("in", "out", "cf", "cfc", "no"):
            if isinstance(n.get(key), dict):
                n[key] = mix(n[key])
    rng.shuffle(spec["nodes"])
    spec.pop("order", None)
    if rng.random() < 0.5:
        spec["order"] = list(range(len(spec["nodes"])))
        rng.shuffle(spec["order"])
    if spec.get("constraints"):
        rng.shuffle(spec["constraints"])


def relabel(spec, rng, style):
    out = {}
    ids = list(range(len(spec["nodes"])))
    rng.shuffle(ids)
    for n, i in zip(spec["nodes"], ids):
        kind = style if style != "mixed" else rng.choice(STYLES[:-1])
        if kind == "tuple":
            out[n["n"]] = [rng.choice(["b", "x"]), i, "z"]
        elif kind == "int":
            out[n["n"]] = i
        elif kind == "long":
            out[n["n"]] = "a very long label, of a node " * 4 + str(i)
        elif kind == "signs":
            out[n["n"]] = rng.choice(["a b", "(a, b)", "a:[x]", "ä'\"", "_"]
                                     ) + str(i)
        elif kind == "words":
            out[n["n"]] = ["flow", "None", "to", "in", "status", "zero", "nan",
                           "invest", "p", "dual"][i % 10] + " " * (i // 10)
    spec["labels"] = out


STYLES = ["tuple", "int", "long", "signs", "words", "mixed"]


def nested(spec, rng):
    nest = {}
    for n in spec["nodes"]:
        if rng.random() < 0.5:
            nest[n["n"]] = rng.choice(["group 1", "group 2"])
    spec["nest"] = nest


def other_side(spec, rng):
    """sources and sinks are connected later, or from the bus"""
    spec["side"] = {
        n["n"]: rng.choice(["bus", "later", "given"]) for n in spec["nodes"]
        if n["k"] in ("source", "sink") and rng.random() < 0.7
    }


def grow(spec, rng):
    """a model is built, then further components are added"""
    n = sum(x["k"] != "bus" for x in spec["nodes"])
    if n > 1 and not spec.get("nest"):
        spec["grow"] = rng.randrange(1, n)


def other_time(spec, rng):
    t = spec["time"]
    if t.get("tsam") or t.get("periods"):
        return
    modes = [None, "increment", "numeric", "model"]
    if len(t["inc"]) >= 3 and len(set(t["inc"])) == 1:
        modes.append("infer")
    modes = [x for x in modes if x != t.get("mode")]
    t.pop("mode", None)
    mode = rng.choice(modes)
    if mode:
        t["mode"] = mode
    if rng.random() < 0.5:
        t["start"] = rng.choice(["1999-12-31 23:00", "2024-02-28 12:30"])


def add_properties(spec, rng):
    spec["props"] = node_properties(spec, rng)


CHANGES = {
    "order": shuffle,
    "forms": reform,
    "defaults": explicit,
    "old names": old_names,
    "nested": nested,
    "time": other_time,
    "side": other_side,
    "grow": grow,
    "props": add_properties,
}


def changed(spec, todo, seed):
    out = copy.deepcopy(spec)
    for name in ("old names", "defaults", "forms", "time", "nested",
                 "props", "labels", "side", "grow", "order", "split",
                 "shared"):
        if name not in todo:
            continue
        rng = random.Random(f"{seed} {name}")
        if name == "labels":
            relabel(out, rng, rng.choice(STYLES))
        elif name == "shared":
            out["shared"] = True
        elif name == "split":
            out["split"] = rng.choice([1, 2, 3])
        else:
            CHANGES[name](out, rng)
    return out


def public(b):
    mat, col = compile_pyomo(b.m)
    return mat, {
        k: col[id(v)] for k, v in b.names.items() if id(v) in col
    }


def equivalent(spec, a, b, what, n_dirs=2):
    """two builds have the same public variables, plans and costs"""
    ma, na = public(a)
    mb, nb = public(b)
    diff = set(na) ^ set(nb)
    check(not diff, "{}: variables {} in one model only", what,
          sorted(map(str, diff))[:5])
    pair = Pair(ma, na, mb, nb)
    facts = pair.compare(directions(spec, sorted(pair.names, key=str),
                                    n_dirs))
    return facts


def check_properties(spec, nodes):
    for name, given in spec.get("props", {}).items():
        got = nodes[name].custom_properties
        check(set(got) == set(given) and all(
            values(got[k]) == values(series(v)) for k, v in given.items()),
            "custom properties of {} are {} instead of {}", name, got, given)


def representation_case(spec):
    a = build(spec["of"])
    other = changed(spec["of"], spec["changes"], spec["seed"])
    try:
        b = build(other)
    except build_module.BuildError as e:
        raise Violation(f"refused after {spec['changes']}: {e}") from e
    check_properties(other, b.nodes)
    facts = equivalent(spec["of"], a, b, f"after {spec['changes']}")
    return facts


class Representation(Base):
    quick = 480
    thorough = 24000

    def case(self, spec):
        facts = representation_case(spec)
        return {
            "labels": list(spec["changes"])
            + ["feasible" if facts["feasible"] else "infeasible"],
            "nontrivial": bool(facts["feasible"]),
        }


def representation_make(draw):
    if maybe(draw, 3):
        of = composed(draw, lo=2, hi=3)
    elif maybe(draw, 4):
        of = draw(st.sampled_from(
            [limits.integral_system, limits.equate_system,
             commit.count_system, storage.shared_system,
             storage.soc_system, commit.times_system, commit.status_system]
        ))(draw)
    else:
        of = any_system(draw)
    names_ = ["order", "forms", "defaults", "old names", "nested", "time",
              "labels", "split", "side", "grow", "shared", "props"]
    k = draw(st.integers(1, 4))
    todo = draw(st.permutations(names_))[:k]
    return {"of": of, "changes": sorted(todo),
            "seed": draw(st.integers(0, 10**6)), "dir": 0}


Representation(
    "representation",
    representation_make,
    "case: a generated system and an equivalent description of it (other "
    "order of nodes, parameters and constraints, adding in several steps, "
    "with a model built in between, connections made later or by the bus, "
    "other labels, subnodes, scalars as series and vice versa, other "
    "containers, objects shared by several components, explicit defaults, "
    "deprecated names, another form of the time axis); both models have the same plans and costs (optima of the "
    "objective and of random directions, membership and cost of every "
    "optimal point). Non-trivial: feasible.",
)

# --------------------------------------------------------------- refinement

SMOOTH = [
    flows.bus_system,
    flows.bound_system,
    flows.flh_system,
    flows.cost_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    storage.dispatch_system,
    storage.shared_system,
    storage.storage_invest_system,
    invest.invest_flow_system,
    limits.integral_system,
    limits.equate_system,
]
SMOOTH_MULTI = [
    multi.multi_system,
    multi.multi_cost_system,
]
NOT_SMOOTH_FLOW = (
    "nonconvex", "integer", "positive_gradient_limit",
    "negative_gradient_limit",
)
NOT_SMOOTH_STORAGE = (
    "loss_rate", "storage_costs", "constant_soc_until",
    "fraction_saturation_charging",
)


def smooth(spec):
    """drop what depends on the length of the steps"""
    spec = copy.deepcopy(spec)
    for f in flows_of(spec):
        for k in NOT_SMOOTH_FLOW:
            f.pop(k, None)
    for n in spec["nodes"]:
        if n["k"] == "storage":
            kw = n.setdefault("kw", {})
            for k in NOT_SMOOTH_STORAGE:
                kw.pop(k, None)
            for k in PER_POINT:
                if isinstance(kw.get(k), (list, dict)):
                    v = kw[k]
                    v = v["v"] if isinstance(v, dict) else v
                    kw[k] = max(v) if k.startswith("max") else min(v)
    spec["constraints"] = [
        c for c in spec.get("constraints", ())
        if "active_flow_count" not in c["c"] and c["c"] != "storage_level"
        and c.get("of") != "status"
    ]
    multi = "periods" in spec["time"]
    spec["nodes"] = [
        n for n in spec["nodes"]
        if n["k"] not in ("gchp", "offset", "pwl", "caes")
        and not (multi and n["k"] == "storage" and n.get("investment"))
    ]
    spec.pop("order", None)
    return spec


def refine(spec, parts):
    """every step k is divided into parts[k] equal steps"""
    out = copy.deepcopy(spec)
    T = len(parts)

    def rep(v):
        if isinstance(v, dict) and "v" in v and "rep" in v:
            return {"rep": v["rep"], "v": rep(v["v"])}
        if isinstance(v, list) and len(v) == T:
            return [x for x, k in zip(v, parts) for _ in range(k)]
        return v

    def go(d):
        for k in list(d):
            if k in PER_STEP:
                d[k] = rep(d[k])

    t = out["time"]
    t["inc"] = [
        x / k for x, k in zip(spec["time"]["inc"], parts) for _ in range(k)
    ]
    if t.get("weights") is not None:
        t["weights"] = [
            x / k for x, k in zip(spec["time"]["weights"], parts)
            for _ in range(k)
        ]
    if t.get("periods"):
        pos = 0
        for p in t["periods"]:
            n = p["n"]
            p["n"] = sum(parts[pos:pos + n])
            pos += n
    if t.get("mode") == "infer" and len(set(t["inc"])) > 1:
        t.pop("mode")
    for n in out["nodes"]:
        go(n.get("kw", {}))
        for key in ("cf", "cfc"):
            if isinstance(n.get(key), dict):
                n[key] = {b: rep(v) for b, v in n[key].items()}
        if n["k"] == "link":
            n["cf"] = [[a, b, rep(v)] for a, b, v in n["cf"]]
    for f in flows_of(out):
        inv = f.get("investment")
        go(f)
        if f.get("custom_properties"):
            f["custom_properties"] = {
                k: rep(v) for k, v in f["custom_properties"].items()
            }
        if inv is not None:
            f["investment"] = inv
    return out


def refinement_case(spec):
    of, parts = spec["of"], spec["parts"]
    a = build(of)
    b = build(refine(of, parts))
    ma, na = public(a)
    mb, nb = public(b)
    start = np.concatenate([[0], np.cumsum(parts)])
    aggregated = {}
    for key, j in na.items():
        if key[0] == "flow":
            t = key[-1]
            cols = [
                nb[key[:-1] + (s,)] for s in range(start[t], start[t + 1])
            ]
            aggregated[key] = (j, cols, 1 / parts[t])
        elif key[0] == "content":
            aggregated[key] = (j, [nb[key[:-1] + (start[key[-1]],)]], 1.0)
        else:
            check(key in nb, "{} is no variable of the refined model", key)
            aggregated[key] = (j, [nb[key]], 1.0)
    box = 1000.0
    for key, (j, cols, _) in aggregated.items():
        if key[0] == "content":
            continue
        ma.lb[j], ma.ub[j] = max(ma.lb[j], -box), min(ma.ub[j], box)
    for key, j in nb.items():
        if key[0] == "content":
            continue
        mb.lb[j], mb.ub[j] = max(mb.lb[j], -box), min(mb.ub[j], box)
    feasible = None
    keys = sorted(aggregated, key=str)
    for d in [None] + directions(of, keys, 2):
        if d is None:
            ca, cb, what = ma.c, mb.c, "cost"
        else:
            ca, cb = np.zeros(ma.n), np.zeros(mb.n)
            what = f"min {d}"
            for k, v in d.items():
                j, cols, w = aggregated[k]
                ca[j] += v
                for c in cols:
                    cb[c] += v * w
        sa, va, xa = solve(ma, ca)
        sb, vb, xb = solve(mb, cb)
        check(sa == sb, "{}: {}, but {} after refinement {}", what, sa, sb,
              parts)
        feasible = sa != "infeasible"
        if sa != "optimal":
            if sa == "infeasible":
                break
            continue
        if d is None:
            va += ma.const
            vb += mb.const
        scale = float(np.abs(ca) @ (1 + np.abs(xa)))
        check(abs(va - vb) <= VAL_TOL * (1 + 2 * scale + abs(va)),
              "{}: {:.8g}, but {:.8g} after refinement {}", what, va, vb,
              parts)
    return feasible


class Refinement(Base):
    quick = 480
    thorough = 24000

    def case(self, spec):
        feasible = refinement_case(spec)
        kinds = {n["k"] for n in spec["of"]["nodes"]}
        return {
            "labels": sorted(kinds)
            + ["multi" if spec["of"]["time"].get("periods") else "plain"]
            + ["feasible" if feasible else "infeasible"],
            "nontrivial": bool(feasible),
        }


def refinement_make(draw):
    if maybe(draw, 5):
        of = draw(st.sampled_from(SMOOTH_MULTI))(draw)
    elif maybe(draw, 3):
        of = composed(draw, kinds=("plain",), lo=2, hi=3, makers=SMOOTH)
    else:
        of = draw(st.sampled_from(SMOOTH))(draw)
    of = smooth(of)
    T = len(of["time"]["inc"])
    parts = draw(
        st.lists(st.integers(1, 3), min_size=T, max_size=T).filter(
            lambda x: max(x) > 1
        )
    )
    return {"of": of, "parts": parts}


Refinement(
    "refinement",
    refinement_make,
    "case: a generated linear system without properties that depend on the "
    "length of a step (relative losses, gradients, status, costs of single "
    "contents), and the same system with steps divided into equal parts: "
    "same feasibility, optimal cost and optima of random directions over "
    "mean flows, contents and capacities. Non-trivial: feasible.",
)

# ------------------------------------------------------------- dump/restore


def model_of(es, spec):
    b = Built()
    b.spec = spec
    b.es = es
    b.nodes = {
        n["n"]: es.node[build_module.label_of(spec, n["n"])]
        for n in spec["nodes"]
    }
    b.m = solph.Model(es, **model_kwargs(spec))
    for c in spec.get("constraints", []):
        add_constraint(b.m, b.nodes, c)
    b.names = names(b)
    return b


def values(x):
    """a comparable form of results"""
    if hasattr(x, "to_dict"):
        return {str(k): values(v) for k, v in x.to_dict().items()}
    if isinstance(x, dict):
        return {str(k): values(v) for k, v in x.items()}
    return ADDRESS.sub("", str(x))


ADDRESS = re.compile(" at 0x[0-9a-f]+")
GRAPH = {"_inputs", "_outputs", "_in_edges", "_energy_system", "_parent",
         "_subnodes", "input", "output"}


def content_of(x, depth=0):
    """a comparable form of parameters"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Node):
        if depth:
            return ["node", str(x)]
    elif isinstance(x, dict):
        return {
            str(k): content_of(v, depth + 1)
            for k, v in sorted(x.items(), key=str)
        }
    elif isinstance(x, (list, tuple, set, np.ndarray)):
        return [content_of(v, depth + 1) for v in x]
    elif isinstance(x, pd.Series):
        return [content_of(v, depth + 1) for v in x.to_numpy()]
    elif type(x).__name__ == "_EmulatedSequence" or hasattr(x, "to_numpy"):
        return [str(x.size), content_of(x[0] if x.size else None)]
    attrs = dict(getattr(x, "__dict__", {}))
    if not attrs:
        return str(type(x))
    return [str(type(x)), {
        k: content_of(v, depth + 1)
        for k, v in sorted(attrs.items())
        if k not in GRAPH
    }]


def system_content(es):
    return [
        [
            content_of(n),
            sorted(str(i) for i in n.inputs),
            sorted(
                ([str(o), content_of(f)] for o, f in n.outputs.data.items()),
                key=str,
            ),
        ]
        for n in es.nodes
    ]


def dump_case(spec):
    of = spec["of"]
    a = build(of)
    results = {}
    if spec["results"]:
        fill(a.m, of.get("vals", 0))
        results = {
            "main": solph.processing.results(a.m),
            "param": solph.processing.parameter_as_dict(a.es),
            "text": solph.processing.convert_keys_to_strings(
                solph.processing.results(a.m)
            ),
        }
        a.es.results = results
    before = system_content(a.es)
    folder = tempfile.mkdtemp()
    path = os.path.join(folder, "x.oemof")
    try:
        if spec["path"] == "dpath":
            a.es.dump(dpath=folder, filename="x.oemof")
        else:
            a.es.dump(filename=path, consider_dpath=False)
        if spec["back"] == "from_file":
            es = solph.EnergySystem.from_file(path)
        else:
            es = solph.EnergySystem()
            if spec["back"] == "dpath":
                es.restore(dpath=folder, filename="x.oemof")
            else:
                es.restore(filename=path, consider_dpath=False)
    finally:
        shutil.rmtree(folder)
    check(isinstance(es, solph.EnergySystem), "restored {}", type(es))
    check(system_content(a.es) == before, "changed by dumping")
    check_properties(of, {n["n"]: es.node[n["n"]] for n in of["nodes"]})
    after = system_content(es)
    check(len(after) == len(before), "{} nodes instead of {}", len(after),
          len(before))
    for x, y in zip(before, after):
        check(x == y, "{} becomes {}", x, y)
    for n in of["nodes"]:
        node = es.node[n["n"]]
        check(node is not a.nodes[n["n"]] and node == a.nodes[n["n"]],
              "node {} was not restored", n["n"])
    for key, want in results.items():
        check(values(want) == values(es.results[key]),
              "other results after restoring ({})", key)
    if results:
        for n in of["nodes"]:
            for res in (results["main"], results["text"]):
                x = solph.views.node(res, n["n"])
                y = solph.views.node(
                    es.results["main" if res is results["main"] else "text"],
                    n["n"],
                )
                check(values(x) == values(y),
                      "another view of node {} after restoring", n["n"])
    for attr in ("timeindex", "timeincrement", "periods", "tsa_parameters"):
        x, y = getattr(a.es, attr), getattr(es, attr)
        check(str(x) == str(y), "{} {} becomes {}", attr, x, y)
    return before


class Dump(Base):
    quick = 320
    thorough = 12000

    def case(self, spec):
        dump_case(spec)
        return {
            "labels": [spec["of"]["kind"], spec["path"], spec["back"],
                       "results" if spec["results"] else "system"],
            "nontrivial": len(spec["of"]["nodes"]) > 2,
        }


def dump_make(draw):
    of = composed(draw, lo=2, hi=3) if maybe(draw, 4) else any_system(draw)
    # functions cannot be saved
    of["nodes"] = [n for n in of["nodes"] if n["k"] != "pwl"]
    of.pop("order", None)
    return {
        "of": of,
        "results": maybe(draw, 2),
        "path": draw(st.sampled_from(["dpath", "filename"])),
        "back": draw(st.sampled_from(["dpath", "filename", "from_file"])),
    }


Dump(
    "dump-restore",
    dump_make,
    "case: a generated system (with results or without) is dumped to a "
    "scratch folder and restored; nodes, flows, all their parameters, the "
    "time axis, results and views of them are the same. Non-trivial: more "
    "than two nodes.",
)

# ------------------------------------------------------------------- purity


def fixed_copy(mat):
    return (mat.A.toarray().tolist(), mat.lo.tolist(), mat.hi.tolist(),
            mat.lb.tolist(), mat.ub.tolist(), mat.integ.tolist(),
            mat.c.tolist(), mat.const)


def equal_value(a, b):
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    except (TypeError, ValueError):
        return str(a) == str(b)


def purity_case(spec):
    of, other = spec["of"], spec["other"]
    before = copy.deepcopy(of)
    build_module.RECORD = []
    try:
        a = build(of)
        record = build_module.RECORD
    finally:
        build_module.RECORD = None

    def unchanged(when):
        check(of == before, "given parameters were changed {}", when)
        for x, y in record:
            check(type(x) is type(y) and equal_value(x, y),
                  "{} instead of {} {}", x, y, when)

    unchanged("when building")
    first = fixed_copy(public(a)[0])
    labels = [str(n) for n in a.es.nodes]
    params = values(solph.processing.parameter_as_dict(a.es))
    todo = list(spec["todo"])
    for what in todo:
        if what == "other":
            build(other)
        elif what == "again":
            b = model_of(a.es, of)
            check(b.m is not a.m, "no new model")
            equivalent(of, a, b, "built again", n_dirs=1)
        elif what == "fresh":
            b = build(of)
            check(fixed_copy(public(b)[0]) == first,
                  "another model when built again from the same parameters")
        elif what == "results":
            for v in a.m.component_data_objects(Var):
                if not v.fixed:
                    v.set_value(0.5, skip_validation=True)
            a.m.solver_results = {}
            r = solph.Results(a.m)
            one = {k: r[k] for k in r.keys()}
            two = {k: r[k] for k in r.keys()}
            for k in one:
                check(str(one[k]) == str(two[k]), "{} changes when read "
                      "again", k)
            x = values(solph.processing.results(a.m))
            y = values(solph.processing.results(a.m))
            check(x == y, "results change when processed again")
        elif what == "relax":
            b = model_of(a.es, of)
            b.m.relax_problem()
        elif what == "increments":
            # of another model of the same system
            inc = [2.0 * x for x in of["time"]["inc"]]
            solph.Model(a.es, timeincrement=inc, discount_rate=0.5,
                        objective_weighting=[3.0] * len(inc))
            b = model_of(a.es, of)
            check(fixed_copy(public(b)[0]) == first,
                  "increments of one model are used in the next")
        elif what == "parameters":
            p = values(solph.processing.parameter_as_dict(a.es))
            check(p == params, "parameters change when listed again")
        elif what == "groups":
            _ = a.es.groups
            a.es.check()
        unchanged(f"({what})")
        check([str(n) for n in a.es.nodes] == labels,
              "nodes of the system have changed ({})", what)
        if what != "again":
            # (the comparison limits the matrix, but not the model)
            check(fixed_copy(public(a)[0]) == first,
                  "the model has changed ({})", what)
    return equivalent(of, a, build(before), "in the end", n_dirs=1)


STEPS = ["other", "again", "fresh", "results", "relax", "parameters",
         "groups", "increments"]


class Purity(Base):
    quick = 240
    thorough = 10000

    def case(self, spec):
        facts = purity_case(spec)
        return {
            "labels": list(set(spec["todo"]))
            + [spec["of"]["kind"],
               "feasible" if facts["feasible"] else "infeasible"],
            "nontrivial": bool(facts["feasible"]
                               and len(set(spec["todo"])) > 1),
        }


def purity_make(draw):
    of = composed(draw, lo=2, hi=3) if maybe(draw, 4) else any_system(draw)
    other = any_system(draw)
    todo = draw(st.lists(st.sampled_from(STEPS), min_size=2, max_size=5))
    return {"of": of, "other": other, "todo": todo}


Purity(
    "purity",
    purity_make,
    "case: a generated system and a sequence of steps (building further "
    "models from it or from its parameters, building another system, "
    "other increments, reading and processing results, relaxing, listing parameters); model, "
    "parameters and given containers stay the same. Non-trivial: feasible "
    "and at least two kinds of steps.",
)
