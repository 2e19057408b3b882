"""Build an oemof.solph energy system and model from a JSON-able spec,
through the public API only."""

import copy
import json
import random

import numpy as np
import pandas as pd
from oemof import solph
from oemof.network import Node
from oemof.solph import components as cmp
from oemof.solph import constraints as con

INF = float("inf")


class BuildError(Exception):
    """oemof.solph refused (or crashed on) a valid specification."""


# everything that is handed over (if a list): pairs of object and copy
RECORD = None


# objects that were made from equal descriptions (if they are shared)
SHARED = None


def shared(kind, x, make):
    """make(x), or what has been made before from an equal description"""
    if SHARED is None:
        return make(x)
    key = kind + json.dumps(x, sort_keys=True)
    if key not in SHARED:
        SHARED[key] = make(x)
    return SHARED[key]


def option(cls, kw):
    """an Investment or NonConvex object"""
    return shared(
        cls, kw, lambda x: getattr(solph, cls)(**decode(x))
    )


def series(x):
    """Decode a series parameter: scalar, list or {'rep':..., 'v': [...]}"""
    out = shared("series", x, _series)
    if RECORD is not None and not isinstance(out, (int, float, type(None))):
        RECORD.append((out, copy.deepcopy(out)))
    return out


def _series(x):
    if isinstance(x, dict):
        v = x["v"]
        rep = x["rep"]
        if rep == "np":
            return np.array(v, dtype=float)
        if rep == "npint":
            return np.array(v, dtype=int)
        if rep == "series":
            return pd.Series(v)
        if rep == "dtseries":
            return pd.Series(
                v, index=pd.date_range("2012-01-01", periods=len(v), freq="h")
            )
        if rep == "tuple":
            return tuple(v)
        if rep == "list":
            return list(v)
        raise AssertionError(rep)
    return x


SERIES_KEYS = {
    "variable_costs",
    "min",
    "max",
    "minimum",
    "maximum",
    "fix",
    "positive_gradient_limit",
    "negative_gradient_limit",
    "fixed_costs",
    "ep_costs",
    "offset",
    "startup_costs",
    "shutdown_costs",
    "activity_costs",
    "inactivity_costs",
    "minimum_uptime",
    "minimum_downtime",
    "min_storage_level",
    "max_storage_level",
    "loss_rate",
    "fixed_losses_relative",
    "fixed_losses_absolute",
    "inflow_conversion_factor",
    "outflow_conversion_factor",
    "storage_costs",
}


def decode(kw):
    return {k: (series(v) if k in SERIES_KEYS else v) for k, v in kw.items()}


def make_flow(spec):
    kw = dict(spec)
    inv = kw.pop("investment", None)
    nc = kw.pop("nonconvex", None)
    kw = decode(kw)
    for c in ("custom_properties", "custom_attributes"):
        if kw.get(c):
            kw[c] = {k: series(v) for k, v in kw[c].items()}
    if inv is not None:
        alias = kw.pop("alias", "nominal_capacity")
        kw[alias] = option("Investment", inv)
    if nc is not None:
        kw["nonconvex"] = option("NonConvex", nc)
    return solph.Flow(**kw)


def segments(p):
    """durations of the segments, in the order of p["mix"]"""
    items = [
        ((k, s), d)
        for k, ds in enumerate(p["segments"])
        for s, d in enumerate(ds)
    ]
    if p.get("mix"):
        random.Random(p["mix"]).shuffle(items)
    return dict(items)


def make_time(spec):
    """-> kwargs of EnergySystem"""
    t = spec["time"]
    kw = {}
    if t.get("periods"):
        idx = []
        for per in t["periods"]:
            year = 2020 + per["year"]
            n = per["n"]
            span = per.get("span", 1)
            start = pd.date_range(
                f"{year}-01-01", periods=n, freq=per.get("freq", "h")
            )
            if span > 1:
                start = start[:-1].append(
                    pd.DatetimeIndex([f"{year + span - 1}-06-01"])
                )
            idx.append(start)
        full = idx[0]
        for i in idx[1:]:
            full = full.append(i)
        kw["timeindex"] = full
        kw["timeincrement"] = list(t["inc"])
        kw["periods"] = idx
        if "use_remaining_value" in t:
            kw["use_remaining_value"] = t["use_remaining_value"]
    elif t.get("mode") == "increment":
        kw["timeincrement"] = list(t["inc"])
    elif t.get("mode") == "model":
        # the real increments are only known to the model
        kw["timeindex"] = pd.date_range(
            t.get("start", "2021-03-01"), periods=len(t["inc"]) + 1, freq="h"
        )
    elif t.get("mode") == "numeric":
        kw["timeindex"] = list(np.cumsum([0.0] + list(t["inc"])))
    elif t.get("mode") == "infer":
        kw["timeindex"] = pd.date_range(
            t.get("start", "2021-03-01"),
            periods=len(t["inc"]),
            freq=pd.Timedelta(hours=t["inc"][0]),
        )
        kw["infer_last_interval"] = True
    else:
        start = pd.Timestamp(t.get("start", "2021-03-01"))
        secs = np.round(np.cumsum([0.0] + list(t["inc"])) * 3600).astype(int)
        kw["timeindex"] = pd.DatetimeIndex(
            [start + pd.Timedelta(seconds=int(s)) for s in secs]
        )
    if t.get("tsam"):
        kw["tsa_parameters"] = [
            {
                "timesteps_per_period": p["timesteps_per_period"],
                "order": list(p["order"]),
                "timeindex": None,
                **(
                    {
                        "segments": segments(p)
                    }
                    if p.get("segments")
                    else {}
                ),
            }
            for p in t["tsam"]
        ]
        if not t.get("periods"):
            n = len(t["inc"])
            if t["tsam"][0].get("segments"):
                kw["timeindex"] = pd.date_range(
                    "2021-01-01", periods=n, freq="h"
                )
                kw.pop("timeincrement", None)
            else:
                kw["infer_last_interval"] = False
                kw.pop("timeincrement", None)
                kw["timeindex"] = pd.date_range(
                    "2021-01-01",
                    periods=n + 1,
                    freq=pd.Timedelta(hours=t["inc"][0]),
                )
    return kw


class Built:
    pass


def label_of(spec, name):
    """the label of a node: its name, or what is given in spec["labels"]"""
    x = spec.get("labels", {}).get(name, name)
    return tuple(x) if isinstance(x, list) else x


def attach(node, ins, outs, how):
    """connect a node after it has been created, from either side"""
    for b, f in ins.items():
        if how == "bus":
            b.outputs[node] = f
        else:
            node.inputs[b] = f
    for b, f in outs.items():
        if how == "bus":
            b.inputs[node] = f
        else:
            node.outputs[b] = f


def make_nodes(spec, pause=None):
    nodes = {}
    side = spec.get("side", {})
    count = 0
    todo = list(spec["nodes"])
    nest = spec.get("nest", {})
    groups = {}

    def place(name):
        """arguments that put the node into a group, and its properties"""
        kw = {}
        if name in spec.get("props", {}):
            kw["custom_properties"] = {
                k: series(v) for k, v in spec["props"][name].items()
            }
        g = nest.get(name)
        if g is None:
            return kw
        if g not in groups:
            groups[g] = Node(label=g)
        return {"parent_node": groups[g], **kw}

    # nodes whose flows are given to the bus
    of_bus = {}
    for n in todo:
        if side.get(n["n"]) != "given":
            continue
        kw = {"label": label_of(spec, n["n"]), **place(n["n"])}
        node = nodes[n["n"]] = (
            cmp.Source(outputs={}, **kw) if n["k"] == "source"
            else cmp.Sink(inputs={}, **kw)
        )
        for b, f in n.get("in", {}).items():
            of_bus.setdefault((b, "outputs"), {})[node] = make_flow(f)
        for b, f in n.get("out", {}).items():
            of_bus.setdefault((b, "inputs"), {})[node] = make_flow(f)
    for n in todo:
        if n["k"] == "bus":
            kw = {
                k: of_bus[n["n"], k] for k in ("inputs", "outputs")
                if (n["n"], k) in of_bus
            }
            if n.get("balanced") is not None:
                kw["balanced"] = n["balanced"]
            nodes[n["n"]] = solph.Bus(
                label=label_of(spec, n["n"]), **kw, **place(n["n"])
            )
    # exogenous node order
    for n in todo:
        k = n["k"]
        if k == "bus" or n["n"] in nodes:
            continue
        label = label_of(spec, n["n"])
        at = place(n["n"])
        ins = {nodes[b]: make_flow(f) for b, f in n.get("in", {}).items()}
        outs = {nodes[b]: make_flow(f) for b, f in n.get("out", {}).items()}
        cf = n.get("cf")
        if n["n"] in side and k in ("source", "sink"):
            if k == "source":
                node = cmp.Source(label=label, outputs={}, **at)
            else:
                node = cmp.Sink(label=label, inputs={}, **at)
            attach(node, ins, outs, side[n["n"]])
        elif k == "source":
            node = cmp.Source(label=label, outputs=outs, **at)
        elif k == "sink":
            node = cmp.Sink(label=label, inputs=ins, **at)
        elif k == "conv":
            node = cmp.Converter(
                label=label,
                inputs=ins,
                outputs=outs,
                **at,
                conversion_factors=(
                    None
                    if cf is None
                    else {nodes[b]: series(v) for b, v in cf.items()}
                ),
            )
        elif k == "etchp":
            node = cmp.ExtractionTurbineCHP(
                label=label,
                inputs=ins,
                outputs=outs,
                **at,
                conversion_factors={
                    nodes[b]: series(v) for b, v in cf.items()
                },
                conversion_factor_full_condensation={
                    nodes[b]: series(v) for b, v in n["cfc"].items()
                },
            )
        elif k == "link":
            node = cmp.Link(
                label=label,
                inputs=ins,
                outputs=outs,
                **at,
                conversion_factors={
                    (nodes[a], nodes[b]): series(v) for a, b, v in cf
                },
            )
        elif k == "offset":
            kw = {}
            if cf is not None:
                kw["conversion_factors"] = {
                    nodes[b]: series(v) for b, v in cf.items()
                }
            if n.get("no") is not None:
                kw["normed_offsets"] = {
                    nodes[b]: series(v) for b, v in n["no"].items()
                }
            if n.get("coefficients") is not None:
                kw["coefficients"] = tuple(
                    series(c) for c in n["coefficients"]
                )
            node = cmp.OffsetConverter(
                label=label, inputs=ins, outputs=outs, **kw, **at
            )
        elif k == "gchp":
            kw = {}
            if "back_pressure" in n:
                kw["back_pressure"] = n["back_pressure"]
            node = cmp.GenericCHP(
                label=label,
                fuel_input=ins,
                electrical_output={
                    nodes[n["el"]]: outs[nodes[n["el"]]],
                },
                heat_output={nodes[n["heat"]]: outs[nodes[n["heat"]]]},
                beta=series(n["beta"]),
                **kw,
                **at,
            )
        elif k == "storage":
            kw = decode(n.get("kw", {}))
            if n.get("investment") is not None:
                kw[n.get("alias", "nominal_capacity")] = option(
                    "Investment", n["investment"]
                )
            node = cmp.GenericStorage(
                label=label, inputs=ins, outputs=outs, **{**kw, **at}
            )
        elif k == "pwl":
            xs, ys = list(n["x"]), list(n["y"])
            node = cmp.experimental.PiecewiseLinearConverter(
                label,
                inputs=ins,
                outputs=outs,
                **at,
                in_breakpoints=xs,
                conversion_function=lambda x, xs=xs, ys=ys: float(
                    np.interp(x, xs, ys)
                ),
                pw_repn=n["repn"],
            )
        elif k == "caes":
            node = cmp.experimental.GenericCAES(
                label=label,
                electrical_input={nodes[n["el_in"]]: ins[nodes[n["el_in"]]]},
                fuel_input={nodes[n["fuel"]]: ins[nodes[n["fuel"]]]},
                electrical_output=outs,
                params=dict(n["params"]),
                **at,
            )
        elif k == "custom":
            node = n["make"](nodes)
        else:
            raise AssertionError(k)
        nodes[n["n"]] = node
        count += 1
        if pause is not None and count == spec["grow"]:
            pause(nodes)
    nodes[None] = list(groups.values())
    return nodes


def make_system(spec):
    """-> energy system and nodes, spec["own"]: of a user's subclasses"""
    global solph, cmp, SHARED
    if spec.get("shared"):
        SHARED = {}
        try:
            return make_system({**spec, "shared": False})
        finally:
            SHARED = None
    if not spec.get("own"):
        return _make_system(spec)
    from . import own

    kept = solph, cmp
    solph, cmp = own.own_solph, own.own_components
    try:
        return _make_system(spec)
    finally:
        solph, cmp = kept


def _make_system(spec):
    kw = make_time(spec)
    if spec.get("groupings"):
        kw["groupings"] = spec["groupings"]
    es = solph.EnergySystem(**kw)
    added = []

    def pause(nodes):
        """a model is built before the system is complete"""
        added.extend(nodes)
        es.add(*nodes.values())
        solph.Model(es, **model_kwargs(spec))

    nodes = make_nodes(spec, pause if "grow" in spec else None)
    groups = nodes.pop(None)
    order = spec.get("order")
    labels = list(nodes)
    if order:
        labels = [labels[i % len(labels)] for i in order]
        seen = []
        for x in labels + list(nodes):
            if x not in seen:
                seen.append(x)
        labels = seen
    nest = spec.get("nest", {})
    todo = [nodes[x] for x in labels
            if x not in nest and x not in added] + groups
    size = spec.get("split") or max(1, len(todo))
    for k in range(0, len(todo), size):
        es.add(*todo[k:k + size])
    return es, nodes


def model_kwargs(spec):
    kw = {}
    t = spec["time"]
    if t.get("weights") is not None:
        kw["objective_weighting"] = t["weights"]
    if t.get("mode") == "model":
        kw["timeincrement"] = list(t["inc"])
    if t.get("periods") and t.get("dr") is not None:
        kw["discount_rate"] = t["dr"]
    return kw


def factor_and_name(c):
    kw = {"name": c["name"]} if "name" in c else {}
    if "factor" in c:
        kw["factor1"] = c["factor"]
    return kw


def add_constraint(m, nodes, c):
    k = c["c"]

    def fl(lst):
        return [(nodes[a], nodes[b]) for a, b in lst]

    def listed(c):
        if c.get("flows") is None:
            return None
        return {f: m.flows[f] for f in fl(c["flows"])}

    if k == "investment_limit":
        con.investment_limit(m, limit=c["limit"])
    elif k == "investment_limit_per_period":
        con.investment_limit_per_period(m, limit=c["limit"])
    elif k == "additional_investment_flow_limit":
        con.additional_investment_flow_limit(m, c["keyword"], limit=c["limit"])
    elif k == "emission_limit":
        con.emission_limit(m, flows=listed(c), limit=c["limit"])
    elif k == "emission_limit_per_period":
        con.emission_limit_per_period(m, flows=listed(c), limit=c["limit"])
    elif k == "generic_integral_limit":
        con.generic_integral_limit(
            m,
            c["keyword"],
            flows=listed(c),
            **{
                x: c[x]
                for x in ("upper_limit", "lower_limit", "limit_name")
                if x in c
            },
        )
    elif k == "generic_periodical_integral_limit":
        con.generic_periodical_integral_limit(
            m, c["keyword"], flows=listed(c), limit=c["limit"]
        )
    elif k == "equate_flows":
        con.equate_flows(
            m, fl(c["f1"]), fl(c["f2"]), **factor_and_name(c),
        )
    elif k == "equate_flows_by_keyword":
        con.equate_flows_by_keyword(
            m, c["k1"], c["k2"], **factor_and_name(c),
        )
    elif k == "equate_invest":
        (a,), (b,) = fl([c["f1"]]), fl([c["f2"]])
        con.equate_variables(
            m,
            m.InvestmentFlowBlock.invest[a[0], a[1], 0],
            m.InvestmentFlowBlock.invest[b[0], b[1], 0],
            **factor_and_name(c),
        )
    elif k == "limit_active_flow_count":
        kw = {
            x: c[x] for x in ("lower_limit", "upper_limit") if x in c
        }
        con.limit_active_flow_count(m, c["name"], fl(c["flows"]), **kw)
    elif k == "limit_active_flow_count_by_keyword":
        kw = {
            x: c[x] for x in ("lower_limit", "upper_limit") if x in c
        }
        con.limit_active_flow_count_by_keyword(m, c["keyword"], **kw)
    elif k == "shared_limit":
        kw = {
            x: c[x] for x in ("lower_limit", "upper_limit") if x in c
        }
        if "flows" in c:
            quantity = {
                "flow": lambda: m.flow,
                "status": lambda: m.NonConvexFlowBlock.status,
            }[c["of"]]()
            parts = fl(c["flows"])
        else:
            quantity = getattr(
                m, c.get("block", "GenericStorageBlock")
            ).storage_content
            parts = [nodes[s] for s in c["storages"]]
        con.shared_limit(
            m,
            quantity,
            c["name"],
            parts,
            list(c["weights"]),
            **kw,
        )
    elif k == "storage_level":
        con.storage_level_constraint(
            m,
            name=c["name"],
            storage_component=nodes[c["storage"]],
            multiplexer_bus=nodes[c["bus"]],
            input_levels={nodes[a]: v for a, v in c["inputs"].items()},
            output_levels={nodes[a]: v for a, v in c["outputs"].items()},
        )
    else:
        raise AssertionError(k)


def build(spec, model=None, **more):
    """Spec -> Built with es, nodes, m, names."""
    b = Built()
    b.spec = spec
    try:
        b.es, b.nodes = make_system(spec)
        b.m = (model or solph.Model)(b.es, **{**model_kwargs(spec), **more})
        for c in spec.get("constraints", []):
            add_constraint(b.m, b.nodes, c)
    except AssertionError:
        raise
    except Exception as e:
        raise BuildError(f"{type(e).__name__}: {str(e)[:300]}") from e
    b.names = names(b)
    return b


_FLOWBLOCK = {
    "InvestmentFlowBlock": {
        "invest": "invest",
        "total": "total",
        "old": "old",
        "invest_status": "invest_status",
    },
    "NonConvexFlowBlock": {"status": "status"},
    "InvestNonConvexFlowBlock": {
        "invest": "invest",
        "invest_status": "invest_status",
        "status": "status",
        "status_nominal": "status_nominal",
    },
}


def names(b):
    """public quantity -> pyomo variable"""
    m = b.m
    inv = {str(node.label): name for name, node in b.nodes.items()}

    def lab(x):
        return inv.get(str(x.label), str(x.label))

    out = {}
    for i, o, t in m.flow:
        out[("flow", lab(i), lab(o), t)] = m.flow[i, o, t]
    for blk, attrs in _FLOWBLOCK.items():
        block = getattr(m, blk, None)
        for attr, name in attrs.items():
            var = getattr(block, attr, None)
            if var is None:
                continue
            for idx in var:
                i, o, p = idx
                out[(name, lab(i), lab(o), p)] = var[idx]
    block = getattr(m, "GenericStorageBlock", None)
    var = getattr(block, "storage_content", None)
    if var is not None:
        for idx in var:
            if len(idx) == 2:
                out[("content", lab(idx[0]), idx[1])] = var[idx]
    block = getattr(m, "GenericCAESBlock", None)
    for attr in ("cav_level", "tes_level"):
        var = getattr(block, attr, None)
        if var is not None:
            for n, t in var:
                out[(attr, lab(n), t)] = var[n, t]
    block = getattr(m, "GenericInvestmentStorageBlock", None)
    if block is not None:
        var = getattr(block, "storage_content", None)
        if var is not None:
            for idx in var:
                if len(idx) == 2:
                    out[("content", lab(idx[0]), idx[1])] = var[idx]
        for attr, name in (
            ("invest", "sinvest"),
            ("total", "stotal"),
            ("invest_status", "sinvest_status"),
            ("init_content", "sinit"),
        ):
            var = getattr(block, attr, None)
            if var is not None:
                for idx in var:
                    key = idx if isinstance(idx, tuple) else (idx,)
                    out[(name, lab(key[0])) + tuple(key[1:])] = var[idx]
    return out
