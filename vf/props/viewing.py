"""Views of results and the parameters of a system as a dictionary."""

import math
import warnings

import numpy as np
import pandas as pd
from oemof import solph
from oemof.solph import components as cmp
from oemof.solph import processing, views

from ..build import build, label_of, series
from ..gen import maybe
from .meta import relabel
from .outputs import Base, any_system, check, fill, same

import random

from hypothesis import strategies as st

TYPES = [
    cmp.Source, cmp.Sink, cmp.Converter, cmp.GenericStorage, cmp.Link,
    cmp.OffsetConverter, cmp.GenericCHP, solph.buses.Bus,
]


def plain(x):
    return x is None or isinstance(x, (int, float))


def columns_equal(a, b):
    return len(a) == len(b) and all(
        same(x, y) if plain(x) and plain(y) else same_any(x, y)
        for x, y in zip(a, b)
    )


def strip_none(k):
    return tuple(x for x in k if x is not None)


def by_type(df, expected, msg):
    """compare a table with columns labelled by tuples with a dict"""
    if not expected:
        check(df is None, "{}: {} instead of nothing", msg, df)
        return 0
    check(df is not None, "{}: nothing instead of {}", msg, list(expected))
    cols = [tuple(map(str, c)) if isinstance(c, tuple) else (str(c),)
            for c in df.columns]
    check(sorted(cols) == sorted(expected), "{}: columns {} instead of {}",
          msg, sorted(cols), sorted(expected))
    for j, c in enumerate(cols):
        got = df.iloc[:, j].tolist()
        check(columns_equal(got, expected[c]), "{} {}: {} instead of {}",
              msg, c, got, expected[c])
    return len(cols)


def check_node(res, which, names, spec, multi):
    scol = "period_scalars" if multi else "scalars"
    cells = 0
    for by_label in (False, True):
        for keep in (False, True):
            for mi in (False, True):
                arg = str(which.label) if by_label else which
                view = views.node(res, arg, multiindex=mi,
                                  keep_none_type=keep)
                want_seq, want_sca = {}, {}
                for k, v in res.items():
                    if which not in strip_none(k):
                        continue
                    if by_label and not keep:
                        key = tuple(map(str, k))
                    else:
                        key = tuple(None if x is None else str(x) for x in k)
                    for c in v["sequences"].columns:
                        if not v["sequences"].empty:
                            want_seq[key, c] = v["sequences"][c].tolist()
                    if not multi and not v[scol].empty:
                        for c in v[scol].index:
                            want_sca[key, c] = v[scol][c]
                msg = f"view of {arg} ({mi}, {keep})"

                def label(c):
                    if mi:
                        (a, b, x) = c
                    else:
                        ((a, b), x) = c
                    f = [None if y is None or y != y else str(y)
                         for y in (a, b)]
                    if by_label is False or keep:
                        f = [None if y == "None" else y for y in f]
                    return tuple(f), x

                if mi:
                    for x, axis in (("sequences", 1), ("scalars", 0)):
                        if x in view and len(view[x].axes[axis]):
                            check(
                                list(view[x].axes[axis].names)
                                == ["from", "to", "type"],
                                "{}: {} with the levels {}", msg, x,
                                view[x].axes[axis].names)
                if want_seq:
                    frame = view["sequences"]
                    got = {label(c): frame.iloc[:, j].tolist()
                           for j, c in enumerate(frame.columns)}
                    check(set(got) == set(want_seq),
                          "{}: sequences {} instead of {}", msg, sorted(
                              map(str, got)), sorted(map(str, want_seq)))
                    check(len(frame.columns) == len(got), "{}: columns"
                          " repeated", msg)
                    for c, v in want_seq.items():
                        g = got[c]
                        # tables of different length are joined
                        v = v + [float("nan")] * (len(g) - len(v))
                        check(columns_equal(g, v), "{} {}: {} instead of {}",
                              msg, c, g, v)
                        cells += 1
                else:
                    check("sequences" not in view, "{}: sequences", msg)
                if want_sca:
                    col = view["scalars"]
                    got = {label(c): x for c, x in zip(col.index,
                                                       col.tolist())}
                    check(set(got) == set(want_sca),
                          "{}: scalars {} instead of {}", msg,
                          sorted(map(str, got)), sorted(map(str, want_sca)))
                    for c, v in want_sca.items():
                        ok = got[c] == v or same_any(got[c], v)
                        check(ok, "{} {}: {} instead of {}", msg, c, got[c],
                              v)
                        cells += 1
                elif not multi:
                    check("scalars" not in view, "{}: scalars", msg)
    return cells


def same_any(a, b):
    if a is b:
        return True
    try:
        if a == b:
            return True
        return math.isnan(a) and math.isnan(b)
    except (TypeError, ValueError):
        return False


def check_filter(res, msg):
    outs = {k[0] for k in res if k[1] is not None}
    ins = {k[1] for k in res if k[1] is not None}
    every = outs | ins | {k[0] for k in res}
    want = {
        "all": every,
        "has_outputs": outs,
        "has_inputs": ins,
        "has_only_outputs": outs - ins,
        "has_only_inputs": ins - outs,
    }
    for opt in views.NodeOption:
        for nobus in (False, True):
            w = {str(x) for x in want[opt.value]
                 if not (nobus and isinstance(x, solph.buses.Bus))}
            for o in (opt, opt.value):
                g = {str(x) for x in views.filter_nodes(
                    res, option=o, exclude_busses=nobus)}
                check(g == w, "{} nodes {} (without buses: {}): {} instead"
                      " of {}", msg, opt.value, nobus, sorted(g), sorted(w))
    try:
        views.filter_nodes(res, option="no option")
    except ValueError:
        pass
    else:
        check(False, "an unknown option is accepted")
    return every


def views_case(spec):
    b = build(spec)
    m = b.m
    if spec.get("duals"):
        m.receive_duals()
        rng = random.Random(spec["vals"])
        balance = getattr(m.BusBlock, "balance", {})
        for key in balance:
            m.dual[balance[key]] = rng.randrange(-40, 40) / 4
    fill(m, spec["vals"])
    res = processing.results(m, remove_last_time_point=spec["remove"])
    multi = spec["kind"] != "plain" and bool(spec["time"].get("periods"))
    cells = 0
    every = check_filter(res, "results")
    par = processing.parameter_as_dict(b.es)
    check_filter(par, "parameters")
    for x in random.Random(spec["vals"] + 2).sample(list(b.es.nodes), 1):
        cells += check_node(par, x, None, spec, False)
    names = sorted(str(x) for x in every)
    nodes = [b.nodes[x] for x in names if x in b.nodes]
    pick = random.Random(spec["vals"] + 1)
    chosen = pick.sample(nodes, min(3, len(nodes)))
    for x in chosen:
        cells += check_node(res, x, names, spec, multi)
        check(views.get_node_by_name(res, str(x.label)) is x,
              "get_node_by_name({})", x)
    got = views.get_node_by_name(res, *[str(x.label) for x in chosen],
                                 "no such node")
    if len(chosen) >= 1:
        check(len(got) == len(chosen) + 1 and got[-1] is None
              and all(a is c for a, c in zip(got, chosen)),
              "get_node_by_name of several: {}", got)
    check(views.get_node_by_name(res, "no such node") is None,
          "a node that does not exist is found")
    for typ in TYPES:
        ins, outs, weights = {}, {}, {}
        for (a, c), v in res.items():
            for x in v["sequences"].columns:
                col = v["sequences"][x].tolist()
                if isinstance(c, typ):
                    ins[str(a), str(c), x] = col
                if isinstance(a, typ) and c is not None:
                    outs[str(a), str(c), x] = col
                if isinstance(a, typ) and c is None:
                    weights[str(a), x] = col
        cells += by_type(views.node_input_by_type(res, typ), ins,
                         f"inputs of {typ.__name__}")
        cells += by_type(views.node_output_by_type(res, typ), outs,
                         f"outputs of {typ.__name__}")
        for fn in (views.node_input_by_type, views.node_output_by_type):
            full = fn(res, typ)
            if full is None:
                continue
            last = full.columns.nlevels - 1
            for drop in ([], [0], [last], ["to"], list(range(last))):
                part = fn(res, typ, droplevel=list(drop))
                want = [str(x) for x in full.columns.droplevel(drop)]
                check([str(x) for x in part.columns] == want,
                      "{} without levels {}: columns {} instead of {}",
                      fn.__name__, drop, list(part.columns), want)
                check(part.shape == full.shape and columns_equal(
                    part.to_numpy().ravel().tolist(),
                    full.to_numpy().ravel().tolist()),
                    "{} without levels {}: {}", fn.__name__, drop, part)
        if spec["kind"] == "plain":
            cells += by_type(views.node_weight_by_type(res, typ), weights,
                             f"weights of {typ.__name__}")
    net = {}
    for x in b.es.nodes:
        if isinstance(x, cmp.GenericStorage):
            i, o = list(x.inputs)[0], list(x.outputs)[0]
            fi = res[i, x]["sequences"]["flow"].tolist()
            fo = res[x, o]["sequences"]["flow"].tolist()
            net[str(x), str(o), "net_flow"] = [
                c - a for a, c in zip(fi, fo)
            ]
    if spec["kind"] == "plain":
        got = views.net_storage_flow(res, cmp.GenericStorage)
        if got is not None:
            # the sum over missing values (last time point) is zero
            got = got.fillna(0)
        net = {k: [0 if x != x or x is None else x for x in v]
               for k, v in net.items()}
        cells += by_type(got, net, "net storage flow")
    for keep in (False, True):
        conv = processing.convert_keys_to_strings(res, keep)
        want = {
            tuple(None if x is None and keep else str(x) for x in k): v
            for k, v in res.items()
        }
        check(set(conv) == set(want) and all(conv[k] is want[k]
                                             for k in want),
              "keys as strings: {}", list(conv))
    return {
        "labels": [spec["kind"]] + (["net storage flow"] if net else [])
        + (["duals"] if spec.get("duals") else []),
        "nontrivial": cells > 10,
    }


class ViewsProp(Base):
    quick = 320

    def case(self, spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return views_case(spec)


def views_make(draw):
    spec = any_system(draw, tsam_=False)
    spec["remove"] = maybe(draw, 2)
    if spec["kind"] == "plain" and maybe(draw, 3):
        spec["duals"] = True
    return spec


ViewsProp(
    "views",
    views_make,
    "case: a result dictionary with distinct generated values; every "
    "function of views is compared with a direct selection from the "
    "dictionary (labels and values). Non-trivial: more than ten series or "
    "scalars were compared",
)


# ------------------------------------------------------------- parameters
def as_list(x):
    return [float(y) for y in x]


def expect_attr(entry, name, given, n, msg):
    """given: spec value (scalar or series)"""
    v = series(given)
    if isinstance(v, (int, float)):
        if name in entry["scalars"].index:
            check(same(v, entry["scalars"][name]),
                  "{} {}: {} instead of {}", msg, name,
                  entry["scalars"][name], v)
            return
        check(name in entry["sequences"].columns, "{}: {} is missing", msg,
              name)
        got = entry["sequences"][name].tolist()
        check(all(same(v, x) for x in got), "{} {}: {} instead of {}", msg,
              name, got, v)
        return
    check(name in entry["sequences"].columns, "{}: {} is no sequence", msg,
          name)
    got = entry["sequences"][name].dropna().tolist()
    v = as_list(v)
    check(columns_equal(got, v), "{} {}: {} instead of {}", msg, name, got,
          v)


FLOW_ATTRS = [
    "variable_costs", "minimum", "maximum", "fix", "full_load_time_max",
    "full_load_time_min", "integer", "lifetime", "age", "fixed_costs",
    "nominal_capacity", "positive_gradient_limit",
    "negative_gradient_limit",
]
INVEST_ATTRS = ["ep_costs", "maximum", "minimum", "existing", "offset",
                "lifetime", "age", "overall_maximum", "overall_minimum"]
STORE_ATTRS = [
    "loss_rate", "fixed_losses_relative", "fixed_losses_absolute",
    "inflow_conversion_factor", "outflow_conversion_factor",
    "max_storage_level", "min_storage_level", "storage_costs",
    "initial_storage_level", "balanced", "invest_relation_input_output",
    "invest_relation_input_capacity", "invest_relation_output_capacity",
]


# documented values of what is not given
FLOW_DEFAULTS = {"variable_costs": 0, "integer": False, "bidirectional": False,
                 "maximum": 1, "minimum": 0}
INVEST_DEFAULTS = {"ep_costs": 0, "existing": 0, "minimum": 0, "offset": 0,
                   "age": 0, "maximum": math.inf, "nonconvex": False}
STORE_DEFAULTS = {
    "loss_rate": 0, "fixed_losses_relative": 0, "fixed_losses_absolute": 0,
    "inflow_conversion_factor": 1, "outflow_conversion_factor": 1,
    "max_storage_level": 1, "min_storage_level": 0, "balanced": True,
}
OLD_NAMES = {"minimum": "min", "maximum": "max"}


def expect_defaults(e, defaults, given, prefix, msg):
    for a, v in defaults.items():
        if a == "minimum" and given.get("bidirectional"):
            v = -1
        if a in given or OLD_NAMES.get(a) in given:
            continue
        if a == "bidirectional" and not isinstance(
            given.get("minimum", given.get("min", 0)), (int, float)
        ):
            continue
        if a == "bidirectional" and given.get(
            "minimum", given.get("min", 0)
        ) < 0:
            continue
        check(prefix + a in e["scalars"].index
              and e["scalars"][prefix + a] == v,
              "{}: {}{} is {} instead of the default {}", msg, prefix, a,
              e["scalars"].get(prefix + a, e["sequences"].get(prefix + a)), v)


def expect_no_other(e, known, msg):
    other = set(e["sequences"].columns) - known
    check(not other, "{}: {} are listed, but not given", msg, other)


def scalarish(v):
    v = series(v)
    return v is not None and not isinstance(v, bool)


def parameters_case(spec):
    if spec["source"] == "model":
        b = build(spec)
        system = b.m
        nodes = b.nodes
    else:
        from ..build import make_system

        system, nodes = make_system(spec)
    par = processing.parameter_as_dict(
        system, exclude_none=spec["exclude_none"]
    )
    es = system if spec["source"] == "es" else b.es
    flows = {(i, o) for i, o in es.flows()}
    want_keys = flows | {(n, None) for n in es.nodes}
    check(set(par) == want_keys, "keys of the parameters: {}", set(par))
    n = len(spec["time"]["inc"])
    seen = 0
    for nd in spec["nodes"]:
        pairs = [((nodes[x], nodes[nd["n"]]), f)
                 for x, f in nd.get("in", {}).items()]
        pairs += [((nodes[nd["n"]], nodes[x]), f)
                  for x, f in nd.get("out", {}).items()]
        for key, f in pairs:
            e = par[key]
            msg = f"flow {key[0]}-{key[1]}"
            for a in FLOW_ATTRS:
                if a in f and scalarish(f[a]):
                    expect_attr(e, a, f[a], n, msg)
                    seen += 1
                elif a in f and isinstance(f[a], bool):
                    check(bool(e["scalars"][a]) == f[a], "{}: {}", msg, a)
            for a, v in (f.get("investment") or {}).items():
                if a in INVEST_ATTRS and scalarish(v):
                    expect_attr(e, "investment_" + a, v, n, msg)
                    seen += 1
            for a, v in (f.get("custom_properties") or {}).items():
                if scalarish(v):
                    expect_attr(e, "custom_properties_" + a, v, n, msg)
                    seen += 1
            inv = f.get("investment")
            expect_defaults(e, FLOW_DEFAULTS, f, "", msg)
            if isinstance(inv, dict):
                expect_defaults(e, INVEST_DEFAULTS, inv, "investment_", msg)
            expect_no_other(
                e,
                set(f) | {{v: k for k, v in OLD_NAMES.items()}.get(x, x)
                          for x in f}
                | {"investment_" + a for a in inv or {}}
                | {"custom_properties_" + a
                   for a in f.get("custom_properties") or {}}
                | set(f.get("custom_properties") or {}), msg)
            if spec["exclude_none"]:
                for a in ("fix", "nominal_capacity", "lifetime"):
                    if a not in f and not (
                        a == "nominal_capacity" and "nominal_value" in f
                    ):
                        check(a not in e["scalars"].index
                              and a not in e["sequences"].columns,
                              "{}: {} should be left out", msg, a)
            else:
                for a in ("fix", "lifetime"):
                    if a not in f:
                        check(a in e["scalars"].index
                              and e["scalars"][a] is None,
                              "{}: {} should be None", msg, a)
        e = par[nodes[nd["n"]], None]
        msg = f"node {nd['n']}"
        check(e["scalars"]["label"] == str(label_of(spec, nd["n"])),
              "{}: label {}", msg, e["scalars"]["label"])
        kw = nd.get("kw", {})
        for a, v in spec.get("props", {}).get(nd["n"], {}).items():
            name = "custom_properties_" + a
            if isinstance(v, str):
                check(e["scalars"].get(name) == v, "{}: {} instead of {}",
                      msg, e["scalars"].get(name), v)
            else:
                expect_attr(e, name, v, n, msg)
            seen += 1
        if nd["k"] == "storage":
            expect_defaults(e, STORE_DEFAULTS, kw, "", msg)
            if isinstance(nd.get("investment"), dict):
                expect_defaults(e, INVEST_DEFAULTS, nd["investment"],
                                "investment_", msg)
        if nd["k"] == "bus":
            expect_defaults(e, {"balanced": True}, nd, "", msg)
        for a in STORE_ATTRS:
            if a in kw and scalarish(kw[a]):
                expect_attr(e, a, kw[a], n, msg)
                seen += 1
            elif a in kw and isinstance(kw[a], bool):
                check(bool(e["scalars"][a]) == kw[a], "{}: {}", msg, a)
        cap = kw.get("nominal_capacity", kw.get("nominal_storage_capacity"))
        if nd["k"] == "storage" and cap is not None:
            expect_attr(e, "nominal_storage_capacity", cap, n, msg)
        for a, v in (nd.get("investment") or {}).items():
            if a in INVEST_ATTRS and scalarish(v):
                expect_attr(e, "investment_" + a, v, n, msg)
                seen += 1
        if nd["k"] == "conv":
            for bus, v in (nd.get("cf") or {}).items():
                expect_attr(e, "conversion_factors_"
                            + str(label_of(spec, bus)), v, n, msg)
                seen += 1
            expect_defaults(
                e, {str(label_of(spec, x)): 1
                    for x in [*nd.get("in", {}), *nd.get("out", {})]},
                {str(label_of(spec, x)): 1 for x in nd.get("cf") or {}},
                "conversion_factors_", msg)
    if spec["excluded"]:
        par = processing.parameter_as_dict(
            system, exclude_attrs=spec["excluded"]
        )
        for k, e in par.items():
            for a in list(e["scalars"].index) + list(
                e["sequences"].columns
            ):
                check(not a.startswith(tuple(spec["excluded"])),
                      "{} is not excluded for {}", a, k)
    return {
        "labels": [spec["kind"], spec["source"]],
        "nontrivial": seen > 2,
    }


class ParametersProp(Base):
    quick = 480

    def case(self, spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return parameters_case(spec)


def parameters_make(draw):
    spec = any_system(draw, tsam_=False)
    spec["source"] = draw(st.sampled_from(["es", "model"]))
    spec["exclude_none"] = draw(st.booleans())
    spec["excluded"] = draw(
        st.sampled_from([[], ["variable_costs"], ["min", "max"],
                         ["label", "fix"]])
    )
    if maybe(draw, 3):
        relabel(spec, random.Random(spec["vals"]),
                draw(st.sampled_from(["tuple", "mixed"])))
    return spec


ParametersProp(
    "parameters",
    parameters_make,
    "case: a generated energy system; parameter_as_dict is compared with "
    "the parameters of the specification (scalars and series of flows, "
    "investments, storages and converters). Non-trivial: more than two "
    "parameters were compared",
)
_ = (np, pd)
