"""What the user reads after solving: Results, processing, views,
parameters. Variables get generated values (a result is a mapping of every
value to its place, no matter how the value came about)."""

import math
import random
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from oemof import solph
from oemof.network import Node
from pyomo.core.base.piecewise import IndexedPiecewise
from pyomo.environ import Var

from ..build import build
from ..gen import maybe, num, overlapping
from ..run import Violation
from . import (
    commit,
    convert,
    flows,
    invest,
    limits,
    multi,
    register,
    storage,
    tsam,
)

PLAIN = [
    flows.bus_system,
    flows.bound_system,
    flows.cost_system,
    flows.integer_system,
    flows.gradient_system,
    commit.status_system,
    commit.starts_system,
    commit.invest_nc_system,
    commit.count_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    convert.gchp_system,
    convert.offset_system,
    storage.dispatch_system,
    storage.storage_invest_system,
    storage.level_system,
    storage.shared_system,
    limits.integral_system,
    limits.equate_system,
    invest.invest_flow_system,
]
MULTI = [
    multi.multi_system,
    multi.multi_cost_system,
    multi.multi_storage_system,
]
TSAM = [tsam.weighting_system, tsam.tsam_storage_system,
        tsam.tsam_invest_system, tsam.segment_storage_system]


def any_system(draw, plain=True, multi_=True, tsam_=True):
    groups = []
    if plain:
        groups += [("plain", PLAIN)] * 3
    if multi_:
        groups.append(("multi", MULTI))
    if tsam_:
        groups.append(("tsam", TSAM))
    name, makers = draw(st.sampled_from(groups))
    spec = draw(st.sampled_from(makers))(draw)
    if not any(n.get("in") or n.get("out") for n in spec["nodes"]):
        bus = [n["n"] for n in spec["nodes"] if n["k"] == "bus"][0]
        spec["nodes"].append({"k": "sink", "n": "extra", "in": {bus: {}}})
    spec["kind"] = (
        "tsam" if spec["time"].get("tsam")
        else "multi" if spec["time"].get("periods") else "plain"
    )
    if spec["kind"] == "plain":
        # values per period can be given as lists of one item
        for inv in investments(spec):
            for k in ("ep_costs", "offset", "maximum"):
                if isinstance(inv.get(k), (int, float)) and maybe(draw, 4):
                    inv[k] = [inv[k]]
    spec["vals"] = draw(st.integers(0, 10**6))
    if maybe(draw, 3):
        spec = overlapping(draw, spec)
    if maybe(draw, 5):
        # subclasses of a user
        spec["own"] = True
    if maybe(draw, 6):
        spec["props"] = node_properties(spec, random.Random(spec["vals"]))
    return spec


def node_properties(spec, rng):
    """properties of nodes that are of no meaning for the model, whatever
    their names are"""
    names = ["emission", "text", "balanced", "loss_rate", "label", "position",
             "nominal_storage_capacity", "conversion_factors"]
    out = {}
    for n in spec["nodes"]:
        if rng.random() < 0.5:
            out[n["n"]] = {
                k: rng.choice([0.25, 201, [1, 2, 3], "abc", 0])
                for k in rng.sample(names, 2)
            }
    return out


def investments(spec):
    for n in spec["nodes"]:
        if n.get("investment"):
            yield n["investment"]
        for f in [*n.get("in", {}).values(), *n.get("out", {}).values()]:
            if f.get("investment"):
                yield f["investment"]


def fill(m, seed):
    """distinct values for all variables (zeros, negatives and integers
    among them)"""
    rng = random.Random(seed)
    data = list(m.component_data_objects(Var))
    vals = [0.25 * k - 3 for k in range(len(data))]
    rng.shuffle(vals)
    for v, x in zip(data, vals):
        v.set_value(x, skip_validation=True)


def raw(m):
    """{name: {entities: {rest of the index: value}}}"""
    out = {}
    for v in m.component_objects(Var, descend_into=True):
        if isinstance(v.parent_block().parent_component(), IndexedPiecewise):
            continue
        name = v.local_name
        for idx in v:
            key = idx if isinstance(idx, tuple) else (idx,)
            n = 0
            while n < len(key) and isinstance(key[n], Node):
                n += 1
            ents, rest = key[:n], key[n:]
            d = out.setdefault(name, {}).setdefault(ents, {})
            if rest in d:
                raise RuntimeError(f"{name} {key} twice")
            d[rest] = v[idx].value
    return out


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args))


def same(a, b):
    if a is None or (isinstance(a, float) and math.isnan(a)):
        return b is None or (isinstance(b, float) and math.isnan(b))
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(a))


def labels_equal(index, expected):
    return len(index) == len(expected) and all(
        a == b for a, b in zip(index, expected)
    )


# names of the variables that have one value per period or just one
PERIODICAL = {"invest", "total", "old", "old_end", "old_exo", "invest_status"}
CLUSTERS = {"inter_storage_content"}


def time_labels(spec, es):
    """labels of steps and points; None if there are none for the points"""
    n = len(spec["time"]["inc"])
    idx = list(es.timeindex)
    if len(idx) == n + 1:
        return idx[:n], idx
    if len(idx) == n:
        return idx, None
    return None, None


class Base:
    quick = 480
    thorough = 12000
    strict = True

    def __init__(self, pid, make, rule, **kw):
        self.id = pid
        self.make = make
        self.rule = rule
        self.__dict__.update(kw)
        register(self)

    def strategy(self):
        return st.composite(lambda draw: self.make(draw))()

    def known_case(self, spec):
        return self.case(spec)


# ----------------------------------------------------------- Results object
def results_case(spec):
    b = build(spec)
    m = b.m
    fill(m, spec["vals"])
    m.solver_results = {}
    r = solph.Results(m)
    data = raw(m)
    steps, points = time_labels(spec, b.es)
    n = len(spec["time"]["inc"])
    want_keys = set(data) | {"objective", "variable_costs"}
    if "invest" in data:
        want_keys.add("investment_costs")
    check(set(r.keys()) == want_keys, "keys {} instead of {}",
          sorted(map(str, r.keys())), sorted(want_keys))
    for k in want_keys:
        check(k in r, "{!r} is a key of the results but not contained", k)
    for k in ("no such key", "investment_costs" if "invest" not in data
              else "nothing"):
        check(k not in r, "{!r} should not be contained", k)
    check(r.get("no such key", 42) == 42, "default of get is ignored")
    check(r.get("no such key") is None, "get of an unknown key is not None")
    try:
        r["no such key"]
    except KeyError:
        pass
    else:
        raise Violation("no KeyError for an unknown key")
    # wrappers for compatibility
    try:
        r.to_df("no such key")
    except KeyError:
        pass
    else:
        raise Violation("no KeyError of to_df for an unknown key")
    for k in ["flow", "variable_costs"] + ["invest"] * ("invest" in data):
        check(r.to_df(k).equals(r[k]), "to_df differs for {}", k)
    check(r.timeindex is b.es.timeindex or labels_equal(
        r.timeindex, list(b.es.timeindex)), "timeindex {}", r.timeindex)
    check(same(r["objective"], float(m.objective())), "objective {} not {}",
          r["objective"], float(m.objective()))
    cells = 0
    for name, per in data.items():
        if () in per or any(len(x) > 1 for d in per.values() for x in d):
            continue  # no entity or several further indices
        df = r.get(name)
        df2 = r[name]
        check(df.equals(df2), "get and [] differ for {}", name)
        if all(rest == () for d in per.values() for rest in d):
            for ents, d in per.items():
                got = df[ents[0]] if len(ents) == 1 else df[ents]
                got = got.iloc[0] if hasattr(got, "iloc") else got
                check(same(got, d[()]), "{} of {}: {} not {}", name, ents,
                      got, d[()])
                cells += 1
            continue
        check(len(df.columns) == len(per), "{}: {} columns instead of {}",
              name, len(df.columns), len(per))
        rests = sorted({rest[0] for d in per.values() for rest in d})
        expected = rests
        if rests == list(range(n)) and name not in PERIODICAL | CLUSTERS:
            expected = steps or rests
        elif rests == list(range(n + 1)) and name not in PERIODICAL | CLUSTERS:
            expected = points or rests
        check(labels_equal(df.index, expected),
              "index of {} is {} instead of {}", name, list(df.index),
              expected)
        for ents, d in per.items():
            col = ents[0] if len(ents) == 1 else ents
            check(col in df.columns, "{} of {} is missing", name, ents)
            values = df[col].tolist()
            for k, x in enumerate(rests):
                if (x,) in d:
                    check(same(values[k], d[(x,)]),
                          "{} of {} at {}: {} instead of {}", name, ents, x,
                          values[k], d[(x,)])
                    cells += 1
                else:
                    check(same(None, values[k]), "{} of {} at {}: {}", name,
                          ents, x, values[k])
    # costs
    vc = r["variable_costs"]
    flow = data["flow"]
    check(len(vc.columns) == len(flow), "variable_costs: {} columns for {}"
          " flows", len(vc.columns), len(flow))
    for ents, d in flow.items():
        cost = m.flows[ents].variable_costs
        values = vc[ents].tolist()
        for t in range(n):
            check(same(values[t], d[(t,)] * float(cost[t])),
                  "variable costs of {} at {}: {} instead of {} * {}",
                  ents, t, values[t], d[(t,)], cost[t])
            cells += 1
    if "invest" in data and spec["kind"] == "plain":
        capex = r["investment_costs"]
        check(len(capex.columns) == len(data["invest"]),
              "investment costs: {} columns for {} investments",
              len(capex.columns), len(data["invest"]))
        for ents, d in data["invest"].items():
            inv = (
                ents[0].investment if len(ents) == 1
                else m.flows[ents].investment
            )
            status = data.get("invest_status", {}).get(ents)
            want = float(inv.ep_costs[0]) * d[(0,)]
            if status is not None:
                want += float(inv.offset[0]) * status[(0,)]
            col = ents[0] if len(ents) == 1 else ents
            got = capex[col].iloc[0] if len(ents) == 1 else capex[
                [c for c in capex.columns if c == ents]
            ].iloc[0, 0]
            check(same(got, want), "investment costs of {}: {} instead of"
                  " {}", ents, got, want)
            cells += 1
    return {
        "labels": [spec["kind"]] + (["invest"] if "invest" in data else [])
        + (["contents"] if "storage_content" in data else [])
        + (["status"] if "status" in data else []),
        "nontrivial": cells > 3,
    }


class ResultsProp(Base):
    def case(self, spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return results_case(spec)


ResultsProp(
    "results-object",
    lambda draw: any_system(draw),
    "case: a generated energy system (one year, several years or typical "
    "periods) is built, all its variables get distinct values, and every "
    "cell of every table of Results is compared with the variables of the "
    "model. Non-trivial: more than three cells were compared",
)


# ----------------------------------------------------------- processing
def node_key(ents):
    return ents if len(ents) == 2 else (ents[0], None)


def expanded(time):
    """the time step of the model for each row of the results"""
    if not time.get("tsam"):
        return list(range(len(time["inc"])))
    out, first = [], 0
    for p in time["tsam"]:
        n = p["timesteps_per_period"]
        seg = p.get("segments")
        steps = len(seg[0]) if seg else n
        for k in p["order"]:
            for g in range(steps):
                t = first + k * steps + g
                out += [t] * (seg[k][g] if seg else 1)
        first += steps * (max(p["order"]) + 1)
    return out


def expected_tsam(spec, es, data):
    """-> per (key, name): list over the original steps"""
    parts = spec["time"]["tsam"]
    inc = spec["time"]["inc"]
    out = {}
    first = []
    t = 0
    for p in parts:
        first.append(t)
        per = len(p["segments"][0]) if p.get("segments") else p[
            "timesteps_per_period"]
        t += per * (max(p["order"]) + 1)

    def steps():
        """(p, position in order, k, segment, t, duration in steps)"""
        for ip, p in enumerate(parts):
            per = len(p["segments"][0]) if p.get("segments") else p[
                "timesteps_per_period"]
            for i, k in enumerate(p["order"]):
                for g in range(per):
                    dur = p["segments"][k][g] if p.get("segments") else 1
                    yield ip, i, k, g, first[ip] + k * per + g, dur

    for name, per_ents in data.items():
        for ents, d in per_ents.items():
            if name in PERIODICAL:
                continue
            if len(ents) == 1 and isinstance(
                ents[0], solph.components.GenericStorage
            ):
                continue
            if not all(len(x) == 1 for x in d):
                continue
            if (0,) not in d or len(d) != len(inc):
                continue
            v = []
            for ip, i, k, g, t, dur in steps():
                v += [d[(t,)]] * dur
            out[node_key(ents) if ents else (name, name), name] = v
    inter = data.get("inter_storage_content", {})
    intra = data.get("intra_storage_delta", {})
    for ents, d in inter.items():
        node = ents[0]
        knots = []
        pos = 0
        offset = 0
        last = None
        for ip, i, k, g, t, dur in steps():
            if (ip, i) != last:
                last = (ip, i)
                base = d[(offset,)]
                offset += 1
                keep = 1.0
            knots.append((pos, base * keep + intra[ents][(ip, k, g)]))
            keep *= (1 - float(node.loss_rate[t])) ** inc[t]
            pos += dur
            end = (pos, base * keep + intra[ents][(ip, k, g + 1)])
        # contents at the end of a typical period are those at the start of
        # the next one, so only the very last one is a knot of its own
        knots.append(end)
        xs = [x for x, _ in knots]
        ys = [y for _, y in knots]
        out[(node, None), "soc"] = [
            float(np.interp(x, xs, ys)) for x in range(pos)
        ]
    return out


def processing_case(spec):
    b = build(spec)
    m, es = b.m, b.es
    if spec.get("duals"):
        m.receive_duals()
    fill(m, spec["vals"])
    remove = bool(spec.get("remove"))
    data = raw(m)
    kind = spec["kind"]
    n = len(spec["time"]["inc"])
    periods = spec["time"].get("periods")
    duals = {}
    if spec.get("duals"):
        rng = random.Random(spec["vals"])
        balance = getattr(m.BusBlock, "balance", {})
        for key in balance:
            x = rng.randrange(-40, 40) / 4
            m.dual[balance[key]] = x
            duals.setdefault(key[0], {})[key[1]] = x
    res = solph.processing.results(m, remove_last_time_point=remove)
    seq = {}
    sca = {}
    if spec["time"].get("tsam"):
        for (key, name), v in expected_tsam(spec, es, data).items():
            seq.setdefault(key, {})[name] = v
    for name, per in data.items():
        for ents, d in per.items():
            # variables of their own (not of a node) are found by their name
            key = node_key(ents) if ents else (name, name)
            if name in PERIODICAL:
                s = sca.setdefault(key, {})
                if periods:
                    s[name] = [d[(p,)] for p in range(len(periods))]
                else:
                    s[name] = d.get((0,), d.get(()))
                continue
            if () in d:
                if not spec["time"].get("tsam"):
                    sca.setdefault(key, {})[name] = d[()]
                continue
            if spec["time"].get("tsam"):
                continue
            v = [d.get((t,)) for t in range(n + 1)]
            seq.setdefault(key, {})[name] = v
    if spec["time"].get("tsam"):
        index = []
        for ip, p in enumerate(spec["time"]["tsam"]):
            base = es.periods[ip] if periods else es.timeindex
            step = pd.Timedelta(
                hours=1 if periods or p.get("segments")
                else spec["time"]["inc"][0]
            )
            index += [
                base[0] + k * step
                for k in range(len(p["order"]) * p["timesteps_per_period"])
            ]
    elif periods:
        index = list(es.timeindex)
    else:
        index = list(es.timeindex)[: n if remove else n + 1]
    cells = 0
    keys = set(seq) | set(sca)
    got_keys = set(res)
    for bus in duals:
        keys.add((bus, None))
    check(got_keys == keys, "keys of the results: {} too much, {} missing",
          [tuple(map(str, k)) for k in got_keys - keys],
          [tuple(map(str, k)) for k in keys - got_keys])
    scol = "period_scalars" if periods else "scalars"
    years = [2020 + p["year"] for p in periods or []]
    for key in keys:
        entry = res[key]
        check(set(entry) == {"sequences", scol}, "{} has {}", key, set(entry))
        frame = entry["sequences"]
        want = dict(seq.get(key, {}))
        if key[1] is None and key[0] in duals:
            dd = duals[key[0]]
            want["duals"] = [dd[t] for t in expanded(spec["time"])]
            check("duals" in frame.columns, "no duals of {}", key[0])
            got = frame["duals"].tolist()
            rows = len(want["duals"])
            check(len(got) == rows and all(map(same, got, want["duals"])),
                  "duals of {}: {} instead of {}", key[0], got,
                  want["duals"])
            check(labels_equal(frame.index, index[:rows]),
                  "index of the duals is {}", list(frame.index))
            cells += rows
            continue
        check(set(frame.columns) == set(want),
              "sequences of {}: {} instead of {}", tuple(map(str, key)),
              list(frame.columns), list(want))
        if want:
            check(labels_equal(frame.index, index),
                  "index of the sequences of {} is {} instead of {}", key,
                  list(frame.index), index)
        for name, v in want.items():
            got = frame[name].tolist()
            v = (v + [None])[: len(index)]
            check(len(got) == len(v) and all(map(same, got, v)),
                  "{} of {}: {} instead of {}", name, tuple(map(str, key)),
                  got, v)
            cells += len(v)
        got = entry[scol]
        want = sca.get(key, {})
        if periods:
            check(set(got.columns) == set(want),
                  "period scalars of {}: {} instead of {}", key,
                  list(got.columns), list(want))
            if want:
                check(labels_equal(got.index, years),
                      "periods of {} are {}", key, list(got.index))
            for name, v in want.items():
                g = got[name].tolist()
                check(all(map(same, g, v)), "{} of {}: {} instead of {}",
                      name, key, g, v)
                cells += len(v)
        else:
            check(set(got.index) == set(want),
                  "scalars of {}: {} instead of {}", tuple(map(str, key)),
                  list(got.index), list(want))
            for name, v in want.items():
                check(same(got[name], v), "{} of {}: {} instead of {}", name,
                      key, got[name], v)
                cells += 1
    return {
        "labels": [kind, "no last point" if remove else "last point"]
        + (["duals"] if duals else [])
        + (["scalars"] if sca else [])
        + (["segments"] if spec["time"].get("tsam")
           and spec["time"]["tsam"][0].get("segments") else []),
        "nontrivial": cells > 3,
        "results": res,
        "built": b,
    }


class ProcessingProp(Base):
    quick = 1200

    def case(self, spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return processing_case(spec)


def processing_make(draw):
    if maybe(draw, 3):
        spec = any_system(draw, plain=False, multi_=False)
    else:
        spec = any_system(draw)
    spec["remove"] = maybe(draw, 2)
    if maybe(draw, 3):
        spec["duals"] = True
    return spec


ProcessingProp(
    "processing",
    processing_make,
    "case: a generated energy system (one year, several years or typical "
    "periods, with or without segments) is built, all its variables (and "
    "duals) get distinct values, and the dictionary of processing.results is "
    "compared completely (keys, columns, index labels, values, scalars) with "
    "the variables. Non-trivial: more than three cells were compared",
)
_ = num
