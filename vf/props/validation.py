"""Contradictory or incomplete input is refused, valid input is accepted."""

import logging
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from oemof import solph
from oemof.solph import components as cmp
from oemof.solph import constraints as con
from oemof.solph._models import LoggingError

from ..gen import maybe
from .outputs import Base, check

INF = float("inf")
Flow = solph.Flow
RULES = {}


def num(x):
    """JSON has no infinity"""
    if isinstance(x, list):
        return [num(y) for y in x]
    return INF if x == "inf" else x


def small(draw, lo=0, hi=8):
    return draw(st.integers(lo * 4, hi * 4)) / 4


def series(draw, default, n=3, p=2):
    """a scalar or a list, often the default; with a flag whether all
    values equal the default"""
    if maybe(draw, p):
        return default
    if draw(st.booleans()):
        return small(draw)
    v = [default] * n
    for k in range(n):
        if draw(st.booleans()):
            v[k] = small(draw)
    return v


def is_default(v, default):
    return all(x == default for x in (v if isinstance(v, list) else [v]))


def one(kind):
    """stand-ins for values of the wrong type"""
    return {"text": "10", "list": [10], "dict": {"a": 1}, "none": None,
            "int": 1, "str": "True"}[kind]


# Every rule draws arguments (JSON), which its 'run' uses; 'bad' tells
# whether they have to be refused.
class Rule:
    #: errors that count as a refusal
    errors = (AttributeError, ValueError, TypeError, NotImplementedError,
              KeyError, IndexError)

    def __init_subclass__(cls):
        RULES[cls.__name__] = cls()


class nominal_type(Rule):
    def draw(self, d):
        return {
            "cls": d(st.sampled_from(["flow", "storage"])),
            "v": d(st.sampled_from(
                ["text", "list", "dict", "number", "invest", "inf", "-inf",
                 "nan", "none"])),
            "x": small(d),
        }

    def bad(self, a):
        if a["v"] in ("inf", "-inf", "nan"):
            return a["cls"] == "flow"
        return a["v"] not in ("number", "invest", "none")

    def run(self, a):
        v = {"number": a["x"], "inf": INF, "-inf": -INF,
             "nan": float("nan")}.get(a["v"])
        if a["v"] == "invest":
            v = solph.Investment(ep_costs=a["x"])
        elif v is None:
            v = one(a["v"])
        if a["cls"] == "flow":
            f = Flow(nominal_capacity=v)
            check(f.investment is (v if a["v"] == "invest" else None)
                  and f.nominal_capacity == (
                      v if a["v"] in ("number",) else None),
                  "capacity of a flow: {} {}", f.nominal_capacity,
                  f.investment)
        else:
            s = cmp.GenericStorage("s", nominal_capacity=v)
            check(s.investment is (v if a["v"] == "invest" else None)
                  and (a["v"] in ("invest", "inf", "-inf", "nan")
                       or s.nominal_storage_capacity == v),
                  "capacity of a storage: {}", s.nominal_storage_capacity)


class maximum_finite(Rule):
    def draw(self, d):
        v = series(d, 1, p=5)
        if isinstance(v, list):
            if d(st.booleans()):
                v[d(st.integers(0, len(v) - 1))] = "inf"
        elif d(st.booleans()):
            v = "inf"
        return {"v": v}

    def bad(self, a):
        v = num(a["v"])
        return INF in (v if isinstance(v, list) else [v])

    def run(self, a):
        Flow(nominal_capacity=5, maximum=num(a["v"]))


class needs_nominal(Rule):
    def draw(self, d):
        attr = d(st.sampled_from(
            ["fix", "minimum", "maximum", "full_load_time_max",
             "full_load_time_min"]))
        a = {"attr": attr, "cap": d(st.sampled_from(["no", "no", "x", "inv"]))}
        if attr == "fix":
            a["v"] = series(d, 0, p=4)
        elif attr == "minimum":
            a["v"] = series(d, 0)
            if isinstance(a["v"], list) and d(st.booleans()):
                a["v"] = [-x for x in a["v"]]
        elif attr == "maximum":
            a["v"] = series(d, 1)
        else:
            a["v"] = small(d)
        return a

    def bad(self, a):
        if a["cap"] != "no":
            return False
        if a["attr"] == "minimum":
            return not is_default(a["v"], 0)
        if a["attr"] == "maximum":
            return not is_default(a["v"], 1)
        return True

    def run(self, a):
        kw = {a["attr"]: a["v"]}
        if a["cap"] != "no":
            kw["nominal_capacity"] = (
                5 if a["cap"] == "x" else solph.Investment(ep_costs=1))
        Flow(**kw)


class fix_and_limits(Rule):
    def draw(self, d):
        a = {}
        for k, dflt in (("minimum", 0), ("maximum", 1)):
            a[k] = d(st.sampled_from([dflt, None, 0.5, 0.25]))
        a["fix"] = d(st.sampled_from([None, 0.5, 0, [0.1, 0.2, 0.3]]))
        return a

    def bad(self, a):
        return a["fix"] is not None and (
            a["minimum"] not in (None, 0) or a["maximum"] not in (None, 1)
        )

    def run(self, a):
        Flow(nominal_capacity=3, **a)


OLD = {
    ("flow", "nominal_value"): ("nominal_capacity", 5, 7),
    ("flow", "min"): ("minimum", 0.25, 0.5),
    ("flow", "max"): ("maximum", 0.75, 0.5),
    ("flow", "custom_attributes"): (
        "custom_properties", {"a": 1}, {"b": 2}),
    ("invest", "custom_attributes"): (
        "custom_properties", {"a": 1}, {"b": 2}),
    ("nonconvex", "custom_attributes"): (
        "custom_properties", {"a": 1}, {"b": 2}),
    ("storage", "nominal_storage_capacity"): ("nominal_capacity", 5, 7),
}


class renamed(Rule):
    """the old name of an option works alone, but not beside the new one"""

    def draw(self, d):
        cls, old = d(st.sampled_from(sorted(OLD)))
        return {"cls": cls, "old": old,
                "use": d(st.sampled_from(["old", "new", "both"])),
                "same": d(st.booleans())}

    def bad(self, a):
        return a["use"] == "both"

    def run(self, a):
        new, x, y = OLD[a["cls"], a["old"]]
        kw = {}
        if a["use"] in ("old", "both"):
            kw[a["old"]] = x
        if a["use"] in ("new", "both"):
            kw[new] = x if a["same"] else y
        want = x if a["use"] == "old" or a["same"] else y
        if a["cls"] == "flow":
            if new in ("minimum", "maximum"):
                kw["nominal_capacity"] = 5
            o = Flow(**kw)
        elif a["cls"] == "storage":
            o = cmp.GenericStorage("s", **kw)
            new = "nominal_storage_capacity"
        elif a["cls"] == "invest":
            o = solph.Investment(**kw)
        else:
            o = solph.NonConvex(**kw)
        got = getattr(o, new)
        if new in ("minimum", "maximum"):
            got = got[2]
        check(got == want, "{} is {} instead of {}", new, got, want)


class gradients(Rule):
    def draw(self, d):
        return {k: d(st.sampled_from([None, None, 0.5, 0, [0.1, 0.2, 0.3]]))
                for k in ("fp", "fn", "np", "nn")}

    def bad(self, a):
        f = a["fp"] is not None or a["fn"] is not None
        n = a["np"] is not None or a["nn"] is not None
        return f and n

    def run(self, a):
        Flow(
            nominal_capacity=3,
            positive_gradient_limit=a["fp"],
            negative_gradient_limit=a["fn"],
            nonconvex=solph.NonConvex(positive_gradient_limit=a["np"],
                                      negative_gradient_limit=a["nn"]),
        )


class nonconvex_investment_maximum(Rule):
    def draw(self, d):
        v = d(st.sampled_from(
            ["none", 5, "inf", [3, 4], [3, "inf"], ["inf", 3]]))
        return {"v": v, "nc": d(st.booleans())}

    def bad(self, a):
        v = num(a["v"])
        return a["nc"] and (
            v == "none" or INF in (v if isinstance(v, list) else [v]))

    def run(self, a):
        kw = {} if a["v"] == "none" else {"maximum": num(a["v"])}
        Flow(
            nominal_capacity=solph.Investment(ep_costs=1, **kw),
            nonconvex=solph.NonConvex() if a["nc"] else None,
        )


class investment(Rule):
    def draw(self, d):
        a = {
            "nonconvex": d(st.sampled_from([True, True, False, False, "int",
                                            "str", "none"])),
            "existing": d(st.sampled_from([0, 0, 0, 5, 0.5])),
            "maximum": d(st.sampled_from(
                [5, 5, 5, 8, "none", "inf", [5, "inf"], [5, 6]])),
            "offset": d(st.sampled_from([0, 0, 2, [0, 3], [3, 0], [0, 0]])),
            "minimum": d(st.sampled_from([0, 1])),
        }
        if d(st.booleans()):
            a["lifetime"] = d(st.integers(1, 10))
            a["age"] = d(st.integers(0, 12))
        return a

    def bad(self, a):
        nc = a["nonconvex"]
        if nc in ("int", "str", "none"):
            return True
        m = num(a["maximum"])
        if nc and (m == "none" or INF in (m if isinstance(m, list) else [m])):
            return True
        if nc and a["existing"] != 0:
            return True
        if not nc and not is_default(a["offset"], 0):
            return True
        return "lifetime" in a and a["age"] >= a["lifetime"]

    def run(self, a):
        kw = dict(a)
        if isinstance(a["nonconvex"], str):
            kw["nonconvex"] = one(a["nonconvex"])
        kw["maximum"] = num(kw["maximum"])
        if kw["maximum"] == "none":
            kw.pop("maximum")
        solph.Investment(**kw)


def inv_flow(on):
    return Flow(nominal_capacity=solph.Investment(ep_costs=1)) if on else (
        Flow(nominal_capacity=4))


class storage_relations(Rule):
    def draw(self, d):
        a = {k: d(st.booleans()) for k in ("in", "out", "cap")}
        for k in ("io", "ic", "oc"):
            a[k] = d(st.sampled_from([None, None, 0.5, 1, 2]))
        return a

    def bad(self, a):
        io, ic, oc = (a[k] is not None for k in ("io", "ic", "oc"))
        return (
            (ic and not (a["in"] and a["cap"]))
            or (oc and not (a["out"] and a["cap"]))
            or (io and not (a["in"] and a["out"]))
            or (io and ic and oc)
        )

    def run(self, a):
        bus = solph.Bus("b")
        cmp.GenericStorage(
            "s",
            inputs={bus: inv_flow(a["in"])},
            outputs={bus: inv_flow(a["out"])},
            nominal_capacity=(
                solph.Investment(ep_costs=1) if a["cap"] else 10),
            invest_relation_input_output=a["io"],
            invest_relation_input_capacity=a["ic"],
            invest_relation_output_capacity=a["oc"],
        )


class storage_flows(Rule):
    def draw(self, d):
        return {"in": d(st.integers(0, 2)), "out": d(st.integers(0, 2)),
                "soc": d(st.booleans()), "cap": d(st.booleans())}

    def bad(self, a):
        return (a["in"] > 1 or a["out"] > 1
                or a["soc"] and (a["in"] == 0 or a["cap"]))

    def run(self, a):
        b = [solph.Bus(f"b{k}") for k in range(2)]
        kw = {}
        if a["soc"]:
            kw = {"constant_soc_until": 0.5,
                  "fraction_saturation_charging": 0.5}
        cmp.GenericStorage(
            "s",
            inputs={b[k]: Flow(nominal_capacity=3) for k in range(a["in"])},
            outputs={b[k]: Flow(nominal_capacity=3) for k in range(a["out"])},
            nominal_capacity=(
                solph.Investment(ep_costs=1) if a["cap"] else 10),
            **kw,
        )


class initial_level(Rule):
    def draw(self, d):
        q = st.sampled_from([0, 0.25, 0.5, 0.75, 1])
        lim = st.one_of(q, st.lists(q, min_size=4, max_size=4))
        return {"init": d(st.one_of(st.none(), q)), "lo": d(lim),
                "hi": d(lim)}

    def bad(self, a):
        def first(x):
            return x[0] if isinstance(x, list) else x

        return a["init"] is not None and not (
            first(a["lo"]) <= a["init"] <= first(a["hi"]))

    def run(self, a):
        cmp.GenericStorage(
            "s", nominal_capacity=4, initial_storage_level=a["init"],
            min_storage_level=a["lo"], max_storage_level=a["hi"])


class storage_fixed_losses(Rule):
    def draw(self, d):
        return {"loss": d(st.sampled_from([0, 1, [0, 0, 1], [0, 0, 0]])),
                "existing": d(st.sampled_from([0, 0, 2])),
                "minimum": d(st.sampled_from([0, 0, 2])),
                "cap": d(st.sampled_from([True, True, False]))}

    def bad(self, a):
        return (a["cap"] and not is_default(a["loss"], 0)
                and a["existing"] == 0 and a["minimum"] == 0)

    def run(self, a):
        cmp.GenericStorage(
            "s",
            nominal_capacity=(
                solph.Investment(ep_costs=1, existing=a["existing"],
                                 minimum=a["minimum"]) if a["cap"] else 10),
            fixed_losses_absolute=a["loss"],
        )


def horizon(n=3):
    return solph.EnergySystem(
        timeindex=pd.date_range("2020-01-01", periods=n + 1, freq="h"),
        infer_last_interval=False)


def two_periods():
    a = pd.date_range("2020-01-01", periods=2, freq="h")
    b = pd.date_range("2025-01-01", periods=2, freq="h")
    return solph.EnergySystem(
        timeindex=a.append(b), timeincrement=[1] * 4, periods=[a, b],
        infer_last_interval=False)


class period_lifetime(Rule):
    def draw(self, d):
        return {"flow": d(st.sampled_from([None, 3, 20])),
                "store": d(st.sampled_from([None, 3, 20, "no"])),
                "multi": d(st.sampled_from([True, True, False]))}

    def bad(self, a):
        return a["multi"] and (a["flow"] is None or a["store"] is None)

    def run(self, a):
        es = two_periods() if a["multi"] else horizon()
        bus = solph.Bus("b")
        inv = {} if a["flow"] is None else {"lifetime": a["flow"]}
        src = cmp.Source("so", outputs={bus: Flow(
            nominal_capacity=solph.Investment(ep_costs=1, maximum=9, **inv))})
        es.add(bus, src)
        if a["store"] != "no":
            inv = {} if a["store"] is None else {"lifetime": a["store"]}
            es.add(cmp.GenericStorage(
                "s", inputs={bus: Flow(nominal_capacity=3)},
                outputs={bus: Flow(nominal_capacity=3)},
                nominal_capacity=solph.Investment(ep_costs=1, maximum=9,
                                                  **inv)))
        solph.Model(es, discount_rate=0.02)


class period_storage(Rule):
    """without a meaning where capacities come and go"""

    def draw(self, d):
        return {
            "loss": d(st.sampled_from(
                [0, 0, 0, 1, [1, 0, 0, 0], [0, 0, 1, 0], [0] * 4])),
            "init": d(st.sampled_from([None, None, 0, 0.5])),
            "invest": d(st.sampled_from([True, True, True, False])),
            "multi": d(st.sampled_from([True, True, True, False])),
        }

    def bad(self, a):
        return a["invest"] and a["multi"] and (
            not is_default(a["loss"], 0) or a["init"] is not None)

    def run(self, a):
        es = two_periods() if a["multi"] else horizon(4)
        bus = solph.Bus("b")
        inv = {"lifetime": 20} if a["multi"] else {}
        es.add(bus, cmp.GenericStorage(
            "s", inputs={bus: Flow(nominal_capacity=3)},
            outputs={bus: Flow(nominal_capacity=3)},
            nominal_capacity=(
                solph.Investment(ep_costs=1, maximum=9, minimum=1, **inv)
                if a["invest"] else 10),
            fixed_losses_absolute=a["loss"],
            initial_storage_level=a["init"],
            balanced=False))
        solph.Model(es, discount_rate=0.02)


class model_basics(Rule):
    """a time axis is needed; debugging output only on demand"""

    errors = Rule.errors + (LoggingError,)

    def draw(self, d):
        return {"axis": d(st.sampled_from(["index", "index", "inc", "none"])),
                "level": d(st.sampled_from([10, 10, 20, 30])),
                "debug": d(st.sampled_from([None, False, True, True]))}

    def bad(self, a):
        return a["axis"] == "none" or a["level"] <= 10 and not a["debug"]

    def run(self, a):
        if a["axis"] == "index":
            es = horizon()
        elif a["axis"] == "inc":
            es = solph.EnergySystem(timeincrement=[1, 2, 1])
        else:
            es = solph.EnergySystem()
        bus = solph.Bus("b")
        es.add(bus, cmp.Source("so", outputs={bus: Flow()}))
        kw = {} if a["debug"] is None else {"debug": a["debug"]}
        root = logging.getLogger()
        old = root.level, logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        root.setLevel(a["level"])
        try:
            solph.Model(es, **kw)
        finally:
            root.setLevel(old[0])
            logging.disable(old[1])


class offset_converter(Rule):
    def draw(self, d):
        flags = st.lists(st.sampled_from([False, False, True]), min_size=3,
                         max_size=3)
        a = {
            "nc": d(st.one_of(flags, st.sampled_from(
                [[True, False, False], [False, True, False]]))),
            "inv": d(st.one_of(flags, st.just([False] * 3))),
            "cf": d(flags), "no": d(flags),
            "co": d(st.sampled_from([None] * 4 + [1, 2, 3])),
        }
        if maybe(d, 2):
            k = [i for i in range(3) if a["nc"][i]]
            for i in k:
                a["cf"][i] = a["no"][i] = False
            a["inv"] = [a["nc"][i] and a["inv"][i] for i in range(3)]
        if a["co"] is not None:
            # the old interface: one input, one output (nonconvex)
            a["nc"] = [False, True, False]
            a["inv"] = [False] * 3
            if maybe(d, 2):
                a["cf"] = a["no"] = [False] * 3
        return a

    def bad(self, a):
        if a["co"] is not None:
            return a["co"] != 2 or any(a["cf"]) or any(a["no"])
        if sum(a["nc"]) != 1:
            return True
        ref = a["nc"].index(True)
        return (any(a["inv"][k] and k != ref for k in range(3))
                or a["cf"][ref] or a["no"][ref])

    def run(self, a):
        b = [solph.Bus(f"b{k}") for k in range(3)]

        def flow(k):
            kw = {}
            if a["nc"][k]:
                kw = {"nonconvex": solph.NonConvex(), "minimum": 0.25}
            if a["inv"][k]:
                kw["nominal_capacity"] = solph.Investment(
                    ep_costs=1, maximum=9)
            else:
                kw["nominal_capacity"] = 10
            return Flow(**kw)

        kw = {}
        if any(a["cf"]):
            kw["conversion_factors"] = {
                b[k]: 2 for k in range(3) if a["cf"][k]}
        if any(a["no"]):
            kw["normed_offsets"] = {
                b[k]: 0.5 for k in range(3) if a["no"][k]}
        if a["co"] is not None:
            kw["coefficients"] = (0.125, 0.5, 0.25)[:a["co"]]
        outs = {b[1]: flow(1)}
        if a["co"] is None:
            outs[b[2]] = flow(2)
        cmp.OffsetConverter(label="oc", inputs={b[0]: flow(0)}, outputs=outs,
                            **kw)


class global_limits(Rule):
    """limits per period need periods, every limit needs a value, given
    flows need the property"""

    def draw(self, d):
        return {
            "f": d(st.sampled_from(
                ["inv_period", "period", "integral", "emission",
                 "emission_period", "missing"])),
            "multi": d(st.booleans()),
            "limit": d(st.sampled_from([None, 5, "list"])),
            "lower": d(st.sampled_from([None, 2])),
            "omit": d(st.booleans()),
        }

    def bad(self, a):
        f = a["f"]
        if f in ("inv_period", "period", "emission_period"):
            return not a["multi"] or a["limit"] is None
        if f == "missing":
            return True
        return a["limit"] is None and (
            f == "emission" or a["lower"] is None)

    def run(self, a):
        es = two_periods() if a["multi"] else horizon()
        bus = solph.Bus("b")
        src = cmp.Source("so", outputs={bus: Flow(
            nominal_capacity=solph.Investment(ep_costs=1, lifetime=20,
                                              maximum=9),
            custom_properties={"k": 1, "emission_factor": 2})})
        s2 = cmp.Source("s2", outputs={bus: Flow(nominal_capacity=8)})
        si = cmp.Sink("si", inputs={bus: Flow()})
        es.add(bus, src, s2, si)
        kw = {"discount_rate": 0.02} if a["multi"] else {}
        m = solph.Model(es, **kw)
        per = a["limit"]
        if per == "list":
            per = [4, 5]
        total = 5 if a["limit"] == "list" else a["limit"]
        f = a["f"]
        # no limit: not given or None
        given = {} if a["limit"] is None and a["omit"] else {"limit": per}
        if f == "inv_period":
            con.investment_limit_per_period(m, **given)
        elif f == "period":
            con.generic_periodical_integral_limit(m, "k", **given)
        elif f == "emission_period":
            con.emission_limit_per_period(m, **given)
        elif f == "integral":
            con.generic_integral_limit(m, "k", upper_limit=total,
                                       lower_limit=a["lower"])
        elif f == "emission":
            con.emission_limit(
                m, **({} if not given else {"limit": total}))
        else:
            some = [(s2, bus)] + [(src, bus)] * (a["limit"] is not None)
            if a["lower"] is not None:
                some = some[::-1]
            con.generic_integral_limit(
                m, "k", flows={x: m.flows[x] for x in some}, upper_limit=5)


class link_connections(Rule):
    def draw(self, d):
        n = st.integers(0, 2)
        pairs = d(st.lists(st.tuples(n, n), min_size=1, max_size=3,
                           unique=True))
        return {"pairs": [list(p) for p in pairs],
                "in": sorted(d(st.sets(n, min_size=1))),
                "out": sorted(d(st.sets(n, min_size=1)))}

    def bad(self, a):
        return any(i not in a["in"] or o not in a["out"]
                   for i, o in a["pairs"])

    def run(self, a):
        es = horizon()
        b = [solph.Bus(f"b{k}") for k in range(3)]
        es.add(*b, cmp.Link(
            "l", inputs={b[k]: Flow() for k in a["in"]},
            outputs={b[k]: Flow() for k in a["out"]},
            conversion_factors={(b[i], b[o]): 0.5 for i, o in a["pairs"]}))
        solph.Model(es)


class piecewise_converter(Rule):
    def draw(self, d):
        return {"in": d(st.integers(1, 2)), "out": d(st.integers(1, 2)),
                "top": d(st.integers(5, 15)), "cap": d(st.integers(5, 15))}

    def bad(self, a):
        return a["in"] > 1 or a["out"] > 1 or a["top"] < a["cap"]

    def run(self, a):
        b = [solph.Bus(f"b{k}") for k in range(4)]
        cmp.experimental.PiecewiseLinearConverter(
            "p",
            inputs={b[k]: Flow(nominal_capacity=a["cap"])
                    for k in range(a["in"])},
            outputs={b[2 + k]: Flow() for k in range(a["out"])},
            in_breakpoints=[0, a["top"] / 2, a["top"]],
            conversion_function=lambda x: x / 2, pw_repn="CC")


class level_connections(Rule):
    """connected flows of the multiplexer need a status"""

    errors = Rule.errors

    def draw(self, d):
        return {"lower": d(st.integers(0, 3)), "upper": d(st.integers(0, 3)),
                "status": d(st.booleans())}

    def bad(self, a):
        return not a["status"]

    def run(self, a):
        es = horizon()
        b = solph.Bus("b")
        kw = {"nonconvex": solph.NonConvex()} if a["status"] else {}
        src = [cmp.Source(f"s{k}", outputs={b: Flow(
            nominal_capacity=4, minimum=0.5, **kw)}) for k in range(3)]
        es.add(b, cmp.Sink("x", inputs={b: Flow()}), *src)
        m = solph.Model(es)
        con.limit_active_flow_count(
            m, "count", [(s, b) for s in src], lower_limit=a["lower"],
            upper_limit=a["upper"])


LONG = {
    "variable_costs": "flow", "minimum": "flow", "maximum": "flow",
    "fix": "flow", "positive_gradient_limit": "flow",
    "activity_costs": "nonconvex", "startup_costs": "nonconvex",
    "inflow_conversion_factor": "storage", "loss_rate": "storage",
    "fixed_losses_absolute": "storage", "max_storage_level": "storage",
    "min_storage_level": "storage", "storage_costs": "storage",
    "factor": "converter",
}


class series_length(Rule):
    """series that are too short for the horizon"""

    def draw(self, d):
        return {"attr": d(st.sampled_from(sorted(LONG))),
                "n": d(st.integers(3, 6)),
                "miss": d(st.integers(0, 2)),
                "rep": d(st.sampled_from(["list", "np"]))}

    def bad(self, a):
        return a["miss"] > 0

    def run(self, a):
        n, attr = a["n"], a["attr"]
        size = n + (1 if attr in ("max_storage_level", "min_storage_level")
                    else 0)
        v = [0.5] * (size - a["miss"])
        if a["rep"] == "np":
            v = np.array(v)
        kind = LONG[attr]
        es = horizon(n)
        b, c = solph.Bus("b"), solph.Bus("c")
        es.add(b, c)
        if kind == "flow":
            es.add(cmp.Source("s", outputs={b: Flow(
                nominal_capacity=3, **{attr: v})}))
        elif kind == "nonconvex":
            es.add(cmp.Source("s", outputs={b: Flow(
                nominal_capacity=3, minimum=0.5,
                nonconvex=solph.NonConvex(**{attr: v}))}))
        elif kind == "storage":
            es.add(cmp.GenericStorage(
                "st", inputs={b: Flow()}, outputs={b: Flow()},
                nominal_capacity=4, **{attr: v}))
        else:
            es.add(cmp.Converter("co", inputs={b: Flow()},
                                 outputs={c: Flow()},
                                 conversion_factors={c: v}))
        es.add(cmp.Sink("x", inputs={b: Flow()}))
        solph.Model(es)


class chp_dimensions(Rule):
    def draw(self, d):
        n = d(st.integers(1, 4))
        return {"n": n, "short": d(st.sampled_from(
            [None, "P_max_woDH", "P_min_woDH", "Eta_el_max_woDH",
             "Eta_el_min_woDH"])) if n > 1 else None}

    def bad(self, a):
        return a["short"] is not None

    def run(self, a):
        es = horizon(a["n"])
        g, e, h = (solph.Bus(x) for x in "geh")
        vals = {"P_max_woDH": 60, "P_min_woDH": 20, "Eta_el_max_woDH": 0.45,
                "Eta_el_min_woDH": 0.35}
        p = {k: [v] * (a["n"] - (k == a["short"])) for k, v in vals.items()}
        es.add(g, e, h, cmp.GenericCHP(
            label="chp",
            fuel_input={g: Flow(custom_properties={
                "H_L_FG_share_max": [0.2] * a["n"]})},
            electrical_output={e: Flow(custom_properties=p)},
            heat_output={h: Flow(custom_properties={
                "Q_CW_min": [0] * a["n"]})},
            beta=[0.] * a["n"], back_pressure=False))
        solph.Model(es)


class ValidationProp(Base):
    quick = 6000
    strict = False

    def case(self, spec):
        r = RULES[spec["rule"]]
        bad = r.bad(spec["args"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if bad:
                try:
                    r.run(spec["args"])
                except r.errors:
                    pass
                else:
                    check(False, "{} accepts {}", spec["rule"],
                          spec["args"])
            else:
                # an exception is reported as an unexpected one
                r.run(spec["args"])
        return {"labels": [spec["rule"], "invalid" if bad else "valid"],
                "nontrivial": bad}


def make(draw):
    name = draw(st.sampled_from(sorted(RULES)))
    return {"rule": name, "args": RULES[name].draw(draw)}


ValidationProp(
    "input-validation",
    make,
    "case: generated arguments of a class or constraint around one of the "
    "documented rules (what needs a capacity, what excludes each other, "
    "which series are complete, ...); whether they have to be refused is "
    "decided from the rule. Non-trivial: the arguments are invalid",
)
