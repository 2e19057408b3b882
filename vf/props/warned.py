"""Suspicious, deprecated and experimental use is pointed out by warnings."""

import logging
import warnings

import pandas as pd
from hypothesis import strategies as st
from oemof import solph
from oemof.solph import components as cmp
from oemof.solph import constraints as con
from oemof.tools.debugging import ExperimentalFeatureWarning
from oemof.tools.debugging import SuspiciousUsageWarning

from ..build import build
from ..gen import maybe
from ..ref import vals
from .outputs import Base, any_system, check, investments

Flow = solph.Flow
SUS, EXP, DEP = "suspicious", "experimental", "deprecated"
CATEGORY = (
    (SuspiciousUsageWarning, SUS),
    (ExperimentalFeatureWarning, EXP),
    ((FutureWarning, DeprecationWarning), DEP),
)
RULES = {}


class Caught:
    """warnings of the package that were given while running something"""

    def __init__(self, rec):
        self.texts = []
        for w in rec:
            kind = [k for c, k in CATEGORY if issubclass(w.category, c)]
            if kind and ("oemof" in w.filename or kind[0] in (SUS, EXP)):
                self.texts.append((kind[0], str(w.message)))

    def count(self, kind, *words):
        return sum(
            k == kind and all(w in t for w in words) for k, t in self.texts
        )


def catch(fn):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = fn()
    return out, Caught(rec)


def expect(got, what, **want):
    for kind in (SUS, EXP, DEP):
        check(got.count(kind) == want.get(kind, 0),
              "{} {} warnings instead of {} for {}: {}", got.count(kind),
              kind, want.get(kind, 0), what, got.texts)


class Rule:
    def __init_subclass__(cls):
        RULES[cls.__name__] = cls()


def count3(d):
    return d(st.sampled_from([None, 0, 1, 2, 2, 2, 3]))


class missing_parts(Rule):
    """nodes without inputs, outputs or factors"""

    def draw(self, d):
        kind = d(st.sampled_from(["converter", "link", "storage"]))
        a = {"kind": kind, "in": count3(d), "out": count3(d),
             "cf": count3(d)}
        if kind == "storage":
            a["in"] = d(st.sampled_from([None, 0, 1]))
            a["out"] = d(st.sampled_from([None, 0, 1]))
        return a

    def run(self, a):
        i = [solph.Bus(f"i{k}") for k in range(3)]
        o = [solph.Bus(f"o{k}") for k in range(3)]

        def some(buses, n):
            return None if n is None else {b: Flow() for b in buses[:n]}

        kw = {"inputs": some(i, a["in"]), "outputs": some(o, a["out"])}
        missing = [k for k in kw if not kw[k]]
        want = len(missing)
        label = "a certain node"
        if a["kind"] == "storage":
            def fn():
                return cmp.GenericStorage(label, nominal_capacity=5, **kw)
        elif a["kind"] == "link":
            if a["cf"] is None:
                missing.append("conversion_factors")
                want += 1
            else:
                kw["conversion_factors"] = {
                    (i[k], o[k]): 0.5 for k in range(a["cf"])}
            want += any(a[x] != 2 for x in ("in", "out", "cf"))

            def fn():
                return cmp.Link(label, **kw)
        else:
            def fn():
                return cmp.Converter(label, **kw)
        _, got = catch(fn)
        expect(got, a, suspicious=want)
        for k in missing:
            check(got.count(SUS, f"<{k}>", label) == 1,
                  "missing {} of {!r}: {}", k, label, got.texts)
        return want


class flow_arguments(Rule):
    def draw(self, d):
        out = {}
        if maybe(d, 2):
            out[d(st.sampled_from(["nominal_value", "nominal_capacity"]))] = 3
        for pair in (("min", "minimum"), ("max", "maximum")):
            if out and maybe(d, 2):
                k = d(st.sampled_from(pair))
                lo = -1 if k == "minimum" else 0
                out[k] = d(st.one_of(
                    st.integers(lo, 1).map(lambda x: x / 2),
                    st.lists(st.integers(lo, 1).map(lambda x: x / 2),
                             min_size=3, max_size=3)))
        if maybe(d, 3):
            out[d(st.sampled_from(
                ["custom_attributes", "custom_properties"]))] = {"a": 1}
        if maybe(d, 3):
            out["fixed_costs"] = d(st.sampled_from([0, 2, [1, 2, 3]]))
        if maybe(d, 3):
            out["variable_costs"] = 0
        if maybe(d, 4):
            out["bidirectional"] = True
        return out

    def run(self, a):
        negative = min(vals(a.get("minimum")) or [0]) < 0
        old = [k for k in ("nominal_value", "min", "max",
                           "custom_attributes") if k in a]
        if a.get("bidirectional") and not negative:
            old.append("bidirectional")
        f, got = catch(lambda: Flow(**a))
        expect(got, a, suspicious=int("fixed_costs" in a),
               experimental=int(negative), deprecated=len(old))
        for k in old:
            check(got.count(DEP, k) >= 1, "no warning for {}: {}", k,
                  got.texts)
        check(f.bidirectional is (negative or "bidirectional" in a),
              "bidirectional: {}", f.bidirectional)
        return negative + len(old) + ("fixed_costs" in a)


class options(Rule):
    """investments and nonconvex flows"""

    def draw(self, d):
        return {
            "cls": d(st.sampled_from(["Investment", "NonConvex"])),
            "prop": d(st.sampled_from(
                [None, "custom_attributes", "custom_properties"])),
            "nonconvex": d(st.booleans()),
            "minimum": d(st.integers(0, 2)), "offset": d(st.integers(0, 2)),
        }

    def run(self, a):
        kw = {} if a["prop"] is None else {a["prop"]: {"extra": 1}}
        sus = 0
        if a["cls"] == "Investment":
            kw["nonconvex"] = a["nonconvex"]
            if a["nonconvex"]:
                kw.update(maximum=10, minimum=a["minimum"],
                          offset=a["offset"])
                sus = int(a["minimum"] == 0 and a["offset"] == 0)
        _, got = catch(lambda: getattr(solph, a["cls"])(**kw))
        old = int(a["prop"] == "custom_attributes")
        expect(got, a, suspicious=sus, deprecated=old)
        return sus + old


class storage_capacity(Rule):
    def draw(self, d):
        return {"old": d(st.booleans()), "invest": d(st.booleans())}

    def run(self, a):
        b = solph.Bus("b")
        cap = solph.Investment(ep_costs=1) if a["invest"] else 5
        key = "nominal_storage_capacity" if a["old"] else "nominal_capacity"
        s, got = catch(lambda: cmp.GenericStorage(
            "s", inputs={b: Flow()}, outputs={b: Flow()}, **{key: cap}))
        expect(got, a, deprecated=int(a["old"]))
        check((s.investment if a["invest"] else s.nominal_storage_capacity)
              is cap, "capacity is lost")
        return a["old"]


class axis(Rule):
    def draw(self, d):
        a = {"kind": d(st.sampled_from(
            ["index", "number", "increment", "periods", "tsam",
             "tsam periods"])),
            "invest": d(st.integers(0, 3)), "storage": d(st.booleans()),
            "reset": d(st.booleans()),
            "dr": d(st.sampled_from([None, 0.02, 0.05]))}
        return a

    def run(self, a):
        kind = a["kind"]
        p1 = pd.date_range("2020-01-01", periods=4, freq="h")
        p2 = pd.date_range("2025-01-01", periods=4, freq="h")
        ts = {"timesteps_per_period": 2, "order": [0, 1]}
        kw = {
            "index": {"timeindex": p1},
            "number": {"timeindex": [0, 1, 2, 3, 5]},
            "increment": {"timeincrement": [1, 1, 1, 2]},
            "periods": {"timeindex": p1.append(p2), "periods": [p1, p2],
                        "timeincrement": [1] * 8},
            "tsam": {"timeindex": p1, "tsa_parameters": ts},
            "tsam periods": {
                "timeindex": p1.append(p2), "periods": [p1, p2],
                "timeincrement": [1] * 8,
                "tsa_parameters": [dict(ts), dict(ts)]},
        }[kind]
        multi = "periods" in kw
        es, got = catch(
            lambda: solph.EnergySystem(infer_last_interval=False, **kw))
        expect(got, a, deprecated=int(kind == "increment"),
               experimental=2 * multi + ("tsa_parameters" in kw))
        if "tsa_parameters" in kw:
            return 2
        b = solph.Bus("b")
        es.add(b, cmp.Sink("x", inputs={b: Flow()}))
        inv = 0
        for k in range(a["invest"]):
            es.add(cmp.Source(f"s{k}", outputs={b: Flow(
                nominal_capacity=solph.Investment(
                    ep_costs=1, lifetime=20, maximum=10,
                    nonconvex=k == 1, offset=int(k == 1)),
                )}))
            inv += 1
        if a["storage"]:
            es.add(cmp.GenericStorage(
                "st", inputs={b: Flow()}, outputs={b: Flow()},
                lifetime_inflow=20, lifetime_outflow=20,
                nominal_capacity=solph.Investment(
                    ep_costs=1, lifetime=20, maximum=10)))
            inv += 1
        kw = {} if a["dr"] is None else {"discount_rate": a["dr"]}
        if a["reset"]:
            kw["timeincrement"] = list(es.timeincrement)
        m, got = catch(lambda: solph.Model(es, **kw))
        # the default discount rate, and the interest rates
        want = int(a["reset"])
        if multi:
            want += (inv > 0) + (a["dr"] is None)
        n = got.count(SUS)
        check(n >= want and bool(n) == bool(want),
              "{} warnings for {}: {}", n, a, got.texts)
        check(got.count(EXP) + got.count(DEP) == 0, "warnings: {}",
              got.texts)
        if multi:
            check(m.discount_rate == (a["dr"] or 0.02), "discount rate {}",
                  m.discount_rate)
        return want


class results_access(Rule):
    def draw(self, d):
        return {"ways": d(st.lists(st.sampled_from(
            ["flow", "get", "to_df", "timeindex", "variable_costs",
             "investment_costs", "objective", "Solver", "Problem",
             "results", "keys", "invest"]), max_size=4)),
            "limit": d(st.sampled_from(
                [None, "limit", "upper_limit", "lower_limit"]))}

    def run(self, a):
        es = solph.EnergySystem(
            timeindex=[0, 1, 2], infer_last_interval=False)
        b = solph.Bus("b")
        src = cmp.Source("s", outputs={b: Flow(
            nominal_capacity=solph.Investment(ep_costs=2),
            custom_properties={"factor": 2})})
        es.add(b, cmp.Sink("x", inputs={b: Flow(
            nominal_capacity=4, fix=[1, 0.5])}), src)

        m, got = catch(lambda: solph.Model(es))
        expect(got, a)
        if a["limit"]:
            _, got = catch(lambda: con.generic_integral_limit(
                m, "factor",
                **{a["limit"]: 1 if a["limit"] == "lower_limit" else 50}))
            expect(got, a, deprecated=int(a["limit"] == "limit"))
        r, got = catch(lambda: m.solve(solver="cbc"))
        expect(got, a)
        n = int(a["limit"] == "limit")
        for way in a["ways"]:
            want = {}
            if way == "get":
                _, got = catch(lambda: r.get("flow"))
            elif way == "to_df":
                _, got = catch(lambda: r.to_df("flow"))
                want = {DEP: 1}
            elif way == "timeindex":
                _, got = catch(lambda: r.timeindex)
                want = {DEP: 1}
            elif way == "results":
                _, got = catch(m.results)
                want = {DEP: 1}
            elif way == "keys":
                _, got = catch(lambda: sorted(r.keys()))
            else:
                _, got = catch(lambda: r[way])
                if way in ("Solver", "Problem"):
                    want = {DEP: 1}
                elif way.endswith("_costs"):
                    want = {EXP: 1}
            expect(got, way, **want)
            n += len(want)
        return n


class long_series(Rule):
    """only some series are checked; they are still accepted"""

    def draw(self, d):
        return {"n": d(st.integers(2, 5)), "more": d(st.integers(0, 2)),
                "attr": d(st.sampled_from(
                    ["variable_costs", "positive_gradient_limit",
                     "negative_gradient_limit"]))}

    def run(self, a):
        es = solph.EnergySystem(timeindex=list(range(a["n"] + 1)),
                                infer_last_interval=False)
        v = [0.5] * (a["n"] + a["more"])
        b = solph.Bus("b")
        es.add(b, cmp.Source("s", outputs={b: Flow(
            nominal_capacity=4, **{a["attr"]: v})}),
            cmp.Sink("x", inputs={b: Flow()}))
        _, got = catch(lambda: solph.Model(es))
        if not a["more"]:
            expect(got, a)
        else:
            check(got.count(DEP) >= 1, "{} values for {} steps: {}", len(v),
                  a["n"], got.texts)
        return a["more"]


class offset_coefficients(Rule):
    def draw(self, d):
        return {"old": d(st.booleans())}

    def run(self, a):
        b, c = solph.Bus("b"), solph.Bus("c")
        kw = {"conversion_factors": {b: 2}, "normed_offsets": {b: -0.5}}
        if a["old"]:
            kw = {"coefficients": (0.1, 0.5)}
        _, got = catch(lambda: cmp.OffsetConverter(
            label="o", inputs={b: Flow()},
            outputs={c: Flow(nominal_capacity=4, minimum=0.5,
                             nonconvex=solph.NonConvex())}, **kw))
        expect(got, a, deprecated=int(a["old"]))
        return a["old"]


class whole_system(Rule):
    """kinds of warnings of a whole system, from its description"""

    def draw(self, d):
        return any_system(d)

    def run(self, spec):
        (b, got) = catch(lambda: build(spec))
        kinds = set()
        t = spec["time"]
        if t.get("periods") or t.get("tsam"):
            kinds.add(EXP)
        flows = [f for n in spec["nodes"]
                 for side in ("in", "out")
                 for f in n.get(side, {}).values()]
        for f in flows:
            if min(vals(f.get("minimum")) or [0]) < 0:
                kinds.add(EXP)
            elif f.get("bidirectional"):
                kinds.add(DEP)
            if f.get("fixed_costs") is not None:
                kinds.add(SUS)
        unknown = set()
        if t.get("mode") == "model":
            # increments are reset in the model
            unknown.add(SUS)
        if t.get("periods"):
            # rates that are taken by default, costs for more years than
            # periods
            unknown |= {SUS, DEP}
        for inv in investments(spec):
            if inv.get("nonconvex"):
                unknown.add(SUS)
        old = [k for f in flows for k in
               ("nominal_value", "min", "max", "custom_attributes", "alias")
               if f.get(k) is not None]
        if old or t.get("mode") == "increment":
            unknown.add(DEP)
        for n in spec["nodes"]:
            if n["k"] in ("link", "conv", "storage", "offset"):
                if n["k"] == "link" or not n.get("in") or not n.get("out"):
                    unknown.add(SUS)
            if ("alias" in n or n.get("coefficients")
                    or "nominal_storage_capacity" in n.get("kw", {})):
                unknown.add(DEP)
        for c in spec.get("constraints", []):
            if "limit" in c:
                unknown.add(DEP)
        for kind in (SUS, EXP, DEP):
            if kind in kinds:
                check(got.count(kind) > 0, "no {} warning", kind)
            elif kind not in unknown:
                check(got.count(kind) == 0, "{} warnings for an ordinary "
                      "system: {}", kind,
                      [x for x in got.texts if x[0] == kind])
        return len(kinds)


class WarningProp(Base):
    strict = False
    quick = 1600
    thorough = 40000

    def case(self, spec):
        logging.disable(logging.CRITICAL)
        n = RULES[spec["rule"]].run(spec["args"])
        return {"labels": [spec["rule"],
                           "ordinary" if not n else "warned"],
                "nontrivial": bool(n)}


def make(draw):
    name = draw(st.sampled_from(sorted(RULES)))
    return {"rule": name, "args": RULES[name].draw(draw)}


WarningProp(
    "warnings",
    make,
    "case: generated arguments of a class, constraint or method, or a whole "
    "system; which warnings have to be given is decided from the "
    "description. Non-trivial: at least one warning is due",
)
