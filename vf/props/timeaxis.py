"""The time axis: increments, periods, typical periods, index helper."""

import math
import warnings
from datetime import date, datetime, timedelta

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from oemof import solph

from ..gen import maybe
from .outputs import Base, check

TICKS = [60, 90, 300, 900, 1800, 3600, 3600, 5400, 7200, 86400, 100, 1]


def close(a, b):
    return len(a) == len(b) and all(
        math.isclose(float(x), float(y), rel_tol=1e-9, abs_tol=1e-12)
        for x, y in zip(a, b)
    )


def refused(fn, *exc):
    """fn raises one of the exceptions"""
    try:
        fn()
    except exc:
        return True
    return False


def index_of(spec):
    start = datetime(2020, 1, 1) + timedelta(seconds=spec["start"])
    out = [start]
    for s in spec["secs"]:
        out.append(out[-1] + timedelta(seconds=s))
    idx = pd.DatetimeIndex(out)
    if spec.get("tz"):
        idx = idx.tz_localize("UTC").tz_convert(spec["tz"])
    return idx


def system_of(es):
    bus = solph.Bus("b")
    so = solph.components.Source("so", outputs={bus: solph.Flow()})
    si = solph.components.Sink("si", inputs={bus: solph.Flow()})
    es.add(bus, so, si)
    return so, bus


def check_model(es, want, per=None, **kw):
    """sets and increments of a model of a minimal system"""
    so, bus = system_of(es)
    m = solph.Model(es, **kw)
    n = len(want)
    check(list(m.TIMESTEPS) == list(range(n)), "time steps {} instead of {}",
          list(m.TIMESTEPS), n)
    check(list(m.TIMEPOINTS) == list(range(n + 1)), "time points {}",
          list(m.TIMEPOINTS))
    check(close(list(m.timeincrement), want), "increments of the model: {}"
          " instead of {}", list(m.timeincrement), want)
    check(close([m.objective_weighting[t] for t in m.TIMESTEPS], want),
          "objective weighting {}", list(m.objective_weighting))
    per = per or [0] * n
    check(list(m.TIMEINDEX) == list(zip(per, range(n))), "time index {}"
          " instead of {}", list(m.TIMEINDEX), list(zip(per, range(n))))
    check(list(m.PERIODS) == sorted(set(per)), "periods {}", list(m.PERIODS))
    for p in set(per):
        check(list(m.TIMESTEPS_IN_PERIOD[p])
              == [t for t in range(n) if per[t] == p],
              "steps in period {}: {}", p, m.TIMESTEPS_IN_PERIOD[p])
    check(sorted(t for i, o, t in m.flow if i is so) == list(range(n)),
          "flows are not defined for all time steps")
    return m


def datetime_case(spec):
    idx = index_of(spec)
    es = solph.EnergySystem(timeindex=idx, infer_last_interval=False)
    want = [s / 3600 for s in spec["secs"]]
    check(close(list(es.timeincrement), want), "increments {} instead of {}",
          list(es.timeincrement), want)
    check(list(es.timeindex) == list(idx), "time index changed")
    check_model(es, want)
    return len(set(want)) > 1


def infer_case(spec):
    n = spec["n"]
    idx = pd.date_range(
        datetime(2020, 1, 1) + timedelta(seconds=spec["start"]),
        periods=n + 1, freq=spec["freq"],
    )
    given = idx[:-1]
    if spec["drop"]:
        given = pd.DatetimeIndex(list(given))
    es = solph.EnergySystem(timeindex=given, infer_last_interval=True)
    want = [
        (b - a).total_seconds() / 3600 for a, b in zip(idx[:-1], idx[1:])
    ]
    check(list(es.timeindex) == list(idx), "points {} instead of {}",
          list(es.timeindex), list(idx))
    check(close(list(es.timeincrement), want), "increments {} instead of {}",
          list(es.timeincrement), want)
    check_model(es, want)
    return True


def numeric_case(spec):
    pts = [spec["start"] / 4]
    for x in spec["steps"]:
        pts.append(pts[-1] + x)
    rep = spec["rep"]
    given = {"list": list, "np": np.array, "tuple": tuple,
             "index": pd.Index}[rep](pts)
    es = solph.EnergySystem(timeindex=given, infer_last_interval=False)
    check(close(list(es.timeincrement), spec["steps"]),
          "increments {} instead of {}", list(es.timeincrement),
          spec["steps"])
    check_model(es, spec["steps"])
    check(refused(lambda: solph.EnergySystem(
        timeindex=given, infer_last_interval=True), AttributeError),
        "the last interval of numbers is inferred")
    return len(set(spec["steps"])) > 1


def increment_case(spec):
    rep = spec["rep"]
    steps = spec["steps"]
    given = {"list": list, "np": np.array, "tuple": tuple,
             "series": pd.Series}[rep](steps)
    es = solph.EnergySystem(timeincrement=given)
    check(close(list(es.timeincrement), steps), "increments {}",
          list(es.timeincrement))
    pts = [0]
    for x in steps:
        pts.append(pts[-1] + x)
    check(close(list(es.timeindex), pts), "points {} instead of {}",
          list(es.timeindex), pts)
    check_model(es, steps)
    return len(set(steps)) > 1


def invalid_case(spec):
    """axes that do not ascend strictly, and contradictory arguments"""
    idx = index_of(spec)
    k = spec["at"] % len(idx)
    how = spec["how"]
    pts = list(idx)
    if how == "both":
        check(refused(lambda: solph.EnergySystem(
            timeindex=idx, timeincrement=[1] * len(spec["secs"])),
            AttributeError), "index and increments are accepted together")
        return True
    if how == "increment":
        steps = [s / 3600 for s in spec["secs"]]
        steps[k % len(steps)] *= spec["sign"]
        check(refused(lambda: solph.EnergySystem(timeincrement=steps),
                      TypeError), "increments {} are accepted", steps)
        return True
    if how == "none":
        es = solph.EnergySystem()
        check(es.timeincrement is None, "increments without an axis")
        system_of(es)
        check(refused(lambda: solph.Model(es), AttributeError),
              "a model without a time axis")
        return True
    if how == "repeat":
        pts.insert(k, pts[k])
    elif how == "swap":
        a, b = k, (k + 1) % len(pts)
        pts[a], pts[b] = pts[b], pts[a]
    elif how == "reverse":
        pts = pts[::-1]
    if spec["numeric"]:
        given = [(p - pts[0]).total_seconds() for p in pts]
    else:
        given = pd.DatetimeIndex(pts)
    check(refused(lambda: solph.EnergySystem(
        timeindex=given, infer_last_interval=False), TypeError),
        "an axis that does not ascend is accepted: {}", given)
    return True


def irregular_case(spec):
    """no frequency: the last interval cannot be inferred"""
    idx = index_of(spec)
    check(refused(lambda: solph.EnergySystem(
        timeindex=idx, infer_last_interval=True), AttributeError),
        "the last interval of an irregular axis is inferred")
    return True


def period_index(p):
    idx = pd.date_range(f"{p['year']}-{p['month']:02d}-01", periods=p["n"],
                        freq=p["freq"])
    return idx


def periods_case(spec):
    idx = [period_index(p) for p in spec["periods"]]
    full = idx[0]
    for i in idx[1:]:
        full = full.append(i)
    inc = [1.0 + 0.5 * (k % 3) for k in range(len(full))]
    rep = [i.to_series() for i in idx] if spec["series"] else idx
    es = solph.EnergySystem(timeindex=full, timeincrement=inc, periods=rep,
                            infer_last_interval=False)
    y0 = idx[0][0].year
    years = [i[0].year - y0 for i in idx]
    check(list(es.periods_years) == years, "years of the periods: {} instead"
          " of {}", es.periods_years, years)
    want = [[max(0, b - a) for b in years] for a in years]
    check(np.asarray(es.periods_matrix).tolist() == want,
          "distances between periods: {} instead of {}",
          np.asarray(es.periods_matrix).tolist(), want)
    dur = [i[-1].year - i[0].year + 1 for i in idx]
    got = [es.get_period_duration(p) for p in range(len(idx))]
    check(got == dur, "durations {} instead of {}", got, dur)
    check(es.end_year_of_optimization == years[-1] + dur[-1],
          "end of the optimisation: {} instead of {}",
          es.end_year_of_optimization, years[-1] + dur[-1])
    per = [k for k, i in enumerate(idx) for _ in i]
    kw = {} if spec["rate"] is None else {"discount_rate": spec["rate"]}
    m = check_model(es, inc, per, **kw)
    r = 0.02 if spec["rate"] is None else spec["rate"]
    check(m.discount_rate == r, "discount rate {} instead of {}",
          m.discount_rate, r)
    return len(idx) > 1 and any(d > 1 for d in dur)


def typical_case(spec):
    """occurrences, weights and increments of typical periods"""
    order = spec["order"]
    kinds = sorted(set(order))
    per = spec["per"]
    par = {"timesteps_per_period": per, "order": list(order)}
    steps = per
    if spec["segments"]:
        steps = len(spec["segments"])
        par["segments"] = {
            (k, s): spec["segments"][s] + (k if s == 0 else 0)
            for k in (kinds[::-1] if spec.get("back") else kinds)
            for s in range(steps)
        }
    n = steps * len(kinds)
    if spec["segments"]:
        idx = pd.date_range("2021-01-01", periods=n, freq="h")
        inc = [par["segments"][k, s] for k in kinds for s in range(steps)]
    else:
        idx = pd.date_range("2021-01-01", periods=n + 1, freq=spec["freq"])
        inc = [(b - a).total_seconds() / 3600
               for a, b in zip(idx[:-1], idx[1:])]
    given = par if spec["single"] else [par]
    es = solph.EnergySystem(timeindex=idx, tsa_parameters=given,
                            infer_last_interval=False)
    count = {k: sum(1 for x in order if x == k) for k in kinds}
    occ = es.tsa_parameters[0]["occurrences"]
    check(dict(occ) == count, "occurrences {} instead of {}", dict(occ),
          count)
    check(es.tsa_parameters[0]["timesteps"] == steps, "steps per typical"
          " period {} instead of {}", es.tsa_parameters[0]["timesteps"],
          steps)
    m = check_model(es, inc)
    want = [count[k] for k in kinds for _ in range(steps)]
    check(list(m.tsam_weighting) == want, "weights {} instead of {}",
          list(m.tsam_weighting), want)
    check([tuple(x) for x in m.TIMEINDEX_CLUSTER]
          == [(0, i, g) for i in range(len(order)) for g in range(steps)],
          "steps of the original periods: {}", list(m.TIMEINDEX_CLUSTER))
    check([tuple(x) for x in m.TIMEINDEX_TYPICAL_CLUSTER]
          == [(0, k, g) for k in kinds for g in range(steps)],
          "steps of the typical periods: {}",
          list(m.TIMEINDEX_TYPICAL_CLUSTER))
    if spec["segments"]:
        check(refused(lambda: solph.EnergySystem(
            timeindex=idx, tsa_parameters=[dict(par)],
            timeincrement=inc, periods=[idx]), AttributeError),
            "increments are accepted beside segments")
        later = idx + pd.Timedelta(days=731)
        plain = {k: par[k] for k in ("timesteps_per_period", "order")}
        both = [dict(par), plain]
        if spec.get("back"):
            both.reverse()
        check(refused(lambda: solph.EnergySystem(
            timeindex=idx.append(later), tsa_parameters=both,
            periods=[idx, later]), AttributeError),
            "segments are accepted in only one of the periods")
    return len(kinds) < len(order)


def helper_case(spec):
    """create_time_index"""
    h = spec["interval"]
    if spec["mode"] == "year":
        idx = solph.create_time_index(spec["year"], interval=h)
        y = spec["year"]
        total = (date(y + 1, 1, 1) - date(y, 1, 1)).days * 24
        n = total / h
        check(len(idx) == n + 1, "{} points instead of {}", len(idx), n + 1)
        start = datetime(y, 1, 1)
        n = int(n)
        check(idx[-1] == datetime(y + 1, 1, 1), "the year ends at {}",
              idx[-1])
    else:
        n = spec["number"]
        start = datetime(2020, 1, 1)
        if spec["mode"] == "start":
            start = start + timedelta(seconds=spec["start"])
            idx = solph.create_time_index(interval=h, number=n, start=start)
        elif spec["mode"] == "date":
            start = start + timedelta(days=spec["start"] % 400)
            idx = solph.create_time_index(interval=h, number=n,
                                          start=start.date())
        else:
            start = datetime(spec["year"], 1, 1)
            idx = solph.create_time_index(spec["year"], interval=h, number=n)
        check(refused(lambda: solph.create_time_index(
            spec["year"], start=start, number=n), ValueError),
            "start and year are accepted together")
    check(len(idx) == n + 1, "{} points instead of {}", len(idx), n + 1)
    for k in {0, 1 if n else 0, n // 2, n}:
        check(abs((idx[k] - (start + k * timedelta(hours=h)))
                  .total_seconds()) < 1e-3, "point {} is {}", k, idx[k])
    return h != 1


CASES = {
    "datetime": datetime_case,
    "infer": infer_case,
    "numeric": numeric_case,
    "increment": increment_case,
    "invalid": invalid_case,
    "irregular": irregular_case,
    "periods": periods_case,
    "typical": typical_case,
    "helper": helper_case,
}


class TimeProp(Base):
    quick = 800

    def case(self, spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nt = CASES[spec["kind"]](spec)
        return {"labels": [spec["kind"]], "nontrivial": bool(nt)}


def make(draw):
    kind = draw(st.sampled_from(list(CASES)))
    s = {"kind": kind}
    small = st.lists(
        st.integers(1, 32).map(lambda k: k / 8), min_size=1, max_size=6
    )
    if kind in ("datetime", "invalid"):
        s["start"] = draw(st.integers(0, 400 * 86400))
        s["secs"] = draw(
            st.lists(st.sampled_from(TICKS), min_size=1, max_size=7)
        )
        if kind == "datetime" and maybe(draw, 3):
            s["tz"] = draw(st.sampled_from(["Europe/Berlin", "UTC",
                                            "America/New_York"]))
        if kind == "invalid":
            s["how"] = draw(st.sampled_from(
                ["both", "increment", "none", "repeat", "swap", "reverse"]))
            s["sign"] = draw(st.sampled_from([0, -1]))
            s["at"] = draw(st.integers(0, 20))
            s["numeric"] = draw(st.booleans())
            if s["how"] == "none":
                s["at"] = 0
    elif kind == "irregular":
        s["start"] = draw(st.integers(0, 400 * 86400))
        a, b = draw(st.permutations([60, 900, 3600, 7200, 86400]))[:2]
        s["secs"] = [a] * draw(st.integers(1, 4)) + [b] * draw(
            st.integers(1, 4))
        if len(s["secs"]) < 3:
            s["secs"] = [a, a, b]
    elif kind == "infer":
        s["start"] = draw(st.integers(0, 400)) * 86400
        s["freq"] = draw(st.sampled_from(
            ["h", "15min", "D", "2h", "MS", "W-MON", "90min", "YS", "s"]))
        s["drop"] = draw(st.booleans())
        s["n"] = draw(st.integers(3 if s["drop"] else 1, 8))
        if s["drop"] and s["freq"] in ("D", "W-MON", "MS", "YS"):
            s["n"] = max(s["n"], 4)
    elif kind == "numeric":
        s["start"] = draw(st.integers(-20, 20))
        s["steps"] = draw(small)
        s["rep"] = draw(st.sampled_from(["list", "np", "tuple", "index"]))
    elif kind == "increment":
        s["steps"] = draw(small)
        s["rep"] = draw(st.sampled_from(["list", "np", "tuple", "series"]))
    elif kind == "periods":
        y = draw(st.integers(2018, 2024))
        s["periods"] = []
        for _ in range(draw(st.integers(1, 4))):
            f = draw(st.sampled_from(["h", "D", "MS", "YS", "100D"]))
            p = {"year": y, "month": draw(st.sampled_from([1, 1, 1, 6, 12])),
                 "n": draw(st.integers(1, 5)), "freq": f}
            s["periods"].append(p)
            y = period_index(p)[-1].year + draw(st.integers(1, 5))
        s["series"] = draw(st.booleans())
        s["rate"] = draw(st.sampled_from([None, 0.02, 0.05, 0.07]))
    elif kind == "typical":
        k = draw(st.integers(1, 4))
        rest = draw(st.lists(st.integers(0, k - 1), max_size=6))
        s["order"] = list(draw(st.permutations(list(range(k)) + rest)))
        s["segments"] = draw(st.one_of(
            st.none(), st.lists(st.integers(1, 6), min_size=1, max_size=4)))
        s["per"] = (sum(s["segments"]) if s["segments"]
                    else draw(st.integers(1, 5)))
        s["freq"] = draw(st.sampled_from(["h", "30min", "2h"]))
        s["single"] = draw(st.booleans())
        s["back"] = draw(st.booleans())
    else:
        s["mode"] = draw(st.sampled_from(["year", "start", "date",
                                          "number"]))
        s["interval"] = draw(st.sampled_from([1, 0.5, 0.25, 2, 3, 24, 1.5,
                                              0.75, 12]))
        s["year"] = draw(st.one_of(
            st.integers(1990, 2050), st.sampled_from([1996, 2000, 2024])))
        if s["mode"] == "year" and s["interval"] < 1:
            s["interval"] = 2
        s["number"] = draw(st.integers(0, 50))
        s["start"] = draw(st.integers(0, 400 * 86400))
    return s


TimeProp(
    "time-index",
    make,
    "case: a generated time axis (points, increments, periods, typical "
    "periods, or arguments of create_time_index); increments, sets and "
    "weights of the energy system and of a model built from it are compared "
    "with values calculated from the definition, and axes that do not "
    "ascend or contradict themselves have to be refused. Non-trivial: "
    "irregular steps, several periods or repeated typical periods, an "
    "inferred interval, or an invalid axis",
)
