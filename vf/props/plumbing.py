"""Sequences of parameters, and slopes and offsets of efficiency lines."""

import itertools
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from oemof import solph
from oemof.solph._plumbing import sequence, valid_sequence

from ..extract import compile_pyomo
from ..gen import maybe, num, num0
from ..lp import solve
from .outputs import Base, check

# -- C39 ----------------------------------------------------------------------


def raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


def eq(a, b):
    return math.isclose(float(a), float(b), rel_tol=1e-12, abs_tol=1e-12)


def given_value(x):
    v, rep = x["v"], x["rep"]
    if rep == "np":
        return np.array(v, dtype=float)
    if rep == "npint":
        return np.array([int(i) for i in v])
    if rep == "tuple":
        return tuple(v)
    if rep == "series":
        return pd.Series(v, dtype=float)
    if rep == "dtseries":
        return pd.Series(
            v,
            index=pd.date_range("2023-05-01", periods=len(v), freq="h"),
            dtype=float,
        )
    if rep == "oddseries":
        return pd.Series(v, index=range(len(v), 0, -1), dtype=float)
    if rep == "column":
        return pd.DataFrame({"a": v, "b": [0.0] * len(v)})["a"]
    if rep == "range":
        return range(len(v))
    if rep == "bools":
        return [bool(int(i) % 2) for i in v]
    if rep == "npscalar":
        return np.float64(v)
    if rep == "npintscalar":
        return np.int64(int(v))
    if rep == "table":
        return [list(v), list(v)]
    if rep == "frame":
        return pd.DataFrame({"a": v})
    return v


def content(x):
    """the elements of an iterable as Python numbers"""
    if x["rep"] == "npint":
        return [int(i) for i in x["v"]]
    if x["rep"] == "range":
        return list(range(len(x["v"])))
    if x["rep"] == "bools":
        return [int(i) % 2 for i in x["v"]]
    return list(x["v"])


SCALARS = ["scalar", "npscalar", "npintscalar"]
TABLES = ["table", "frame"]


def valid(s, n):
    """-> True, False, 'error' and whether there was a warning"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            out = valid_sequence(s, n)
        except ValueError:
            out = "error"
    return out, any(issubclass(w.category, FutureWarning) for w in rec)


def check_scalar(s, value, length, ops):
    """a model of the emulated sequence: value and (maybe) a length"""
    for op in ops:
        k, a = op["op"], op["a"]
        if k == "get":
            check(eq(s[a], value), "element {} is {}, not {}", a, s[a], value)
        elif k == "valid":
            if length is None:
                length = a
            got, warned = valid(s, a)
            check(got is (length == a) and not warned,
                  "validity for length {} of a sequence of {}: {}",
                  a, length, got)
        elif k == "resize":
            s.size = a
            length = a
        elif k == "mul":
            old, s = s, (s * a if op["left"] else a * s)
            check(eq(old.value, value) and eq(old[0], value),
                  "a factor was changed to {}", old)
            value = value * a
        elif k == "div":
            if a == 0:
                continue
            old, s = s, s / a
            check(eq(old.value, value) and eq(old[0], value),
                  "a dividend was changed to {}", old)
            value = value / a
        check(s.size == length, "size {} not {}", s.size, length)
        check(len(s) == (length or 0), "len {} of size {}", len(s), length)
        check(eq(s.value, value), "value {} not {}", s.value, value)
        check(eq(s.min(), value) and eq(s.max(), value),
              "extrema {} {} not {}", s.min(), s.max(), value)
        if length is None:
            check(s.sum() == np.inf, "sum {} without length", s.sum())
            check(str(s.value) in repr(s), "{} is shown as {}", value,
                  repr(s))
            check(raises(ValueError, s.to_numpy),
                  "array of unknown length")
        else:
            check(repr(s) == repr([s.value] * length),
                  "{} times {} is shown as {}", length, value, repr(s))
            check(eq(s.sum(), length * value), "sum {} of {} times {}",
                  s.sum(), length, value)
            got = list(itertools.islice(iter(s), length + 1))
            check(len(got) == length and all(eq(x, value) for x in got),
                  "elements {} of {} times {}", got, length, value)
            arr = s.to_numpy()
            check(arr.shape == (length,) and all(eq(x, value) for x in arr),
                  "array {} of {} times {}", arr, length, value)
        for n in (0, 1, 4):
            arr = s.to_numpy(length=n)
            check(arr.shape == (n,) and all(eq(x, value) for x in arr),
                  "array {} of {} times {}", arr, n, value)
    return length


def sequence_case(spec):
    x, length = spec["x"], spec["length"]
    rep = x["rep"]
    given = given_value(x)
    if rep == "none":
        check(sequence(None, length=length) is None, "None is changed")
        check(valid(None, 3) == (False, False), "None is a valid sequence")
        return "none"
    if rep == "str":
        check(sequence(given) == given, "text {} becomes {}", given,
              sequence(given))
        check(valid(sequence(given), len(given)) == (False, False),
              "text is a valid sequence")
        return "str"
    if rep in TABLES:
        check(raises(ValueError, lambda: sequence(given, length=length)),
              "a table is accepted")
        return "table"
    if rep in SCALARS:
        value = int(x["v"]) if rep == "npintscalar" else x["v"]
        s = sequence(given, length=length)
        check_scalar(s, value, length, [{"op": "get", "a": 0}] + spec["ops"])
        return "scalar"
    want = content(x)
    n = len(want)
    if length and length != n:
        check(raises(ValueError, lambda: sequence(given, length=length)),
              "{} elements accepted with length {}", n, length)
        return "wrong length"
    s = sequence(given, length=length)
    check(len(s) == n and s.size == n and isinstance(s, np.ndarray),
          "{} becomes {}", want, s)
    check(all(eq(s[i], want[i]) for i in range(n)), "{} becomes {}", want, s)
    check(all(eq(a, b) for a, b in zip(s, want)), "{} becomes {}", want, s)
    for op in spec["ops"]:
        if op["op"] == "valid":
            a = op["a"]
            got = valid(s, a)
            if n == a:
                exp = (True, False)
            elif n > a:
                exp = (True, True)
            else:
                exp = ("error", False)
            check(got == exp, "validity of {} elements for {}: {}", n, a, got)
    check(valid(list(want), n) == (False, False), "a list is valid")
    if n and rep in ("list", "np", "npint", "column", "series", "dtseries"):
        # what is done to the given container later does not matter
        if hasattr(given, "iloc"):
            given.iloc[n - 1] = 77
        else:
            given[n - 1] = 77
        check(eq(s[n - 1], want[-1]), "{} when the given values change",
              s[n - 1])
    return "elements"


def paths(d, sep):
    """-> [(joined keys, value)] of a nested dictionary, by breadth"""
    out = []
    todo = [((), d)]
    while todo:
        path, x = todo.pop()
        if isinstance(x, dict):
            todo += [(path + (str(k),), v) for k, v in x.items()]
        else:
            out.append((sep.join(path), x))
    return out


def flatten_case(spec):
    def decode(x):
        if isinstance(x, list) and x and x[0] == "d":
            return {k if isinstance(k, (str, int)) else tuple(k): decode(v)
                    for k, v in x[1]}
        return x

    d = decode(spec["flatten"])
    before = str(d)
    kw = {} if spec["sep"] is None else {"sep": spec["sep"]}
    got = solph.helpers.flatten(d, **kw)
    want = paths(d, "_" if spec["sep"] is None else spec["sep"])
    check(str(d) == before, "the dictionary was changed")
    check(set(got) == {k for k, _ in want}, "keys {} instead of {}",
          sorted(got), sorted(k for k, _ in want))
    for k, v in got.items():
        check(any(k == a and (v is b or v == b) for a, b in want),
              "value of {} is {}", k, v)
    return "flatten"


class SequenceProp(Base):
    strict = True
    quick = 2400
    thorough = 120000

    def case(self, spec):
        if "flatten" in spec:
            return {"labels": [flatten_case(spec)],
                    "nontrivial": any(
                        isinstance(v, list) for _, v in spec["flatten"][1]
                    )}
        kind = sequence_case(spec)
        return {"labels": [kind, "as " + spec["x"]["rep"]],
                "nontrivial": kind in ("scalar", "elements", "wrong length")}


@st.composite
def op(draw):
    k = draw(st.sampled_from(["get", "valid", "resize", "mul", "div"]))
    if k in ("mul", "div"):
        return {"op": k, "a": draw(num(-3, 3, 0.5)),
                "left": draw(st.booleans())}
    big = draw(st.sampled_from([0, 0, 0, 300]))
    lo = 0 if k == "get" else 1
    return {"op": k, "a": draw(st.integers(lo, 6)) + big}


def nested(draw, depth):
    n = draw(st.integers(0, 3))
    out = []
    for i in range(n):
        k = draw(st.sampled_from(["a", "b_c", "", 1, [0, "x"]]))
        if any(k == x for x, _ in out):
            continue
        if depth and maybe(draw, 2):
            v = nested(draw, depth - 1)
        else:
            v = draw(st.one_of(st.none(), st.integers(0, 5),
                               st.sampled_from(["t", ""]),
                               st.just([1, 2])))
        out.append([k, v])
    return ["d", out]


def sequence_make(draw):
    if maybe(draw, 8):
        d = nested(draw, 3)
        # (an empty first key is not joined)
        d[1] = [[k, v] for k, v in d[1] if k != ""]
        return {"flatten": d,
                "sep": draw(st.sampled_from([None, ".", "", "__"]))}
    group = draw(st.integers(0, 9))
    if group <= 3:
        rep = draw(st.sampled_from(SCALARS))
        v = draw(num(-4, 8, 0.5))
    elif group <= 7:
        rep = draw(st.sampled_from(
            ["list", "tuple", "np", "npint", "series", "dtseries",
             "oddseries", "column", "range", "bools"]
        ))
        n = draw(st.integers(0, 6))
        if n and maybe(draw, 8):
            n += 255
        base = draw(st.lists(num(-4, 8, 0.5), min_size=min(n, 6),
                             max_size=min(n, 6)))
        v = [base[i % len(base)] + i // 50 for i in range(n)]
    elif group == 8:
        rep = draw(st.sampled_from(TABLES))
        v = draw(st.lists(num(0, 3), min_size=1, max_size=3))
    else:
        rep = draw(st.sampled_from(["none", "str"]))
        v = None if rep == "none" else draw(st.sampled_from(["", "a", "fix"]))
    length = None
    if rep in SCALARS and maybe(draw, 2):
        length = draw(st.integers(1, 400 if maybe(draw, 5) else 6))
    elif isinstance(v, list) and maybe(draw, 2):
        length = len(v) if maybe(draw, 2) else draw(st.integers(1, 6))
    ops = draw(st.lists(op(), max_size=6))
    if isinstance(v, list):
        for o in ops:
            if o["op"] == "valid" and maybe(draw, 2):
                o["a"] = len(v)
    return {"x": {"rep": rep, "v": v}, "length": length or None, "ops": ops}


SequenceProp(
    "sequences",
    sequence_make,
    "case: a scalar or series in one of the accepted forms, a wanted length "
    "and a sequence of operations (access, validation, resizing, arithmetic) "
    "on the result, compared with a model made of a value and a length. "
    "Non-trivial: neither None, text nor a table.",
)

# -- C40 ----------------------------------------------------------------------


def line_case(spec):
    # the second time step may have other limits and efficiencies
    line_at(spec, {**spec, **spec.get("second", {})})


def line_at(spec, second):
    fn = getattr(
        solph.components, "slope_offset_from_nonconvex_" + spec["ref"]
    )
    lines = []
    for x in (spec, second):
        lines.append(
            fn(x["max"], x["min"], x["eta_max"], x["eta_min"])
        )

    def other(load, step=0):
        """the flow (per capacity) that the efficiencies ask for"""
        x = (spec, second)[step]
        hi, lo = x["max"], x["min"]
        eta_hi, eta_lo = x["eta_max"], x["eta_min"]
        if spec["ref"] == "input":
            a, b = lo * eta_lo, hi * eta_hi
        else:
            a, b = lo / eta_lo, hi / eta_hi
        return a + (load - lo) / (hi - lo) * (b - a)

    for step, x in enumerate((spec, second)):
        slope, offset = lines[step]
        for part in (0, 1, 0.75):
            load = x["min"] + part * (x["max"] - x["min"])
            got = slope * load + offset
            check(abs(got - other(load, step)) < 1e-9 * (1 + abs(got)),
                  "flow {} at load {}, not {}", got, load, other(load, step))
    hi, lo = spec["max"], spec["min"]
    eta_hi, eta_lo = spec["eta_max"], spec["eta_min"]
    slope, offset = lines[0]
    # series of efficiencies
    s2, o2 = fn(hi, lo, np.array([eta_hi, eta_hi]),
                np.array([eta_lo, eta_hi]))
    check(eq(s2[0], slope) and abs(o2[0] - offset) < 1e-12,
          "other line for a series")
    check(not raises(ValueError, lambda: s2[1]), "series lost")

    # the converter follows the line
    cap = spec["cap"]
    a, b = solph.Bus("a"), solph.Bus("b")
    es = solph.EnergySystem(
        timeindex=pd.date_range("2024-01-01", periods=3, freq="h"),
        infer_last_interval=False,
    )
    if "second" in spec:
        lo = [lo, second["min"]]
        hi = [hi, second["max"]]
        slope = [slope, lines[1][0]]
        offset = [offset, lines[1][1]]
    nc = solph.Flow(nominal_capacity=cap, minimum=lo, maximum=hi,
                    nonconvex=solph.NonConvex())
    on_input = spec["ref"] == "input"
    far = b if on_input else a
    es.add(
        a,
        b,
        solph.components.Source("so", outputs={a: solph.Flow()}),
        solph.components.Sink("si", inputs={b: solph.Flow()}),
        solph.components.OffsetConverter(
            label="oc",
            inputs={a: nc if on_input else solph.Flow()},
            outputs={b: solph.Flow() if on_input else nc},
            conversion_factors={far: slope},
            normed_offsets={far: offset},
        ),
    )
    m = solph.Model(es)
    mat, col = compile_pyomo(m)
    oc = es.node["oc"]
    for step, x in enumerate((spec, second)):
        near = (a, oc, step) if on_input else (oc, b, step)
        away = (oc, b, step) if on_input else (a, oc, step)
        j = col[id(m.flow[near])]
        k = col[id(m.flow[away])]
        for part in (0, 1, 0.5):
            load = x["min"] + part * (x["max"] - x["min"])
            want = other(load, step) * cap
            if want < -1e-9 or other(x["min"], step) < 0 \
                    or other(second["min"], 1) < 0 \
                    or other(spec["min"]) < 0:
                continue
            lb, ub = mat.lb.copy(), mat.ub.copy()
            lb[j] = max(lb[j], load * cap - 1e-9)
            ub[j] = min(ub[j], load * cap + 1e-9)
            for sign in (1, -1):
                c = np.zeros(mat.n)
                c[k] = sign
                state, _, sol = solve(mat, c, lb, ub)
                check(state == "optimal", "load {} is {}", load, state)
                check(abs(sol[k] - want) < 1e-5 * (1 + want),
                      "converter: flow {} at load {} of step {}, not {}",
                      sol[k], load, step, want)
    if "plot" in spec:
        plot_case(oc, far, spec["plot"], (spec, second)[spec["plot"]],
                  lambda load: other(load, spec["plot"]))


def plot_case(oc, far, step, x, other):
    """the partload diagram shows flow and ratio over the whole range"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    fig, ax = oc.plot_partload(far, step)
    try:
        shown = ax[0].lines[0]
        loads = shown.get_xdata()
        check(abs(loads[0] - x["min"]) < 1e-9
              and abs(loads[-1] - x["max"]) < 1e-9,
              "plotted range {} to {}", loads[0], loads[-1])
        for load, y in zip(loads, shown.get_ydata()):
            check(abs(y - other(load)) < 1e-6 * (1 + abs(y)),
                  "plotted flow {} at load {}, not {}", y, load, other(load))
        ratio = ax[1].lines[0]
        for load, y in zip(ratio.get_xdata()[1:], ratio.get_ydata()[1:]):
            check(abs(y - other(load) / load) < 1e-6 * (1 + abs(y)),
                  "plotted ratio {} at load {}", y, load)
    finally:
        plt.close(fig)


class LineProp(Base):
    quick = 800
    thorough = 20000

    def case(self, spec):
        line_case(spec)
        labels = [spec["ref"]]
        if spec["max"] != 1:
            labels.append("maximum is not one")
        labels += [k for k in ("second", "plot") if k in spec]
        return {"labels": labels,
                "nontrivial": spec["eta_max"] != spec["eta_min"]}


def load_range(draw):
    lo = draw(num0(0.05, 1.2, 0.05))
    hi = round(lo + draw(num(0.05, 1.2, 0.05)), 10)
    if maybe(draw, 3):
        hi = 1
        lo = min(lo, 0.95)
    return {
        "max": hi,
        "min": lo,
        "eta_max": draw(num(0.1, 3, 0.05)),
        "eta_min": draw(num(0.1, 3, 0.05)),
    }


def line_make(draw):
    spec = {
        "ref": draw(st.sampled_from(["input", "output"])),
        **load_range(draw),
        "cap": draw(num(0.5, 20, 0.5)),
    }
    if maybe(draw, 2):
        spec["second"] = load_range(draw)
    if maybe(draw, 5):
        spec["plot"] = draw(st.integers(0, 1))
    return spec


LineProp(
    "slope-helpers",
    line_make,
    "case: two load points and efficiencies; the line through them is "
    "compared with slope and offset, with the flows of a model of an "
    "OffsetConverter that uses them (with another line in the second step), "
    "and with its diagram. Non-trivial: the efficiencies differ.",
)
