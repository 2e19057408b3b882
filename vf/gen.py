"""Hypothesis building blocks for specs. All randomness of a case is drawn
here (or derived from the drawn integer `dir`)."""

import math

from hypothesis import strategies as st

INF = float("inf")


def _mul(i, step):
    x = round(i * step, 10)
    return int(x) if x == int(x) else x


def num(lo, hi, step=0.5):
    """multiples of step in [lo, hi], rarely a number in between"""

    def value(x):
        v = _mul(x[0], step)
        if x[1] == 24 and v < hi:
            v = round(v + min(step, hi - v) * 0.0137, 7)
        return v

    first = math.ceil(round(lo / step, 6))
    last = math.floor(round(hi / step, 6))
    if first > last:
        return st.just(lo)
    return st.tuples(
        st.integers(first, last), st.integers(1, 24)
    ).map(value)


def num0(lo, hi, step=0.5):
    """as num, or zero now and then (zero must not be read as "not given")"""
    n = num(lo, hi, step)
    return st.one_of(n, n, n, n, n, st.just(0))


REPS = ["list", "np", "series", "tuple", "list", "list", "dtseries"]


@st.composite
def ser(draw, elem, n, scalar=True, reps=True):
    """scalar or series of n elements in one of the accepted forms"""
    kind = draw(st.integers(0, 3)) if scalar else 1
    if kind == 0:
        return draw(elem)
    v = draw(st.lists(elem, min_size=n, max_size=n))
    if reps and kind == 2:
        return {"rep": draw(st.sampled_from(REPS)), "v": v}
    return v


def maybe(draw, p=2):
    """True with probability about 1/p"""
    return draw(st.integers(1, p)) == p


INCS = [1, 1, 1, 0.5, 0.25, 2, 3, 1.5, 1 / 12, 1 / 3]


def some(draw, lo, hi, many):
    """usually lo to hi, but many in a few cases"""
    if maybe(draw, 8):
        return draw(st.integers(hi + 1, many))
    return draw(st.integers(lo, hi))


@st.composite
def time_plain(draw, lo=2, hi=5, uneven=True, weights=True, modes=True):
    n = draw(st.integers(lo, hi))
    if lo == 2 and maybe(draw, 12):
        n = 1
    elif hi >= 3 and maybe(draw, 24):
        n = draw(st.integers(9, 13))
    kind = draw(st.integers(0, 3)) if uneven else 0
    if kind == 0:
        inc = [1] * n
    elif kind == 1:
        inc = [draw(st.sampled_from([0.5, 0.25, 2, 1.5]))] * n
    else:
        inc = draw(st.lists(st.sampled_from(INCS), min_size=n, max_size=n))
    t = {"inc": inc}
    if modes and maybe(draw, 3):
        options = ["increment", "model"]
        if len(set(inc)) == 1 and n >= 3:
            options.append("infer")
        t["mode"] = draw(st.sampled_from(options))
    if weights and maybe(draw, 4):
        t["weights"] = draw(
            st.lists(num(0, 5, 0.5), min_size=n, max_size=n)
        )
    return t


@st.composite
def time_multi(draw, max_periods=4, max_steps=2):
    k = draw(st.integers(2, max_periods))
    if max_periods == 4 and maybe(draw, 24):
        k = draw(st.integers(5, 11))
    years = [0]
    gap = st.just(1) if maybe(draw, 4) else st.integers(1, 6)
    for _ in range(k - 1):
        years.append(years[-1] + draw(gap))
    periods = []
    for y in years:
        periods.append({"year": y, "n": draw(st.integers(1, max_steps))})
    if maybe(draw, 2):
        periods[-1]["n"] = max(2, periods[-1]["n"])
        periods[-1]["span"] = draw(st.integers(2, 6))
    n = sum(p["n"] for p in periods)
    # a period must be a DatetimeIndex of at least one step; the model needs
    # as many increments as there are steps
    t = {
        "inc": draw(
            st.one_of(
                st.just([1] * n),
                st.lists(
                    st.sampled_from([1, 1, 0.5, 2]), min_size=n, max_size=n
                ),
            )
        ),
        "periods": periods,
    }
    if maybe(draw, 2):
        t["dr"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.07]))
    if maybe(draw, 2):
        t["use_remaining_value"] = True
    if maybe(draw, 4):
        t["weights"] = draw(st.lists(num(0, 5, 0.5), min_size=n, max_size=n))
    return t


class Sys:
    """Collects nodes while drawing."""

    # the time axis of all systems, while parts of one system are drawn
    forced = None

    def __init__(self, draw, time):
        self.draw = draw
        if Sys.forced is not None:
            time = dict(Sys.forced)
        self.time = time
        self.T = len(time["inc"])
        self.nodes = []
        self.buses = []
        self.n = 0
        self.labels = set()
        self.constraints = []

    def name(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    def bus(self, balanced=True):
        b = self.name("b")
        n = {"k": "bus", "n": b}
        if not balanced:
            n["balanced"] = False
        self.nodes.append(n)
        self.buses.append(b)
        return b

    def add(self, k, ins=None, outs=None, **kw):
        name = self.name(k[0:2])
        n = {"k": k, "n": name}
        if ins is not None:
            n["in"] = ins
        if outs is not None:
            n["out"] = outs
        n.update(kw)
        self.nodes.append(n)
        return name

    def slack(self, bus, cost=True):
        """unlimited supply and disposal, so that the model is feasible"""
        d = self.draw
        a = {"variable_costs": d(num(5, 20, 1))} if cost else {}
        self.add("source", outs={bus: a})
        b = {"variable_costs": d(num(0, 3, 1))} if cost else {}
        self.add("sink", ins={bus: b})

    def bounded_slack(self, bus, cap=20):
        d = self.draw
        self.add(
            "source",
            outs={bus: {"nominal_capacity": cap,
                        "variable_costs": d(num(5, 20, 1))}},
        )
        self.add(
            "sink",
            ins={bus: {"nominal_capacity": cap,
                       "variable_costs": d(num(0, 3, 1))}},
        )

    def series(self, elem, n=None, **kw):
        return self.draw(ser(elem, self.T if n is None else n, **kw))

    def demand(self, bus, lo=0, hi=8):
        self.add(
            "sink",
            ins={
                bus: {
                    "fix": self.series(num(lo, hi, 0.5), scalar=False),
                    "nominal_capacity": 1,
                }
            },
        )

    def spec(self, **kw):
        d = self.draw
        s = {
            "time": self.time,
            "nodes": self.nodes,
            "dir": d(st.integers(0, 10**6)),
        }
        if self.constraints:
            s["constraints"] = self.constraints
        if d(st.integers(0, 2)) == 2:
            s["order"] = list(
                d(st.permutations(list(range(len(self.nodes)))))
            )
        s.update(kw)
        return s


def simple_flow(s, nominal=True, bidir=True, costs=True):
    """A flow with bounds, fix or neither, and variable costs."""
    d = s.draw
    f = {}
    kind = d(st.integers(0, 4))
    if nominal and kind > 0:
        f["nominal_capacity"] = d(num0(1, 12, 0.5))
        if kind == 1:
            f["fix"] = s.series(num(0, 1, 0.25))
        elif kind >= 2:
            if kind >= 3:
                f["maximum"] = s.series(num0(0.5, 1.5, 0.25))
            if maybe(d, 2):
                f["minimum"] = s.series(
                    num(-1 if bidir and maybe(d, 4) else 0, 0.5, 0.25)
                )
    if bidir and kind != 1 and "minimum" not in f and maybe(d, 12):
        # deprecated: stands for a minimum of -1
        f["bidirectional"] = True
    if costs and maybe(d, 2):
        f["variable_costs"] = s.series(num(-2, 8, 0.5))
    return f


def directions(spec, names, count):
    import numpy as np

    rng = np.random.default_rng(spec.get("dir", 0))
    names = list(names)
    out = []
    if not names:
        return out
    for k in range(count):
        style = (k + spec.get("dir", 0)) % 3
        if style == 0:
            coef = rng.integers(-3, 4, len(names))
            out.append({n: float(c) for n, c in zip(names, coef) if c})
        elif style == 1:
            j = rng.integers(0, len(names))
            out.append({names[j]: float(rng.choice([-1.0, 1.0]))})
        else:
            m = min(len(names), int(rng.integers(2, 5)))
            idx = rng.choice(len(names), size=m, replace=False)
            out.append(
                {names[j]: float(rng.choice([-2.0, -1.0, 1.0, 2.0]))
                 for j in idx}
            )
    return [o for o in out if o]


def rename(x, names):
    if isinstance(x, str):
        return names.get(x, x)
    if isinstance(x, list):
        return [rename(i, names) for i in x]
    if isinstance(x, dict):
        return {names.get(k, k): rename(v, names) for k, v in x.items()}
    return x


OVERLAP = ["a", "a1", "a12", "1", "12", "1a", "b a1", "a1 flow", "aa", "a-",
           "a1-b", "-a", "flow", "A", "A1", "a 1", "12a", "b", "2", "b a"]


def overlapping(draw, spec):
    """names of which many are parts of others"""
    old = [n["n"] for n in spec["nodes"]]
    new = draw(st.permutations(OVERLAP))
    if len(old) > len(new):
        return spec
    return rename(spec, dict(zip(old, new)))
