"""Models over typical periods (time series aggregation)."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, num0, simple_flow
from .base import ModelProp
from .commit import commitment
from .multi import lifetime, multi_investment, per_period
from .storage import investment, losses, storage_flow


def tsam_part(draw, segments=True, max_steps=3, max_k=2, max_rep=4):
    # (segments last several steps)
    steps = draw(st.integers(1, max_steps + 3 * bool(segments)))
    order = [0]
    for _ in range(draw(st.integers(0, max_rep - 1))):
        order.append(draw(st.integers(0, min(max_k, max(order) + 1))))
    if len(order) > 1 and maybe(draw, 2):
        # typical periods need not be numbered in order of appearance
        k = max(order)
        perm = draw(st.permutations(list(range(k + 1))))
        order = [perm[x] for x in order]
    p = {"timesteps_per_period": steps, "order": order}
    if segments:
        segs = []
        n = draw(st.integers(1, min(steps, max_steps)))
        for _ in range(max(order) + 1):
            cuts = sorted(
                draw(
                    st.lists(
                        st.integers(1, max(steps - 1, 1)),
                        min_size=n - 1,
                        max_size=n - 1,
                        unique=True,
                    )
                )
            ) if n > 1 else []
            edges = [0] + cuts + [steps]
            segs.append([b - a for a, b in zip(edges, edges[1:])])
        p["segments"] = segs
        if maybe(draw, 3):
            # a mapping has no order
            p["mix"] = draw(st.integers(1, 50))
    return p


def tsam_time(draw, segments=None, multi=None):
    multi = maybe(draw, 4) if multi is None else multi
    seg = maybe(draw, 3) if segments is None else segments
    if multi:
        seg = False
    n = draw(st.integers(2, 3)) if multi else 1
    parts = [
        tsam_part(draw, seg, max_rep=3 if multi else 4) for _ in range(n)
    ]
    if seg:
        inc = [float(d) for p in parts for ds in p["segments"] for d in ds]
    else:
        step = 1 if multi else draw(st.sampled_from([1, 1, 0.5, 2, 0.25]))
        inc = [
            step
            for p in parts
            for _ in range((max(p["order"]) + 1) * p["timesteps_per_period"])
        ]
    t = {"inc": inc, "tsam": parts}
    if multi:
        years, per = 0, []
        for p in parts:
            per.append(
                {
                    "year": years,
                    "n": (max(p["order"]) + 1) * p["timesteps_per_period"],
                }
            )
            years += draw(st.integers(1, 5))
        t["periods"] = per
        if maybe(draw, 2):
            t["dr"] = draw(st.sampled_from([0.02, 0.05, 0.1]))
    return t


def tsam_labels(spec):
    t = spec["time"]
    yield "several years" if t.get("periods") else "one year"
    if t["tsam"][0].get("segments"):
        yield "segments"
    if any(
        p["order"].count(k) > 1 for p in t["tsam"] for k in set(p["order"])
    ):
        yield "repeated typical period"


def weighting_system(draw):
    s = Sys(draw, tsam_time(draw))
    multi = "periods" in s.time
    b = s.bus()
    keyed = False
    for _ in range(draw(st.integers(1, 3))):
        f = simple_flow(s, bidir=False)
        hours = sum(s.time["inc"])
        kind = draw(st.integers(0, 4))
        if kind == 1 and "fix" not in f:
            f.setdefault("nominal_capacity", draw(num(2, 10, 0.5)))
            f.pop("minimum", None)
            if maybe(draw, 2):
                f["full_load_time_max"] = draw(num(0, 2, 0.125)) * hours
            else:
                f["full_load_time_min"] = draw(num(0, 0.5, 0.125)) * hours
        if kind == 2:
            f = {
                "nominal_capacity": draw(num(2, 10, 0.5)),
                "minimum": s.series(num(0, 0.75, 0.25)),
                "nonconvex": commitment(s, times=False),
                "variable_costs": s.series(num(-3, 6, 0.5)),
            }
        if kind == 3:
            f = {
                "investment": {"maximum": 10, "ep_costs": draw(num(0, 9, 1))},
                "variable_costs": s.series(num(-6, 6, 0.5)),
            }
            if multi:
                f["investment"]["lifetime"] = lifetime(s, 8)
            if maybe(draw, 2):
                f["full_load_time_max"] = draw(num(0, 2, 0.125)) * hours
            elif maybe(draw, 2):
                f["full_load_time_min"] = draw(num(0, 0.5, 0.125)) * hours
        if maybe(draw, 3):
            f["custom_properties"] = {"weight": s.series(num(0, 4, 0.25))}
            keyed = True
        if maybe(draw, 2):
            s.add("source", outs={b: f})
        else:
            s.add("sink", ins={b: f})
    if keyed:
        limit = draw(num(0, 60, 2.5))
        if multi and maybe(draw, 2):
            s.constraints.append(
                {
                    "c": "generic_periodical_integral_limit",
                    "keyword": "weight",
                    "limit": [limit] * len(s.time["periods"]),
                }
            )
        else:
            s.constraints.append(
                {
                    "c": "generic_integral_limit",
                    "keyword": "weight",
                    "upper_limit": limit,
                }
            )
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "tsam-weighting",
    weighting_system,
    "feasible with a typical period that occurs more than once",
    tsam_labels,
    lambda s: "repeated typical period" in set(tsam_labels(s)),
    quick=400,
)


# ------------------------------------------------------------ storages
def tsam_kw(s, capacity=True, absolute=True):
    """parameters of a storage in a model over typical periods"""
    draw = s.draw
    kw = {}
    lo_hi = draw(st.integers(0, 3))
    if lo_hi in (1, 3):
        kw["max_storage_level"] = draw(num0(0.5, 1, 0.125))
    if lo_hi in (2, 3):
        kw["min_storage_level"] = draw(num(0, 0.5, 0.125))
    losses(s, kw, absolute=absolute)
    if maybe(draw, 2):
        kw["balanced"] = draw(st.booleans())
    if maybe(draw, 3):
        kw["storage_costs"] = s.series(num(-1, 4, 0.25))
    lo = kw.get("min_storage_level", 0)
    hi = kw.get("max_storage_level", 1)
    if lo <= hi and maybe(draw, 2):
        kw["initial_storage_level"] = draw(num(lo, hi, 0.125))
    if capacity:
        kw["nominal_capacity"] = draw(num(4, 20, 0.5))
    return kw


def segment_storage_system(draw):
    """a storage with losses over segments of different duration, or over
    several years"""
    return tsam_storage_system(draw, segments=not maybe(draw, 3))


def tsam_storage_system(draw, segments=None):
    if segments is None:
        s = Sys(draw, tsam_time(draw, multi=maybe(draw, 6)))
    else:
        s = Sys(draw, tsam_time(draw, segments, not segments))
    b = s.bus()
    kw = tsam_kw(s)
    if segments is not None:
        kw["loss_rate"] = s.series(num(0.0625, 0.5, 0.0625))
    fin, fout = storage_flow(s), storage_flow(s)
    fin.pop("minimum", None)
    fout.pop("minimum", None)
    s.add("storage", ins={b: fin}, outs={b: fout}, kw=kw)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "tsam-storage",
    tsam_storage_system,
    "feasible with a typical period that occurs more than once",
    tsam_labels,
    lambda s: "repeated typical period" in set(tsam_labels(s)),
    n_dirs=4,
    quick=400,
)


# ------------------------------------------------------------ investment
def tsam_invest_system(draw):
    s = Sys(draw, tsam_time(draw, multi=maybe(draw, 3)))
    multi = "periods" in s.time
    b = s.bus()
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        kw = tsam_kw(s, capacity=False, absolute=not multi)
        kw.pop("balanced", None)
        if multi:
            kw.pop("initial_storage_level", None)
            inv = multi_investment(s, 20)
            life = {"lifetime": lifetime(s)}
            kw["lifetime_inflow"] = lifetime(s, 20)
            kw["lifetime_outflow"] = lifetime(s, 20)
        else:
            inv = investment(s, 20)
            life = {}
            if kw.get("fixed_losses_absolute"):
                if maybe(draw, 2):
                    inv["existing"] = 4
                    inv.pop("nonconvex", None)
                    inv.pop("offset", None)
                else:
                    inv["minimum"] = 4
                    inv["maximum"] = 20
        fin, fout = storage_flow(s), storage_flow(s)
        fin.pop("minimum", None)
        fout.pop("minimum", None)
        r = draw(st.integers(0, 7))
        fi = {"investment": {"ep_costs": draw(num(0, 3, 0.5)),
                             "maximum": draw(num(5, 30)), **life}}
        fo = {"investment": {"ep_costs": draw(num(0, 3, 0.5)),
                             "maximum": draw(num(5, 30)), **life}}
        ratio = per_period(s, num0(0.25, 2, 0.25)) if multi else draw(
            num0(0.25, 2, 0.25)
        )
        if r in (1, 4):
            kw["invest_relation_input_capacity"] = ratio
            fin = fi
        if r in (2, 4):
            kw["invest_relation_output_capacity"] = ratio
            fout = fo
        if r == 3:
            kw["invest_relation_input_output"] = ratio
            fin, fout = fi, fo
        s.add("storage", ins={b: fin}, outs={b: fout}, kw=kw,
              investment=inv)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


def tsam_invest_labels(spec):
    yield from tsam_labels(spec)
    for n in spec["nodes"]:
        if n["k"] == "storage":
            for k in n["investment"]:
                yield "invest " + k
            for k in ("initial_storage_level", "storage_costs"):
                if k in n["kw"]:
                    yield k


ModelProp(
    "tsam-invest-storage",
    tsam_invest_system,
    "feasible (every system has a storage with invested capacity)",
    tsam_invest_labels,
    n_dirs=4,
    quick=400,
)
