"""Unit commitment: nonconvex flows with fixed or invested capacity."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, ser, time_plain
from .base import ModelProp, all_flows


def nc_flow(s, minimum=True):
    d = s.draw
    f = {"nominal_capacity": d(num(1, 10, 0.5)), "nonconvex": {}}
    if minimum or maybe(d, 2):
        f["minimum"] = s.series(num(0, 0.75, 0.25))
    if maybe(d, 2):
        f["maximum"] = s.series(num(0.75, 1.25, 0.25))
    if maybe(d, 2):
        f["variable_costs"] = s.series(num(-4, 6, 0.5))
    return f


def place(s, bus, f):
    """at a source, a sink or a converter"""
    k = s.draw(st.integers(0, 2))
    if k == 0:
        s.add("source", outs={bus: f})
    elif k == 1:
        s.add("sink", ins={bus: f})
    else:
        other = s.bus()
        s.slack(other)
        s.add(
            "conv",
            ins={other: {}},
            outs={bus: f},
            cf={bus: s.series(num(0.25, 1, 0.25))},
        )


def status_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    b = s.bus()
    for _ in range(draw(st.integers(1, 2))):
        f = nc_flow(s)
        if maybe(draw, 2):
            f["nonconvex"]["activity_costs"] = s.series(num(-3, 5, 0.5))
        if maybe(draw, 3):
            f["nonconvex"]["inactivity_costs"] = s.series(num(-3, 5, 0.5))
        if maybe(draw, 4):
            f["minimum"] = s.series(num(-1, -0.25, 0.25))
        place(s, b, f)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


def nc_labels(spec):
    for i, o, f in all_flows(spec):
        for k in f.get("nonconvex") or {}:
            yield k
        if "nonconvex" in f and "investment" in f:
            yield "invest nonconvex"
        if (f.get("nonconvex") or {}).get("initial_status") == 1:
            yield "initially on"


ModelProp(
    "nonconvex-status",
    status_system,
    "feasible (every system has a nonconvex flow)",
    nc_labels,
)


def int_series(s, lo, hi):
    d = s.draw
    if maybe(d, 2):
        return d(st.integers(lo, hi))
    v = d(st.lists(st.integers(lo, hi), min_size=s.T, max_size=s.T))
    if maybe(d, 3):
        v[0] = lo
    return v


def commitment(s, costs=True, times=True):
    d = s.draw
    nc = {}
    if maybe(d, 2):
        nc["initial_status"] = d(st.integers(0, 1))
    if times:
        if maybe(d, 2):
            nc["minimum_uptime"] = int_series(s, 0, max(4, s.T - 3))
        if maybe(d, 2):
            nc["minimum_downtime"] = int_series(s, 0, max(4, s.T - 3))
    if costs:
        if maybe(d, 3):
            nc["maximum_startups"] = d(st.integers(0, 2))
        if maybe(d, 3):
            nc["maximum_shutdowns"] = d(st.integers(0, 2))
        if maybe(d, 2):
            nc["startup_costs"] = s.series(num(0, 6, 0.5))
        if maybe(d, 2):
            nc["shutdown_costs"] = s.series(num(0, 6, 0.5))
        if maybe(d, 4):
            nc["activity_costs"] = s.series(num(-3, 3, 0.5))
        if maybe(d, 4):
            nc["inactivity_costs"] = s.series(num(-3, 3, 0.5))
    return nc


def times_system(draw):
    s = Sys(draw, draw(time_plain(3, 9, modes=False)))
    b = s.bus()
    f = nc_flow(s)
    f["nonconvex"] = commitment(s, costs=maybe(draw, 3))
    if maybe(draw, 3):
        f.pop("nominal_capacity")
        f["investment"] = {"maximum": 8, "ep_costs": draw(num(0, 4, 0.5))}
    if maybe(draw, 2):
        s.add("source", outs={b: f})
    else:
        s.add("sink", ins={b: f})
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "min-up-down-time",
    times_system,
    "feasible with a minimum up time or minimum down time",
    nc_labels,
    lambda s: any(
        k in (f.get("nonconvex") or {})
        for _, _, f in all_flows(s)
        for k in ("minimum_uptime", "minimum_downtime")
    ),
)


def starts_system(draw):
    s = Sys(draw, draw(time_plain(2, 6, modes=False)))
    b = s.bus()
    for _ in range(draw(st.integers(1, 2))):
        f = nc_flow(s)
        f["nonconvex"] = commitment(s, times=False)
        if maybe(draw, 4):
            f.pop("nominal_capacity")
            f["investment"] = {"maximum": 8, "ep_costs": 1}
        place(s, b, f)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "startups-shutdowns",
    starts_system,
    "feasible with start or shutdown costs or limits",
    nc_labels,
    lambda s: any(
        k in (f.get("nonconvex") or {})
        for _, _, f in all_flows(s)
        for k in (
            "startup_costs",
            "shutdown_costs",
            "maximum_startups",
            "maximum_shutdowns",
        )
    ),
)


def invest_nc_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    b = s.bus()
    f = {
        "investment": {
            "maximum": draw(num(2, 10, 0.5)),
            "ep_costs": draw(num(0, 6, 0.5)),
        },
        "nonconvex": commitment(s, times=maybe(draw, 4)),
    }
    inv = f["investment"]
    if maybe(draw, 2):
        inv["minimum"] = draw(num(0, 2, 0.5))
    if maybe(draw, 2):
        inv["nonconvex"] = True
        inv["offset"] = draw(num(0, 10, 0.5))
        inv.setdefault("minimum", draw(num(0, 2, 0.5)))
    if maybe(draw, 2):
        f["minimum"] = s.series(num(0, 0.75, 0.25))
    if maybe(draw, 2):
        f["maximum"] = s.series(num(0.75, 1, 0.25))
    if maybe(draw, 2):
        f["variable_costs"] = s.series(num(-4, 6, 0.5))
    place(s, b, f)
    if maybe(draw, 3):
        place(s, b, nc_flow(s))
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "invest-nonconvex",
    invest_nc_system,
    "feasible (every system has a nonconvex flow with invested capacity)",
    nc_labels,
)


def count_system(draw):
    from .tsam import tsam_time

    tsam = maybe(draw, 5) and Sys.forced is None
    s = Sys(
        draw,
        tsam_time(draw, multi=False) if tsam else draw(time_plain(1, 4)),
    )
    b = s.bus()
    pairs = []
    k = draw(st.integers(2, 4))
    for _ in range(k):
        f = nc_flow(s)
        if not (tsam or s.time.get("periods") or s.time.get("tsam")) and maybe(
            draw, 4
        ):
            f["investment"] = {
                "maximum": f.pop("nominal_capacity"),
                "ep_costs": draw(num(0, 6, 0.5)),
            }
        keyed = maybe(draw, 2)
        if keyed:
            f["custom_properties"] = {"group": 1}
        if maybe(draw, 2):
            n = s.add("source", outs={b: f})
            pairs.append((n, b, keyed))
        else:
            n = s.add("sink", ins={b: f})
            pairs.append((b, n, keyed))
    if maybe(draw, 5):
        # has the keyword, but no status
        s.add("sink", ins={b: {"nominal_capacity": 3,
                               "custom_properties": {"group": 1}}})
    for number in range(draw(st.sampled_from([1, 1, 2]))):
        limits = {}
        if maybe(draw, 2):
            limits["lower_limit"] = draw(st.integers(0, k))
        if maybe(draw, 2) or not limits:
            limits["upper_limit"] = draw(
                st.integers(limits.get("lower_limit", 0), k)
            )
        if any(p[2] for p in pairs) and maybe(draw, 2) and not any(
            c["c"] == "limit_active_flow_count_by_keyword"
            for c in s.constraints
        ):
            s.constraints.append(
                {"c": "limit_active_flow_count_by_keyword",
                 "keyword": "group", **limits}
            )
        else:
            m = draw(st.integers(1, k))
            if number:
                picked = draw(st.permutations(pairs))[:m]
            else:
                picked = pairs[:m]
            s.constraints.append(
                {
                    "c": "limit_active_flow_count",
                    "name": f"count{number or ''}",
                    "flows": [list(p[:2]) for p in picked],
                    **limits,
                }
            )
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "active-flow-count",
    count_system,
    "feasible (every system limits the number of active flows)",
    lambda s: [s["constraints"][0]["c"]]
    + [k for k in ("lower_limit", "upper_limit") if k in s["constraints"][0]]
    + ["several limits"] * (len(s["constraints"]) > 1)
    + ["typical periods"] * ("tsam" in s["time"]),
)
_ = ser
