"""Multi-period models: capacities over the years and the objective."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, num0, simple_flow, time_multi
from .base import ModelProp, all_flows
from .storage import losses, storage_flow


def per_period(s, elem):
    d = s.draw
    if maybe(d, 2):
        return d(elem)
    n = len(s.time["periods"])
    return d(st.lists(elem, min_size=n, max_size=n))


def yearly(s, elem):
    """a cost per year: one number or one number for every year"""
    d = s.draw
    if not maybe(d, 2):
        return d(elem)
    last = s.time["periods"][-1]
    end = last["year"] + last.get("span", 1)
    cycle = d(st.lists(elem, min_size=2, max_size=4))
    n = max(end, len(s.time["periods"]))
    return (cycle * n)[:n]


def lifetime(s, top=12):
    """often one that ends with the begin of a period"""
    years = [p["year"] for p in s.time["periods"]]
    exact = sorted({b - a for a in years for b in years if 0 < b - a})
    if exact and maybe(s.draw, 2):
        return s.draw(st.sampled_from(exact))
    if maybe(s.draw, 3):
        # beyond the horizon
        return s.draw(st.integers(top, 30))
    return s.draw(st.integers(1, top))


def age(s, life):
    exact = [life - p["year"] for p in s.time["periods"]
             if 0 < p["year"] <= life]
    if exact and maybe(s.draw, 2):
        return s.draw(st.sampled_from(exact))
    return s.draw(st.integers(0, life - 1))


def multi_investment(s, top=12, costs=True, existing=True):
    d = s.draw
    life = lifetime(s)
    inv = {"lifetime": life}
    if maybe(d, 2):
        inv["age"] = age(s, life)
    if maybe(d, 2):
        inv["maximum"] = per_period(s, num0(2, top, 0.5))
    if costs:
        inv["ep_costs"] = per_period(s, num0(1, 60, 1))
    if maybe(d, 4):
        inv["minimum"] = per_period(s, num(0, 2, 0.5))
        if "maximum" not in inv:
            inv["maximum"] = top
    if existing and maybe(d, 3):
        inv["existing"] = d(num(0, 6, 0.5))
    if maybe(d, 3):
        inv["overall_maximum"] = d(num0(6, 20, 0.5))
    if maybe(d, 4):
        inv["overall_minimum"] = d(num(0, 3, 0.5))
    if maybe(d, 3):
        inv["fixed_costs"] = yearly(s, num(0, 8, 0.5))
    if maybe(d, 3) and "maximum" in inv:
        inv["nonconvex"] = True
        inv["offset"] = per_period(s, num0(1, 20, 1))
        inv.pop("existing", None)
    return inv


def multi_flow(s):
    d = s.draw
    f = {"investment": multi_investment(s)}
    kind = d(st.integers(0, 4))
    if kind == 1:
        f["fix"] = s.series(num(0, 1, 0.25))
    elif kind >= 2:
        if maybe(d, 2):
            f["maximum"] = s.series(num(0.5, 1.25, 0.25))
        if maybe(d, 2):
            f["minimum"] = s.series(num(0, 0.5, 0.25))
    if maybe(d, 2):
        f["variable_costs"] = s.series(num(-20, 6, 0.5))
    return f


def put(s, buses, f):
    d = s.draw
    b = d(st.sampled_from(buses))
    k = d(st.integers(0, 3))
    if k == 3 and len(buses) > 1:
        a = [x for x in buses if x != b][0]
        return s.add("conv", ins={a: {}}, outs={b: f},
                     cf={b: s.series(num(0.25, 1, 0.25))})
    if k == 2:
        return s.add("sink", ins={b: f})
    return s.add("source", outs={b: f})


def plain(s):
    d = s.draw
    f = simple_flow(s, bidir=False)
    if "nominal_capacity" in f:
        if maybe(d, 2):
            f["lifetime"] = lifetime(s)
            f.pop("fix", None)
            f.pop("minimum", None)
            if maybe(d, 2):
                f["age"] = age(s, f["lifetime"])
        if maybe(d, 2):
            f["fixed_costs"] = yearly(s, num(0, 6, 0.5))
    return f


def finish(s, buses):
    for b in buses:
        if maybe(s.draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)


def with_storage(s, buses):
    if maybe(s.draw, 4):
        s.time.setdefault("dr", 0.05)
        multi_storage(s, buses)


def multi_system(draw):
    s = Sys(draw, draw(time_multi()))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 2))):
        put(s, buses, multi_flow(s))
    if maybe(draw, 2):
        put(s, buses, plain(s))
    with_storage(s, buses)
    finish(s, buses)
    return s.spec()


def multi_labels(spec):
    for k in ("dr", "use_remaining_value", "weights"):
        if k in spec["time"]:
            yield k
    yield f"{len(spec['time']['periods'])} periods"
    for i, o, f in all_flows(spec):
        if "investment" in f:
            for k in f["investment"]:
                yield k
        if "lifetime" in f:
            yield "limited lifetime of a fixed capacity"
    life = [
        f["investment"]["lifetime"]
        for _, _, f in all_flows(spec)
        if "investment" in f
    ] + [
        n["investment"]["lifetime"]
        for n in spec["nodes"]
        if n.get("investment")
    ]
    if life and min(life) <= spec["time"]["periods"][-1]["year"]:
        yield "decommissioning"


ModelProp(
    "multi-capacity",
    multi_system,
    "feasible (every system has periods and invested flow capacity)",
    multi_labels,
)


# ------------------------------------------------------------ objective
def multi_cost_system(draw):
    s = Sys(draw, draw(time_multi(4, 3)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 2))):
        f = {
            "investment": multi_investment(s),
            "variable_costs": s.series(num(-20, 6, 0.5)),
        }
        put(s, buses, f)
    for _ in range(draw(st.integers(0, 2))):
        f = plain(s)
        f["variable_costs"] = s.series(num(-3, 6, 0.5))
        if "nominal_capacity" not in f:
            f["nominal_capacity"] = 10
        put(s, buses, f)
    if maybe(draw, 4):
        f = {
            "nominal_capacity": draw(num(2, 8, 0.5)),
            "minimum": s.series(num(0, 0.75, 0.25)),
            "nonconvex": {"activity_costs": s.series(num(-2, 4, 0.5)),
                          "startup_costs": s.series(num(0, 4, 0.5))},
            "variable_costs": s.series(num(-3, 6, 0.5)),
        }
        put(s, buses, f)
    with_storage(s, buses)
    finish(s, buses)
    return s.spec()


ModelProp(
    "multi-objective",
    multi_cost_system,
    "feasible (every system has periods, invested capacity and costs)",
    multi_labels,
)


# ------------------------------------------------------------ storages
def multi_storage(s, buses):
    d = s.draw
    kw = {}
    lo_hi = d(st.integers(0, 3))
    invest = not maybe(d, 4)
    n = s.T if invest else s.T + 1
    if lo_hi in (1, 3):
        kw["max_storage_level"] = s.series(num0(0.5, 1, 0.125), n=n)
    if lo_hi in (2, 3):
        kw["min_storage_level"] = s.series(num(0, 0.5, 0.125), n=n)
    losses(s, kw, absolute=not invest)
    if maybe(d, 3):
        kw["storage_costs"] = s.series(num(0, 3, 0.25))
    if maybe(d, 2):
        kw["balanced"] = d(st.booleans())
    if invest:
        x = {"investment": multi_investment(s, 20)}
        kw["lifetime_inflow"] = lifetime(s, 20)
        kw["lifetime_outflow"] = lifetime(s, 20)
        kw["balanced"] = False
    else:
        x = {}
        kw["nominal_capacity"] = d(num0(4, 20, 0.5))
        if maybe(d, 2):
            kw["fixed_costs"] = yearly(s, num(0, 5, 0.5))
    fin, fout = storage_flow(s), storage_flow(s)
    fin.pop("minimum", None)
    fout.pop("minimum", None)
    r = d(st.integers(0, 6))
    fi = {"investment": {"ep_costs": d(num(0, 3, 0.5)),
                         "lifetime": lifetime(s, 20),
                         "maximum": d(num(5, 30))}}
    fo = {"investment": {"ep_costs": d(num(0, 3, 0.5)),
                         "lifetime": lifetime(s, 20)}}
    if r in (1, 4) and invest:
        kw["invest_relation_input_capacity"] = per_period(
            s, num0(0.25, 2, 0.25))
        fin = fi
    if r in (2, 4) and invest:
        kw["invest_relation_output_capacity"] = per_period(
            s, num0(0.25, 2, 0.25))
        fout = fo
    if r == 3:
        kw["invest_relation_input_output"] = per_period(s, num0(0.25, 2, 0.25))
        fin, fout = fi, fo
    b = d(st.sampled_from(buses))
    return s.add("storage", ins={b: fin}, outs={b: fout}, kw=kw, **x)


def multi_storage_system(draw):
    s = Sys(draw, draw(time_multi(4, 3)))
    s.time["dr"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.07]))
    b = s.bus()
    multi_storage(s, [b])
    if maybe(draw, 3):
        put(s, [b], multi_flow(s))
    finish(s, [b])
    return s.spec()


ModelProp(
    "multi-storage",
    multi_storage_system,
    "feasible (every system has periods and a storage)",
    multi_labels,
    quick=400,
)


# ------------------------------------------------------------ limits
def multi_limit_system(draw):
    s = Sys(draw, draw(time_multi()))
    b = s.bus()
    for _ in range(draw(st.integers(1, 2))):
        f = {
            "investment": multi_investment(s),
            "variable_costs": s.series(num(-30, 0, 0.5)),
        }
        if maybe(draw, 2):
            f["investment"]["custom_properties"] = {
                "space": draw(num(0, 4, 0.5))
            }
        put(s, [b], f)
    if maybe(draw, 3):
        multi_storage(s, [b])
    kind = draw(st.integers(0, 2))
    if kind == 0:
        s.constraints.append(
            {"c": "investment_limit", "limit": draw(num(0, 200, 5))}
        )
    elif kind == 1:
        s.constraints.append(
            {
                "c": "investment_limit_per_period",
                "limit": [
                    draw(num(0, 100, 5)) for _ in s.time["periods"]
                ],
            }
        )
    else:
        s.constraints.append(
            {
                "c": "additional_investment_flow_limit",
                "keyword": "space",
                "limit": draw(num(0, 30, 1)),
            }
        )
    finish(s, [b])
    return s.spec()
