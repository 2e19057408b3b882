"""Investment into flows (one period) and limits of investments."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, num0, some, time_plain
from .base import ModelProp, all_flows
from .storage import investment, place_storage, storage_kw


def invest_f(s, top=12, bidir=True):
    d = s.draw
    f = {"investment": investment(s, top)}
    kind = d(st.integers(0, 4))
    if kind == 1:
        f["fix"] = s.series(num(0, 1, 0.25))
    elif kind >= 2:
        if maybe(d, 2):
            f["maximum"] = s.series(num0(0.5, 1.5, 0.25))
        if maybe(d, 2):
            f["minimum"] = s.series(
                num(-1 if bidir and maybe(d, 2) else 0, 0.5, 0.25)
            )
    if maybe(d, 2):
        f["variable_costs"] = s.series(num(-3, 6, 0.5))
    return f


def put(s, buses, f):
    d = s.draw
    b = d(st.sampled_from(buses))
    k = d(st.integers(0, 2))
    if k == 2 and len(buses) > 1:
        a = [x for x in buses if x != b][0]
        n = s.add("conv", ins={a: {}}, outs={b: f},
                  cf={b: s.series(num(0.25, 1, 0.25))})
        return n, b
    if k == 1:
        n = s.add("sink", ins={b: f})
        return b, n
    n = s.add("source", outs={b: f})
    return n, b


def invest_flow_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 3))):
        put(s, buses, invest_f(s))
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


def invest_labels(spec):
    for i, o, f in all_flows(spec):
        if "investment" in f:
            for k in f["investment"]:
                yield k
            for k in ("fix", "minimum", "maximum"):
                if k in f:
                    yield "flow " + k


ModelProp(
    "invest-flow",
    invest_flow_system,
    "feasible (every system has a flow with invested capacity)",
    invest_labels,
)


# ------------------------------------------------------------ limits
def invest_limit_system(draw):
    s = Sys(draw, draw(time_plain(1, 3)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    kind = draw(st.integers(0, 2))
    flows = some(draw, 0 if kind == 0 else 1, 3, 7)
    for _ in range(flows):
        f = invest_f(s)
        if maybe(draw, 4):
            f = {
                "investment": {
                    "maximum": draw(num(4, 12, 0.5)),
                    "ep_costs": draw(num(0, 6, 0.25)),
                },
                "minimum": s.series(num(0, 0.75, 0.25)),
                "nonconvex": {},
            }
            if maybe(draw, 2):
                f["investment"]["nonconvex"] = True
                f["investment"]["offset"] = draw(num(0, 10, 0.5))
        if maybe(draw, 2):
            # worth it
            f["variable_costs"] = s.series(num(-8, -2, 0.5))
        if kind and maybe(draw, 4, ) is False:
            f["investment"]["custom_properties"] = {
                "space": draw(num(0, 4, 0.5))
            }
            if maybe(draw, 3):
                f["investment"]["custom_properties"] = {
                    "other": draw(num(1, 4, 0.5))
                }
            elif maybe(draw, 3):
                f["investment"]["custom_properties"]["other"] = draw(
                    num(1, 4, 0.5)
                )
        put(s, buses, f)
    if not flows or maybe(draw, 2):
        place_storage(
            s, buses, storage_kw(s, capacity=False, absolute=False),
            investment(s, 12),
        )
    if kind != 1:
        s.constraints.append(
            {"c": "investment_limit", "limit": draw(num(0, 60, 2.5))}
        )
    if kind:
        for keyword in ["space", "other"][: draw(st.integers(1, 2))]:
            s.constraints.append(
                {
                    "c": "additional_investment_flow_limit",
                    "keyword": keyword,
                    "limit": draw(num(0, 30, 1)),
                }
            )
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


def invest_limit_make(draw):
    if maybe(draw, 4):
        from .multi import multi_limit_system

        return multi_limit_system(draw)
    return invest_limit_system(draw)


ModelProp(
    "invest-limits",
    invest_limit_make,
    "feasible (every system limits the investments)",
    lambda s: [c["c"] for c in s["constraints"]]
    + [
        "nonconvex"
        for _, _, f in all_flows(s)
        if "investment" in f and "nonconvex" in f
    ][:1]
    + (
        []
        if any("investment" in f for _, _, f in all_flows(s))
        else ["storages only"]
    ),
)
