"""Limits on integrals of flows and equality of flows or capacities."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, num0, simple_flow, some, time_multi, time_plain
from .base import ModelProp
from .invest import put


def keyed(s, keyword, positive=False):
    d = s.draw
    f = simple_flow(s)
    f.pop("fix", None)
    if maybe(d, 4):
        return f
    lo = 0 if positive or not maybe(d, 4) else -2
    value = s.series(num(lo, 4, 0.25))
    f["custom_properties"] = {keyword: value}
    if maybe(d, 4):
        f["custom_properties"]["unrelated"] = 7
    return f


KEYWORDS = ("emission_factor", "my_factor", "co2")


def integral_limit(s, multi, pairs, number):
    """a limit on an integral; each has its own name or keyword"""
    draw = s.draw
    kw = draw(st.sampled_from(KEYWORDS))
    P = len(s.time.get("periods", [0]))
    limits = [draw(num(0, 20, 2.5)) for _ in range(P)]
    per_period = multi and maybe(draw, 2)
    if per_period and kw == "emission_factor" and maybe(draw, 2):
        return {"c": "emission_limit_per_period", "limit": limits}
    if per_period:
        c = {"c": "generic_periodical_integral_limit", "keyword": kw,
             "limit": limits}
        if maybe(draw, 3) and pairs[kw]:
            c["flows"] = pairs[kw][: draw(st.integers(1, len(pairs[kw])))]
        return c
    if kw == "emission_factor" and maybe(draw, 2):
        c = {"c": "emission_limit", "limit": draw(num(0, 40, 2.5))}
        if maybe(draw, 4) and pairs[kw]:
            c["flows"] = pairs[kw][:1]
        return c
    c = {"c": "generic_integral_limit", "keyword": kw}
    which = draw(st.integers(0, 2))
    if which != 1:
        c["upper_limit"] = draw(num(0, 40, 2.5))
    if which != 0:
        c["lower_limit"] = draw(num(0, 10, 1))
    if maybe(draw, 3) and pairs[kw]:
        c["flows"] = pairs[kw][: draw(st.integers(1, len(pairs[kw])))]
    if number or maybe(draw, 2):
        c["limit_name"] = f"limit_{number}"
    return c


def integral_system(draw):
    multi = maybe(draw, 2)
    if Sys.forced is not None:
        multi = "periods" in Sys.forced
    s = Sys(draw, draw(time_multi(3, 3) if multi else time_plain(1, 5)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    pairs = {k: [] for k in KEYWORDS}
    used = KEYWORDS[: draw(st.integers(1, 3))]
    for n in range(some(draw, 1, 4, 8)):
        f = keyed(s, draw(st.sampled_from(used)))
        if n == 0 and "custom_properties" not in f:
            f["custom_properties"] = {used[0]: draw(num0(1, 4, 0.5))}
        if maybe(draw, 3):
            f.setdefault("custom_properties", {})[
                draw(st.sampled_from(used))
            ] = draw(num(0, 3, 0.5))
        if multi:
            f.pop("minimum", None)
        p = put(s, buses, f)
        for k in f.get("custom_properties", {}):
            if k in pairs:
                pairs[k].append(list(p))
    seen = set()
    for n in range(draw(st.sampled_from([1, 1, 2, 3]))):
        c = integral_limit(s, multi, pairs, n)
        key = (
            "per period" in c["c"].replace("_", " ") or "periodical" in c["c"],
            c.get("keyword", "emission_factor"),
        )
        if "limit_name" not in c:
            # a second one would have the same name
            if key in seen:
                continue
            seen.add(key)
        if not pairs[key[1]] and len(s.constraints):
            continue
        s.constraints.append(c)
    k = s.constraints[0].get("keyword", "emission_factor")
    if not pairs[k]:
        f = {"custom_properties": {k: draw(num0(1, 4, 0.5))},
             "nominal_capacity": 5}
        put(s, buses, f)
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


def integral_labels(spec):
    cs = spec["constraints"]
    if len(cs) > 1:
        yield "several limits"
    for c in cs:
        yield c["c"]
        for k in ("upper_limit", "lower_limit", "flows", "limit_name"):
            if k in c:
                yield k
    if len(set(spec["time"]["inc"])) > 1:
        yield "uneven steps"
    if spec["time"].get("weights"):
        yield "weights"


ModelProp(
    "integral-limits",
    integral_system,
    "feasible (every system limits an integral of flows)",
    integral_labels,
)


# ------------------------------------------------------------ equate
def named(s):
    return {"name": "my_equation"} if maybe(s.draw, 3) else {}


def equate_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    kind = draw(st.integers(0, 2))
    factor = {"factor": draw(num0(0.25, 3, 0.25))}
    if maybe(draw, 6):
        factor = {}
    elif maybe(draw, 10) and kind < 2:
        # (flows in both directions, or none)
        factor["factor"] *= -1
    if kind == 2:
        pairs = []
        for _ in range(draw(st.integers(2, 3))):
            f = {
                "investment": {
                    "ep_costs": draw(num(0, 4, 0.5)),
                    "maximum": draw(num(4, 12, 1)),
                }
            }
            if maybe(draw, 2):
                f["variable_costs"] = s.series(num(-6, 2, 0.5))
            pairs.append(list(put(s, buses, f)))
        s.constraints.append(
            {"c": "equate_invest", "f1": pairs[0], "f2": pairs[1],
             **factor, **named(s)}
        )
        if len(pairs) > 2 and maybe(draw, 2):
            s.constraints.append(
                {"c": "equate_invest", "f1": pairs[2], "f2": pairs[0],
                 "factor": draw(num0(0.25, 3, 0.25))}
            )
    else:
        f1, f2 = [], []
        for k in range(draw(st.integers(2, 5))):
            f = {"nominal_capacity": draw(num(2, 12, 0.5))}
            if maybe(draw, 2):
                f["variable_costs"] = s.series(num(-6, 4, 0.5))
            if maybe(draw, 4):
                f["maximum"] = s.series(num(0.25, 1, 0.25))
            side = k if k < 2 else draw(st.integers(0, 2))
            if kind == 1 and side < 2:
                f["custom_properties"] = {f"g{side}": True}
                if side == 1 and maybe(draw, 4):
                    f["custom_properties"]["other"] = 1
            both = k > 1 and side < 2 and maybe(draw, 6)
            if both and kind == 1:
                f["custom_properties"][f"g{1 - side}"] = True
            p = list(put(s, buses, f))
            if both:
                # counts on both sides
                (f2 if side == 0 else f1).append(p)
            if side == 0:
                f1.append(p)
            elif side == 1:
                f2.append(p)
        if kind == 0:
            s.constraints.append(
                {"c": "equate_flows", "f1": f1, "f2": f2, **factor,
                 **named(s)}
            )
        else:
            s.constraints.append(
                {"c": "equate_flows_by_keyword", "k1": "g0", "k2": "g1",
                 **factor, **named(s)}
            )
        if maybe(draw, 3):
            # another one needs another name
            every = draw(st.permutations(f1 + f2))
            s.constraints.append(
                {"c": "equate_flows", "f1": every[:1], "f2": every[1:2],
                 "factor": draw(num0(0.25, 2, 0.25)), "name": "second"}
            )
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "equate",
    equate_system,
    "feasible (every system has equated flows or capacities)",
    lambda s: [c["c"] for c in s["constraints"]]
    + ["several"] * (len(s["constraints"]) > 1),
)
