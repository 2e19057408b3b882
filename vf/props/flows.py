"""Flow-level properties: bus balance, bounds, energy, gradients, costs."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, simple_flow, time_plain, some
from .base import ModelProp, all_flows


def attach(s, bus, f):
    """put flow f at bus as a source or a sink"""
    if maybe(s.draw, 2):
        return s.add("source", outs={bus: f})
    return s.add("sink", ins={bus: f})


# ------------------------------------------------------------ bus balance
def bus_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    nb = draw(st.integers(1, 3))
    buses = [s.bus(balanced=not maybe(draw, 5)) for _ in range(nb)]
    for b in buses:
        for _ in range(some(draw, 0, 2, 9)):
            s.add("source", outs={b: simple_flow(s)})
        for _ in range(some(draw, 0, 2, 9)):
            s.add("sink", ins={b: simple_flow(s)})
        if maybe(draw, 2):
            s.bounded_slack(b)
    for _ in range(draw(st.integers(0, 2)) if nb > 1 else 0):
        a, c = draw(st.permutations(buses))[:2]
        s.add(
            "conv",
            ins={a: simple_flow(s, bidir=False)},
            outs={c: simple_flow(s, nominal=False)},
            cf={c: s.series(num(0.25, 1, 0.25))},
        )
    if maybe(draw, 3):
        # takes from and delivers to the same bus
        s.add(
            "storage",
            ins={buses[0]: simple_flow(s, bidir=False)},
            outs={buses[0]: simple_flow(s, bidir=False)},
            kw={"balanced": False,
                "nominal_capacity": 20,
                "inflow_conversion_factor": draw(num(0.5, 1, 0.25))},
        )
    return s.spec()


def bus_labels(spec):
    if any(not n.get("balanced", True) for n in spec["nodes"]):
        yield "unbalanced bus"
    deg = {}
    for i, o, f in all_flows(spec):
        deg.setdefault(i, [0, 0])[1] += 1
        deg.setdefault(o, [0, 0])[0] += 1
    for n in spec["nodes"]:
        if n["k"] == "bus":
            d = deg.get(n["n"], [0, 0])
            if sum(d) >= 3:
                yield "bus with three flows"
            if 0 in d:
                yield "bus without inputs or outputs"


ModelProp(
    "bus-balance",
    bus_system,
    "feasible and at least one bus joins three or more flows",
    bus_labels,
    lambda s: "bus with three flows" in set(bus_labels(s)),
)


# ------------------------------------------------------------ flow bounds
def bound_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    b = s.bus()
    for _ in range(draw(st.integers(1, 3))):
        f = simple_flow(s, nominal=True)
        if maybe(draw, 8) and "fix" not in f and "nominal_capacity" in f:
            # the capacity just scales the limits
            f["nominal_capacity"] = draw(num(0.5, 2, 0.5))
            f["maximum"] = s.series(num(3, 8, 0.5))
            f["minimum"] = s.series(num(0, 3, 0.5))
        if maybe(draw, 4) and "nominal_capacity" in f:
            # the deprecated spellings are still accepted
            f["nominal_value"] = f.pop("nominal_capacity")
            if "minimum" in f and not isinstance(f["minimum"], dict):
                f["min"] = f.pop("minimum")
            if "maximum" in f and not isinstance(f["maximum"], dict):
                f["max"] = f.pop("maximum")
        attach(s, b, f)
    s.bounded_slack(b, 40)
    return s.spec()


def bound_labels(spec):
    for i, o, f in all_flows(spec):
        for k in ("fix", "minimum", "maximum", "min", "max",
                  "bidirectional"):
            if k in f:
                yield k


ModelProp(
    "flow-bounds",
    bound_system,
    "feasible with a flow that has fix, minimum or maximum",
    bound_labels,
    lambda s: bool(set(bound_labels(s))),
)


# ------------------------------------------------------------ full load time
def flh_system(draw):
    s = Sys(draw, draw(time_plain(1, 5)))
    b = s.bus()
    hours = sum(s.time["inc"])
    for _ in range(draw(st.integers(1, 2))):
        f = {"nominal_capacity": draw(num(1, 10, 0.5))}
        if maybe(draw, 3):
            f["nominal_capacity"] = draw(num(1, 10, 0.5))
        if maybe(draw, 3):
            del f["nominal_capacity"]
            f["investment"] = {"ep_costs": draw(num(0, 5, 0.5)),
                               "maximum": 10}
        if maybe(draw, 4):
            f["minimum"] = s.series(num(-1, 0.5, 0.25))
        which = draw(st.integers(0, 2))
        scale = 1
        if maybe(draw, 4):
            # the capacity just scales the limits
            scale = 3
            f["maximum"] = s.series(num(2, 4, 0.5))
        if which in (0, 2):
            f["full_load_time_max"] = draw(num(0, 1, 0.125)) * hours * scale
        if which in (1, 2):
            f["full_load_time_min"] = (
                draw(num(0, 0.75, 0.125)) * hours * scale * 0.75
            )
        if maybe(draw, 2):
            f["variable_costs"] = s.series(num(-3, 5, 0.5))
        if f.get("investment") is None and maybe(draw, 4):
            f["nonconvex"] = {}
            f.pop("minimum", None)
        attach(s, b, f)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


def flh_labels(spec):
    for i, o, f in all_flows(spec):
        for k in ("full_load_time_max", "full_load_time_min"):
            if k in f:
                yield k + (" invest" if "investment" in f else "")
                if "nonconvex" in f:
                    yield "nonconvex"
    if len(set(spec["time"]["inc"])) > 1:
        yield "uneven steps"


ModelProp(
    "full-load-time",
    flh_system,
    "feasible with a full load time limit",
    flh_labels,
)


# ------------------------------------------------------------ gradients
def gradient_system(draw):
    s = Sys(draw, draw(time_plain(2, 5)))
    b = s.bus()
    for _ in range(draw(st.integers(1, 2))):
        f = {"nominal_capacity": draw(num(1, 10, 0.5))}
        if maybe(draw, 3):
            f["minimum"] = s.series(num(-1, 0.25, 0.25))
        if maybe(draw, 3):
            f["maximum"] = s.series(num(0.5, 1, 0.25))
        lim = {}
        which = draw(st.integers(0, 2))
        if which in (0, 2):
            lim["positive_gradient_limit"] = s.series(num(0, 1, 0.125))
        if which in (1, 2):
            lim["negative_gradient_limit"] = s.series(num(0, 1, 0.125))
        kind = draw(st.integers(0, 3))
        if kind == 2:
            f.pop("nominal_capacity")
            f["investment"] = {"maximum": 10, "ep_costs": 1}
            if not min_ge_0(f):
                f.pop("minimum")
        if kind >= 2 and min_ge_0(f):
            # gradient limits of an investment need the nonconvex flow
            f["nonconvex"] = lim
            lim = {}
        f.update(lim)
        if maybe(draw, 2):
            f["variable_costs"] = s.series(num(-3, 5, 0.5))
        attach(s, b, f)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


def min_ge_0(f):
    from ..ref import vals

    return min([0] + vals(f.get("minimum"))) >= 0


def gradient_labels(spec):
    for i, o, f in all_flows(spec):
        nc = f.get("nonconvex") or {}
        for k in ("positive_gradient_limit", "negative_gradient_limit"):
            if k in f:
                yield k + (" invest" if "investment" in f else "")
            if k in nc:
                yield k + " nonconvex"


ModelProp(
    "flow-gradients",
    gradient_system,
    "feasible with a gradient limit",
    gradient_labels,
)


# ------------------------------------------------------------ integer flows
def integer_system(draw):
    s = Sys(draw, draw(time_plain(1, 3)))
    b = s.bus()
    for _ in range(draw(st.integers(1, 3))):
        f = {"integer": True}
        if maybe(draw, 6):
            f["nominal_capacity"] = 1
            f["fix"] = s.series(
                num(0, 4, 1 if maybe(draw, 2) else 0.5))
        elif maybe(draw, 2):
            f["nominal_capacity"] = draw(num(1, 8, 0.25))
            if maybe(draw, 2):
                f["minimum"] = s.series(num(0, 0.5, 0.25))
            if maybe(draw, 4):
                f["nonconvex"] = {}
        f["variable_costs"] = s.series(num(0, 5, 0.5))
        attach(s, b, f)
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "integer-flows",
    integer_system,
    "feasible with a flow restricted to integers",
    lambda s: ["with bounds"]
    if any("integer" in f and len(f) > 2 for _, _, f in all_flows(s))
    else [],
)


# ------------------------------------------------------------ variable costs
def cost_system(draw):
    s = Sys(draw, draw(time_plain(1, 5)))
    if maybe(draw, 2):
        s.time["weights"] = draw(
            st.lists(num(0, 5, 0.5), min_size=s.T, max_size=s.T)
        )
    nb = draw(st.integers(1, 2))
    buses = [s.bus() for _ in range(nb)]
    for b in buses:
        for _ in range(draw(st.integers(1, 2))):
            f = simple_flow(s, costs=False)
            if f.get("nominal_capacity") is None and not maybe(draw, 4):
                f["variable_costs"] = s.series(num(0.5, 8, 0.5))
            else:
                f["variable_costs"] = s.series(num(-4, 8, 0.5))
            if maybe(draw, 6):
                f["fixed_costs"] = draw(num(1, 5))
            attach(s, b, f)
        s.bounded_slack(b, 30)
    if nb == 2:
        s.add(
            "conv",
            ins={buses[0]: {"variable_costs": s.series(num(0, 4, 0.5))}},
            outs={buses[1]: {"variable_costs": s.series(num(0, 4, 0.5))}},
            cf={buses[1]: s.series(num(0.25, 1, 0.25))},
        )
    return s.spec()


ModelProp(
    "variable-costs",
    cost_system,
    "feasible (every generated system has flows with variable costs)",
    lambda s: (["weights"] if s["time"].get("weights") else [])
    + (["uneven"] if len(set(s["time"]["inc"])) > 1 else []),
)
