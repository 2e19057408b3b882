"""Components that convert flows."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, simple_flow, time_plain
from .base import ModelProp


def side_flow(s, nominal=2):
    """flow at a converter: mostly free, sometimes bounded, with costs"""
    d = s.draw
    f = {}
    if maybe(d, nominal):
        f["nominal_capacity"] = d(num(2, 12, 0.5))
        if maybe(d, 3):
            f["maximum"] = s.series(num(0.5, 1, 0.25))
        if maybe(d, 4):
            f["minimum"] = s.series(num(0, 0.25, 0.125))
    if maybe(d, 2):
        f["variable_costs"] = s.series(num(-2, 6, 0.5))
    return f


def prefill(s, n, slack_cost=True):
    out = []
    for _ in range(n):
        b = s.bus()
        s.bounded_slack(b, 30)
        out.append(b)
    return out


# ------------------------------------------------------------ converter
def converter_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    nb = draw(st.integers(2, 5))
    buses = prefill(s, nb)
    for _ in range(draw(st.integers(1, 2))):
        perm = draw(st.permutations(buses))
        ni = draw(st.integers(1, nb - 1))
        no = draw(st.integers(1, nb - ni))
        ins = {b: side_flow(s) for b in perm[:ni]}
        outs = {b: side_flow(s) for b in perm[ni: ni + no]}
        cf = {}
        for b in list(ins) + list(outs):
            if maybe(draw, 3):
                continue
            cf[b] = s.series(num(0.25, 3, 0.25))
            if maybe(draw, 5):
                cf[b] = s.series(num(0, 1, 0.5))
        s.add("conv", ins=ins, outs=outs, cf=cf or None)
    if maybe(draw, 2):
        s.demand(buses[0])
    return s.spec()


def converter_labels(spec):
    for n in spec["nodes"]:
        if n["k"] == "conv":
            yield f"{len(n['in'])} in, {len(n['out'])} out"
            if n.get("cf") and any(
                not isinstance(v, (int, float)) for v in n["cf"].values()
            ):
                yield "conversion factor series"


ModelProp(
    "converter",
    converter_system,
    "feasible (every system has a converter)",
    converter_labels,
)


# ------------------------------------------------------------ link
def link_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    a, b = prefill(s, 2)
    third = prefill(s, 1)[0] if maybe(draw, 4) else None
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.integers(0, 4))
        if kind == 4 and third:
            pairs = [(a, b), (b, third), (third, a)]
        elif kind == 3:
            pairs = [(a, b)]
        else:
            pairs = [(a, b), (b, a)]
        ins = {x: side_flow(s) for x in dict.fromkeys(p[0] for p in pairs)}
        outs = {x: side_flow(s) for x in dict.fromkeys(p[1] for p in pairs)}
        if maybe(draw, 8):
            # not every flow, or none at all, is subject to a factor
            pairs = pairs[1:]
        s.add(
            "link",
            ins=ins,
            outs=outs,
            cf=[[x, y, s.series(num(0.25, 1, 0.125))] for x, y in pairs],
        )
    if maybe(draw, 2):
        s.demand(a)
    if maybe(draw, 2):
        s.demand(b)
    return s.spec()


ModelProp(
    "link",
    link_system,
    "feasible (every system has a link)",
    lambda s: [
        f"{len(n['cf'])} directions" for n in s["nodes"] if n["k"] == "link"
    ],
)


# ------------------------------------------------------------ extraction CHP
def chp_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    gas, el, heat = prefill(s, 3)
    for _ in range(draw(st.integers(1, 2))):
        fuel = side_flow(s)
        if maybe(draw, 2):
            fuel["nominal_capacity"] = draw(num(5, 20, 0.5))
        flows = [(el, side_flow(s, 4)), (heat, side_flow(s, 4))]
        if maybe(draw, 2):
            flows.reverse()
        cf = {
            el: s.series(num(0.125, 0.5, 0.125)),
            heat: s.series(num(0.125, 0.75, 0.125)),
        }
        if maybe(draw, 2):
            cf = dict(reversed(cf.items()))
        main = el if not maybe(draw, 4) else heat
        # sometimes beneath the back pressure efficiency: no loss at all
        cfc = {main: s.series(num(0.5, 0.875, 0.125))}
        s.add("etchp", ins={gas: fuel}, outs=dict(flows), cf=cf, cfc=cfc)
    if maybe(draw, 2):
        s.demand(heat)
    return s.spec()


ModelProp(
    "extraction-chp",
    chp_system,
    "feasible (every system has an extraction turbine)",
)


# ------------------------------------------------------------ generic CHP
def gchp_system(draw):
    s = Sys(draw, draw(time_plain(1, 3)))
    gas, el, heat = prefill(s, 3)
    s.nodes = [n for n in s.nodes if not n["n"].startswith("so")]
    for b in (gas, el, heat):
        # enough fuel for the units
        s.add(
            "source",
            outs={b: {"nominal_capacity": 400,
                      "variable_costs": draw(num(4, 20, 1))}},
        )
        s.add(
            "sink",
            ins={b: {"nominal_capacity": 400,
                     "variable_costs": draw(num(-18, 3, 1))}},
        )
    n = s.T

    def lst(lo, hi, step):
        if maybe(draw, 2):
            return [draw(num(lo, hi, step))] * n
        return draw(st.lists(num(lo, hi, step), min_size=n, max_size=n))

    for _ in range(draw(st.integers(1, 2))):
        fuel = side_flow(s, 10)
        fuel["custom_properties"] = {"H_L_FG_share_max": lst(0.05, 0.4, 0.05)}
        if maybe(draw, 3):
            # at least the losses at maximum heat extraction
            fuel["custom_properties"]["H_L_FG_share_min"] = [
                x + 0.15 for x in fuel["custom_properties"]["H_L_FG_share_max"]
            ]
        fel = side_flow(s, 10)
        fel.pop("minimum", None)
        fel["custom_properties"] = {
            "P_max_woDH": lst(60, 100, 5),
            "P_min_woDH": lst(20, 50, 5),
            "Eta_el_max_woDH": lst(0.45, 0.55, 0.025),
            "Eta_el_min_woDH": lst(0.35, 0.45, 0.025),
        }
        fh = side_flow(s, 10)
        fh.pop("minimum", None)
        fh["custom_properties"] = {"Q_CW_min": lst(0, 10, 2)}
        for f in (fuel, fel, fh):
            if "nominal_capacity" in f:
                f["nominal_capacity"] *= 20
                f.pop("minimum", None)
        bp = maybe(draw, 3)
        s.add(
            "gchp",
            ins={gas: fuel},
            outs={el: fel, heat: fh},
            el=el,
            heat=heat,
            beta=lst(0, 0.5, 0.125),
            back_pressure=bp,
        )
    return s.spec()


ModelProp(
    "generic-chp",
    gchp_system,
    "feasible (every system has a generic CHP)",
    lambda s: [
        "back pressure" if n["back_pressure"] else "extraction"
        for n in s["nodes"]
        if n["k"] == "gchp"
    ]
    + [
        "minimum flue gas losses"
        for n in s["nodes"]
        if n["k"] == "gchp"
        and "H_L_FG_share_min"
        in list(n["in"].values())[0]["custom_properties"]
    ],
    quick=320,
)


# ------------------------------------------------------------ offset converter
def offset_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = prefill(s, 4)
    for _ in range(draw(st.integers(1, 2))):
        perm = draw(st.permutations(buses))
        ni, no = draw(st.sampled_from([(1, 1), (1, 1), (1, 2), (2, 1), (1, 3)]))
        ins, outs = perm[:ni], perm[ni: ni + no]
        at_input = maybe(draw, 2)
        ref = {
            "nominal_capacity": draw(num(2, 10, 0.5)),
            "nonconvex": {},
            "maximum": 1,
            "minimum": s.series(num(0.25, 0.75, 0.25)),
        }
        if maybe(draw, 3):
            ref["maximum"] = s.series(num(0.75, 1, 0.125))
        if maybe(draw, 4):
            ref["nonconvex"]["startup_costs"] = draw(num(0, 4, 0.5))
        if maybe(draw, 3):
            del ref["nominal_capacity"]
            ref["investment"] = {
                "maximum": draw(num(3, 8, 0.5)),
                "ep_costs": draw(num(0, 4, 0.5)),
            }
        if maybe(draw, 2):
            ref["variable_costs"] = s.series(num(-6, 4, 0.5))
        kin = {b: side_flow(s, 5) for b in ins}
        kout = {b: side_flow(s, 5) for b in outs}
        for f in list(kin.values()) + list(kout.values()):
            f.pop("minimum", None)
            if maybe(draw, 2):
                f["variable_costs"] = s.series(num(-6, 4, 0.5))
        rbus = ins[0] if at_input else outs[0]
        (kin if at_input else kout)[rbus] = ref
        if ni == 1 and no == 1 and not at_input and not maybe(draw, 3):
            # deprecated: output = c0 * nominal * status + c1 * input
            ref["minimum"] = s.series(num(0.25, 0.5, 0.25))
            ref["maximum"] = s.series(num(0.75, 1, 0.25))
            coefficients = [
                s.series(num(-1, 0.125, 0.125), reps=False),
                s.series(num(0.25, 1, 0.25), reps=False),
            ]
            if maybe(draw, 2):
                # only one of the four is a series
                k = draw(st.integers(0, 3))
                for i, key in enumerate(("minimum", "maximum")):
                    if i != k:
                        ref[key] = (0.25, 0.75)[i]
                    else:
                        ref[key] = s.series(num((0.25, 0.75)[i],
                                                (0.5, 1)[i], 0.25),
                                            scalar=False)
                for i in range(2):
                    if i + 2 != k:
                        coefficients[i] = draw(
                            num((-1, 0.25)[i], (0.125, 1)[i], 0.125))
            s.add("offset", ins=kin, outs=kout, coefficients=coefficients)
            continue
        cf, offs = {}, {}
        for b in ins + outs:
            if b == rbus:
                continue
            if not maybe(draw, 4):
                cf[b] = s.series(num(0.25, 3, 0.25))
            if not maybe(draw, 4):
                # positive at full load, and at minimum load, too
                offs[b] = s.series(num(-0.0625, 1, 0.0625))
        s.add("offset", ins=kin, outs=kout, cf=cf or None, no=offs or None)
    return s.spec()


def offset_labels(spec):
    for n in spec["nodes"]:
        if n["k"] == "offset":
            if n.get("coefficients"):
                yield "deprecated coefficients"
            for side in ("in", "out"):
                for f in n[side].values():
                    if "nonconvex" in f:
                        yield "reference at " + side + "put"
                        if "investment" in f:
                            yield "invest"


ModelProp(
    "offset-converter",
    offset_system,
    "feasible (every system has an offset converter)",
    offset_labels,
    quick=400,
)
_ = simple_flow
