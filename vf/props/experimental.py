"""Experimental components: piecewise linear converter, compressed air
energy storage."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, time_plain
from .base import ModelProp
from .convert import prefill, side_flow

# Not "BIGM_BIN": with it, pyomo itself gives wrong values of functions with
# several segments of the same slope.
REPN = ["CC", "DCC", "MC", "INC", "DLOG", "LOG"]


def pwl_node(s, buses, repn):
    d = s.draw
    a, b = d(st.permutations(buses))[:2]
    n = 4 if maybe(d, 3) else d(st.integers(1, 4))
    if repn in ("DLOG", "LOG"):
        n = d(st.sampled_from([2, 4]))
    x = [d(st.sampled_from([0, 0, 0, 1, 2.5]))]
    y = [d(st.sampled_from([0, 0, 1, 3]))]
    shape = d(st.sampled_from(["any", "any", "up", "down"]))
    for _ in range(n):
        x.append(x[-1] + d(num(0.5, 4, 0.5)))
        k = d(num(0, 5, 0.5))
        if shape == "up":
            k = y[-1] + k
        y.append(k)
    if shape == "down":
        y = sorted(y, reverse=True)
    cap = x[-1] - d(st.sampled_from([0, 0, 0, 0.5]))
    fin = {"nominal_capacity": cap}
    if maybe(d, 3):
        fin["variable_costs"] = s.series(num(-2, 6, 0.5))
    s.add("pwl", ins={a: fin}, outs={b: side_flow(s)}, x=x, y=y, repn=repn)


def caes_node(s, el, other, fuel):
    d = s.draw
    q = {
        "cmp_p_max_m": d(num(0, 0.5, 0.125)),
        "cmp_p_max_b": d(num(4, 12, 1)),
        "cmp_p_min": d(num(0, 4, 1)),
        "cmp_q_out_m": d(num(0, 1.5, 0.25)),
        "cmp_q_out_b": d(num(-2, 2, 0.5)),
        "cmp_q_tes_share": d(st.sampled_from([0, 0.25, 0.5, 0.75, 1])),
        "exp_p_max_m": d(num(0, 0.5, 0.125)),
        "exp_p_max_b": d(num(0, 12, 1)),
        "exp_p_min": d(num(0, 4, 1)),
        "exp_q_in_m": d(num(0.5, 1.5, 0.25)),
        "exp_q_in_b": d(num(-2, 2, 0.5)),
        "exp_q_tes_share": d(st.sampled_from([0, 0.25, 0.5, 0.75, 1])),
        "cav_e_in_m": d(num(0.25, 1, 0.125)),
        "cav_e_in_b": d(st.sampled_from([0, 0, 0.5, -0.5, 1])),
        "cav_e_out_m": d(num(0.25, 1, 0.125)),
        "cav_e_out_b": d(st.sampled_from([0, 0, 0.5, -0.5, 1])),
        "cav_eta_temp": d(st.sampled_from([1, 1, 1.25, 0.75])),
        "cav_level_max": d(num(5, 40, 5)),
        "tes_level_max": d(num(0, 20, 5)),
    }
    ins = {el: side_flow(s, 4), fuel: side_flow(s, 4)}
    s.add("caes", ins=ins, outs={other: side_flow(s, 4)}, el_in=el,
          fuel=fuel, params=q)


def system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = prefill(s, 3)
    kind = draw(st.sampled_from(["pwl", "pwl", "caes"]))
    if kind == "pwl":
        repn = draw(st.sampled_from(REPN))
        for _ in range(draw(st.integers(1, 2))):
            pwl_node(s, buses, repn)
    else:
        el, fuel, third = buses
        for _ in range(1 if maybe(draw, 2) else 2):
            caes_node(s, el, el if maybe(draw, 2) else third, fuel)
    if maybe(draw, 2):
        s.demand(buses[0])
    return s.spec()


def labels(spec):
    for n in spec["nodes"]:
        if n["k"] == "pwl":
            yield "pwl " + n["repn"]
            y = n["y"]
            if y != sorted(y) and y != sorted(y, reverse=True):
                yield "pwl neither rising nor falling"
        if n["k"] == "caes":
            yield "caes"
            if n["params"]["cav_e_in_b"] or n["params"]["cav_e_out_b"]:
                yield "caes with constant exergy flows"


ModelProp(
    "experimental",
    system,
    "feasible (every system has a piecewise linear converter or a "
    "compressed air energy storage)",
    labels,
)
