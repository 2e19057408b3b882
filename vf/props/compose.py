"""Systems composed of several generated parts."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, rename, time_multi, time_plain
from . import (
    commit,
    convert,
    experimental,
    flows,
    invest,
    limits,
    multi,
    storage,
    tsam,
)
from .base import ModelProp, all_flows

DISPATCH = [
    flows.bus_system,
    flows.bound_system,
    flows.flh_system,
    flows.cost_system,
    flows.integer_system,
    flows.gradient_system,
    commit.status_system,
    commit.starts_system,
    commit.times_system,
    commit.count_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    convert.gchp_system,
    convert.offset_system,
    storage.dispatch_system,
    storage.soc_system,
    storage.shared_system,
    storage.level_system,
    limits.integral_system,
    limits.equate_system,
    experimental.system,
]
INVEST = [
    invest.invest_flow_system,
    invest.invest_limit_system,
    storage.storage_invest_system,
    commit.invest_nc_system,
]
# converters that know nothing of time
MULTI_DISPATCH = [
    flows.bound_system,
    flows.cost_system,
    commit.status_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    limits.integral_system,
]
MULTI = [
    multi.multi_system,
    multi.multi_cost_system,
    multi.multi_storage_system,
    multi.multi_limit_system,
]
TSAM_DISPATCH = [
    flows.bound_system,
    flows.cost_system,
    convert.converter_system,
    convert.link_system,
    convert.chp_system,
    commit.status_system,
    commit.count_system,
    limits.integral_system,
]
# without several years
TSAM_SINGLE = [
    flows.flh_system,
    convert.gchp_system,
    convert.offset_system,
    invest.invest_flow_system,
    commit.invest_nc_system,
    limits.equate_system,
]
TSAM = [
    tsam.weighting_system,
    tsam.tsam_storage_system,
    tsam.tsam_invest_system,
]


def size(spec):
    return sum(
        len(n.get("in", ())) + len(n.get("out", ())) for n in spec["nodes"]
    )


def merge(draw, time, parts, join=True):
    nodes, constraints, buses = [], [], []
    for k, part in enumerate(parts):
        own = [n["n"] for n in part["nodes"] if n["k"] == "bus"]
        names = {n["n"]: f"p{k}{n['n']}" for n in part["nodes"]}
        common = []
        if buses and join:
            for b in own:
                free = [x for x in buses if x not in common]
                if free and maybe(draw, 2):
                    names[b] = draw(st.sampled_from(free))
                    common.append(names[b])
        for n in part["nodes"]:
            if n["k"] == "bus" and names[n["n"]] in common:
                continue
            nodes.append(rename(n, names))
        for c in part.get("constraints", ()):
            c = rename(c, names)
            number = f"_{k}_{len(constraints)}"
            if c["c"].startswith("equate_flows") and (k or "name" in c):
                # the default name would replace the first one
                c["name"] = "equal"
            if "name" in c:
                c["name"] += number
            if c["c"] == "generic_integral_limit" and (
                k or "limit_name" in c
            ):
                c["limit_name"] = "limit" + number
            key = (c["c"], c.get("keyword"))
            unique = "name" in c or "limit_name" in c or c["c"] in (
                "equate_invest",
            )
            if unique or not any(
                key == (d["c"], d.get("keyword"))
                and not ("name" in d or "limit_name" in d)
                for d in constraints
            ):
                constraints.append(c)
        buses += [names[b] for b in own if names[b] not in common]
    spec = {"time": time, "nodes": nodes, "dir": parts[0]["dir"]}
    if join and len(buses) > 1 and maybe(draw, 2):
        a, b = draw(st.permutations(buses))[:2]
        s = Sys(draw, time)
        s.n = 900
        s.add("conv", ins={a: {}}, outs={b: convert.side_flow(s)},
              cf={b: s.series(num(0.25, 2, 0.25))})
        nodes += s.nodes
    for n in nodes:
        if n["k"] == "pwl":
            # one representation per model
            n["repn"] = "CC"
    seen = set()
    constraints = [
        c
        for c in constraints
        if not (
            c["c"] in ("equate_flows_by_keyword",
                       "limit_active_flow_count_by_keyword")
            and (c["c"] in seen or seen.add(c["c"]))
        )
    ]
    if constraints:
        spec["constraints"] = constraints
    if maybe(draw, 3):
        spec["order"] = list(draw(st.permutations(list(range(len(nodes))))))
    return spec


def draw_parts(draw, time, makers, count):
    Sys.forced = time
    try:
        return [
            draw(st.sampled_from(makers))(draw) for _ in range(count)
        ]
    finally:
        Sys.forced = None


def composed(draw, kinds=("plain", "plain", "plain", "multi", "tsam"),
             invest_=True, lo=2, hi=4, makers=None, join=True):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(lo, hi))
    if kind == "plain":
        time = draw(time_plain(2, 4))
        makers = makers or DISPATCH * 2 + (INVEST * 3 if invest_ else [])
        parts = draw_parts(draw, time, makers, n)
    elif kind == "multi":
        time = draw(time_multi(3, 2))
        time["dr"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.07]))
        parts = draw_parts(draw, time, MULTI, 1) + draw_parts(
            draw, time, MULTI + MULTI_DISPATCH, n - 1
        )
    else:
        time = tsam.tsam_time(draw)
        more = TSAM + TSAM_DISPATCH
        if "periods" not in time:
            more = more + TSAM_SINGLE
        parts = draw_parts(draw, time, TSAM, 1) + draw_parts(
            draw, time, more, n - 1
        )
    spec = merge(draw, time, parts, join)
    spec["kind"] = kind
    return spec


def labels(spec):
    yield spec["kind"]
    for k in {n["k"] for n in spec["nodes"]}:
        yield k
    for c in spec.get("constraints", ()):
        yield c["c"]
    yield f"{10 * (size(spec) // 10)}+ flows"
    kinds = set()
    for _, _, f in all_flows(spec):
        kinds.add(
            ("investment " if "investment" in f else "")
            + ("nonconvex " if "nonconvex" in f else "")
            + "flow"
        )
    yield from kinds


ModelProp(
    "composition",
    composed,
    "feasible (every system is composed of two to four parts that share "
    "buses or are connected)",
    labels,
    n_dirs=2,
    quick=240,
    thorough=8000,
)
