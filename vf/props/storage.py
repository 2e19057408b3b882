"""Storages: dispatch, charging limits, investment, shared and level limits."""

from hypothesis import strategies as st

from ..gen import Sys, maybe, num, num0, some, time_plain
from .base import ModelProp
from .convert import side_flow


def levels(s, kw, n_points):
    d = s.draw
    lo_hi = d(st.integers(0, 3))
    if lo_hi in (1, 3):
        kw["max_storage_level"] = s.series(num0(0.5, 1, 0.125), n=n_points)
    if lo_hi in (2, 3):
        kw["min_storage_level"] = s.series(num(0, 0.5, 0.125), n=n_points)


def first(x, default):
    if x is None:
        return default
    if isinstance(x, dict):
        return x["v"][0]
    if isinstance(x, list):
        return x[0]
    return x


def losses(s, kw, scalar=True, absolute=True, relative=True):
    d = s.draw
    if maybe(d, 2):
        kw["loss_rate"] = s.series(num(0, 0.5, 0.0625))
    if relative and maybe(d, 3):
        kw["fixed_losses_relative"] = s.series(num(0, 0.125, 0.03125))
    if absolute and maybe(d, 3):
        kw["fixed_losses_absolute"] = s.series(num(0, 0.5, 0.125))
    if maybe(d, 2):
        kw["inflow_conversion_factor"] = s.series(num(0.5, 1, 0.125))
    if maybe(d, 2):
        kw["outflow_conversion_factor"] = s.series(num(0.5, 1, 0.125))


def storage_kw(s, capacity=True, absolute=True):
    d = s.draw
    kw = {}
    if capacity:
        kw["nominal_capacity"] = d(num0(4, 20, 0.5))
        if maybe(d, 5):
            kw["nominal_storage_capacity"] = kw.pop("nominal_capacity")
    levels(s, kw, s.T + 1)
    losses(s, kw, absolute=absolute)
    if maybe(d, 2):
        kw["balanced"] = d(st.booleans())
    if maybe(d, 2):
        kw["storage_costs"] = s.series(num(-1, 4, 0.25))
    if maybe(d, 2):
        lo = first(kw.get("min_storage_level"), 0)
        hi = first(kw.get("max_storage_level"), 1)
        if lo <= hi:
            kw["initial_storage_level"] = d(num(lo, hi, 0.125))
    return kw


def positive(kw):
    """levels are relative to the capacity, so it must not be zero"""
    for k in ("nominal_capacity", "nominal_storage_capacity"):
        if kw.get(k) == 0:
            kw[k] = 5
    top = kw.get("max_storage_level")
    if top == 0:
        kw["max_storage_level"] = 0.5
        kw.pop("initial_storage_level", None)
    elif isinstance(top, (list, dict)):
        v = top["v"] if isinstance(top, dict) else top
        if v[0] == 0:
            kw.pop("initial_storage_level", None)
        v[:] = [x or 0.5 for x in v]
    return kw


def storage_flow(s):
    d = s.draw
    f = side_flow(s)
    if "minimum" in f and maybe(d, 2):
        del f["minimum"]
    return f


def place_storage(s, buses, kw=None, inv=None, fin=None, fout=None):
    d = s.draw
    a = d(st.sampled_from(buses))
    b = a if maybe(d, 2) else d(st.sampled_from(buses))
    x = {"kw": storage_kw(s) if kw is None else kw}
    if inv is not None:
        x["investment"] = inv
    return s.add(
        "storage",
        ins={a: storage_flow(s) if fin is None else fin},
        outs={b: storage_flow(s) if fout is None else fout},
        **x,
    )


def storage_labels(spec):
    for n in spec["nodes"]:
        if n["k"] == "storage":
            for k in n["kw"]:
                yield k
            if not n["kw"].get("balanced", True):
                yield "unbalanced"
            if list(n["in"]) != list(n["out"]):
                yield "two buses"
    if len(set(spec["time"]["inc"])) > 1:
        yield "uneven steps"


def dispatch_system(draw):
    s = Sys(draw, draw(time_plain(1, 5)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 2))):
        if maybe(draw, 8):
            r = draw(num0(0.25, 2, 0.25))
            kw = storage_kw(s)
            kw["invest_relation_input_output"] = r
            place_storage(
                s, buses, kw,
                fin={"investment": {"maximum": 10, "ep_costs": 1}},
                fout={"investment": {"maximum": 10, "ep_costs": 1}},
            )
        else:
            place_storage(s, buses)
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "storage-dispatch",
    dispatch_system,
    "feasible (every system has a storage)",
    storage_labels,
    n_dirs=4,
)


# ------------------------------------------------------------ soc charging
def soc_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    b = s.bus()
    kw = positive(storage_kw(s))
    kw["constant_soc_until"] = draw(num(0.25, 0.875, 0.125))
    kw["fraction_saturation_charging"] = draw(num(0, 1, 0.125))
    fin = {"nominal_capacity": draw(num(1, 8, 0.5))}
    if maybe(draw, 2):
        fin["maximum"] = s.series(num(0.25, 1, 0.25))
    if maybe(draw, 2):
        fin["variable_costs"] = s.series(num(-3, 3, 0.5))
    place_storage(s, [b], kw, fin=fin)
    if maybe(draw, 3):
        place_storage(s, [b])
    if maybe(draw, 2):
        s.demand(b)
    s.bounded_slack(b, 40)
    return s.spec()


ModelProp(
    "soc-charging",
    soc_system,
    "feasible (every system has a storage with a charging limit)",
    storage_labels,
    n_dirs=4,
)


# ------------------------------------------------------------ investment
def investment(s, top=10, bounded=False):
    d = s.draw
    inv = {}
    if maybe(d, 4) and not bounded:
        pass
    else:
        inv["maximum"] = d(num0(2, top, 0.5))
    if not maybe(d, 4):
        inv["ep_costs"] = d(num(0, 6, 0.25))
    if maybe(d, 3):
        inv["minimum"] = d(num(0, 2, 0.5))
    if maybe(d, 3):
        inv["existing"] = d(num(0, 4, 0.5))
    if maybe(d, 3) and "maximum" in inv:
        inv["nonconvex"] = True
        inv["offset"] = d(num(0, 10, 0.5))
        if maybe(d, 2):
            inv["minimum"] = d(num(0, 2, 0.5))
        inv.pop("existing", None)
    return inv


def storage_invest_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 2))):
        kw = storage_kw(s, capacity=False)
        inv = investment(s, 20)
        if "fixed_losses_absolute" in kw and not maybe(draw, 2):
            del kw["fixed_losses_absolute"]
        if (
            "fixed_losses_absolute" in kw
            and not inv.get("existing")
            and not inv.get("minimum")
        ):
            inv["minimum"] = 1
        fin, fout = storage_flow(s), storage_flow(s)
        r = draw(st.integers(0, 7))
        fi = {"investment": {"ep_costs": draw(num(0, 3, 0.5)),
                             "maximum": draw(num(5, 30))}}
        fo = {"investment": {"ep_costs": draw(num(0, 3, 0.5)),
                             "existing": draw(num(0, 2, 0.5))}}
        if r in (1, 4):
            kw["invest_relation_input_capacity"] = draw(num0(0.25, 2, 0.25))
            fin = fi
        if r in (2, 4):
            kw["invest_relation_output_capacity"] = draw(num0(0.25, 2, 0.25))
            fout = fo
        if r in (3,):
            kw["invest_relation_input_output"] = draw(num0(0.25, 2, 0.25))
            fin, fout = fi, fo
        place_storage(s, buses, kw, inv, fin, fout)
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


def storage_invest_labels(spec):
    yield from storage_labels(spec)
    for n in spec["nodes"]:
        if n["k"] == "storage":
            for k in n["investment"]:
                yield "invest " + k


ModelProp(
    "storage-invest",
    storage_invest_system,
    "feasible (every system has a storage with invested capacity)",
    storage_invest_labels,
    n_dirs=4,
)


# ------------------------------------------------------------ shared limit
def shared_flow(s, buses, of):
    d = s.draw
    f = {"nominal_capacity": d(num(2, 10, 0.5)),
         "variable_costs": s.series(num(-4, 4, 0.5))}
    if of == "status":
        f["minimum"] = 0.25
        f["nonconvex"] = {}
    b = d(st.sampled_from(buses))
    if maybe(d, 2):
        return [s.add("source", outs={b: f}), b]
    return [b, s.add("sink", ins={b: f})]


def shared_system(draw):
    s = Sys(draw, draw(time_plain(1, 4)))
    buses = [s.bus() for _ in range(draw(st.integers(1, 2)))]
    names = []
    for _ in range(some(draw, 1, 3, 6)):
        kw = storage_kw(s)
        if not maybe(draw, 4):
            # the content can then follow the shared limit
            kw.pop("min_storage_level", None)
            kw.pop("initial_storage_level", None)
            kw.pop("fixed_losses_absolute", None)
        names.append(place_storage(s, buses, kw))
    invested = []
    if maybe(draw, 3):
        for _ in range(draw(st.integers(1, 2))):
            kw = storage_kw(s, capacity=False, absolute=False)
            invested.append(
                place_storage(s, buses, kw, inv=investment(s, 20))
            )
    for number in range(draw(st.sampled_from([1, 1, 2]))):
        of = invested if invested and maybe(draw, 2) else names
        k = draw(st.integers(1, len(of)))
        c = {
            "c": "shared_limit",
            "name": f"shared{number or ''}",
            "storages": list(draw(st.permutations(of)))[:k],
        }
        if of is invested:
            c["block"] = "GenericInvestmentStorageBlock"
        elif maybe(draw, 4):
            k = draw(st.integers(1, 3))
            c.pop("storages")
            c["of"] = draw(st.sampled_from(["flow", "status"]))
            c["flows"] = [shared_flow(s, buses, c["of"]) for _ in range(k)]
        c["weights"] = [draw(num(0.25, 2, 0.25)) for _ in range(k)]
        if maybe(draw, 4):
            # a difference
            c["weights"][-1] *= -1
        which = draw(st.integers(0, 5))
        if which != 1:
            c["upper_limit"] = draw(num0(4, 20, 0.5))
        if which < 2:
            c["lower_limit"] = draw(num(0, 4, 0.5))
        elif which < 4:
            c["lower_limit"] = 0
        s.constraints.append(c)
    for b in buses:
        if maybe(draw, 2):
            s.demand(b)
        s.bounded_slack(b, 40)
    return s.spec()


def shared_labels(spec):
    if len(spec["constraints"]) > 1:
        yield "several limits"
    for c in spec["constraints"]:
        for k in ("upper_limit", "lower_limit", "block"):
            if k in c:
                yield k
        if "flows" in c:
            yield f"sum of {c['of']}"
        else:
            yield f"{len(c['storages'])} storages"
        if min(c["weights"]) < 0:
            yield "difference"


ModelProp(
    "shared-limit",
    shared_system,
    "feasible (every system has a limit shared by storages)",
    shared_labels,
    n_dirs=4,
)


# ------------------------------------------------------------ level access
def level_system(draw):
    from .tsam import tsam_kw, tsam_time

    tsam = maybe(draw, 4) and Sys.forced is None
    s = Sys(draw, tsam_time(draw) if tsam else draw(time_plain(1, 3)))
    mux = s.bus()
    kw = positive(tsam_kw(s) if tsam else storage_kw(s))
    fin, fout = storage_flow(s), storage_flow(s)
    if tsam:
        fin.pop("minimum", None)
        fout.pop("minimum", None)
    place_storage(s, [mux], kw, fin=fin, fout=fout)
    ins, outs = {}, {}
    for _ in range(draw(st.integers(0, 2))):
        b = s.bus()
        s.bounded_slack(b, 30)
        f = {"nominal_capacity": draw(num(2, 8, 0.5)),
             "variable_costs": s.series(num(-3, 3, 0.5))}
        s.add("conv", ins={b: {}}, outs={mux: f}, cf={mux: 1})
        ins[s.nodes[-1]["n"]] = draw(num(0, 1, 0.125))
    for _ in range(draw(st.integers(0 if ins else 1, 2))):
        b = s.bus()
        s.bounded_slack(b, 30)
        f = {"nominal_capacity": draw(num(2, 8, 0.5)),
             "variable_costs": s.series(num(-3, 3, 0.5))}
        s.add("conv", ins={mux: f}, outs={b: {}}, cf={b: 1})
        outs[s.nodes[-1]["n"]] = draw(num(0, 1, 0.125))
    st_name = [n["n"] for n in s.nodes if n["k"] == "storage"][0]
    s.constraints.append(
        {
            "c": "storage_level",
            "name": "mux",
            "storage": st_name,
            "bus": mux,
            "inputs": ins,
            "outputs": outs,
        }
    )
    return s.spec()


ModelProp(
    "storage-level",
    level_system,
    "feasible (every system has level dependent access to a storage)",
    lambda s: [
        f"{len(s['constraints'][0]['inputs'])} inputs",
        f"{len(s['constraints'][0]['outputs'])} outputs",
    ]
    + (["typical periods"] if s["time"].get("tsam") else []),
    n_dirs=4,
    quick=320,
)
