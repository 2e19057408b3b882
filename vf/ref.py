"""The reference model: the mathematics documented for oemof.solph, written
down independently, as a LinModel over publicly named quantities."""

from .lp import LinModel, lin

INF = float("inf")


def val(x, t, default=None):
    """Element t of a series parameter of a spec."""
    if x is None:
        return default
    if isinstance(x, dict):
        return x["v"][t]
    if isinstance(x, (list, tuple)):
        return x[t]
    return x


def last(x, default=None):
    if x is None:
        return default
    if isinstance(x, dict):
        return x["v"][-1]
    if isinstance(x, (list, tuple)):
        return x[-1]
    return x


def vals(x):
    """all values of a series parameter"""
    if x is None:
        return []
    if isinstance(x, dict):
        return list(x["v"])
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x]


def annuity(capex, n, w):
    return capex * w * (1 + w) ** n / ((1 + w) ** n - 1)


FLOW_INTEREST = 0.05


def shared(ref, c):
    """time -> the sum with a shared limit"""
    if "flows" in c:
        return {
            t: lin(
                *[
                    (w, {(c["of"], i, o, t): 1.0})
                    for (i, o), w in zip(c["flows"], c["weights"])
                ]
            )
            for t in ref.TS
        }
    return {
        t: lin(
            *[
                (w, {("content", s, t): 1.0})
                for s, w in zip(c["storages"], c["weights"])
            ]
        )
        for t in range(ref.T + 1)
    }


class Ref:
    def __init__(self, spec):
        self.spec = spec
        t = spec["time"]
        self.inc = [float(x) for x in t["inc"]]
        self.T = len(self.inc)
        self.TS = range(self.T)
        self.w = t.get("weights") or self.inc
        self.tw = [1.0] * self.T
        if t.get("tsam"):
            self.tw = []
            for p in t["tsam"]:
                n = p["timesteps_per_period"]
                if p.get("segments"):
                    n = len(p["segments"][0])
                for k in range(max(p["order"]) + 1):
                    self.tw += [p["order"].count(k)] * n
        self.multi = bool(t.get("periods"))
        if self.multi:
            self.years = [p["year"] for p in t["periods"]]
            self.P = range(len(self.years))
            self.per = [
                k for k, p in enumerate(t["periods"]) for _ in range(p["n"])
            ]
            self.end = self.years[-1] + t["periods"][-1].get("span", 1)
            dr = t.get("dr")
            self.dr = 0.02 if dr is None else dr
            self.use_rem = t.get("use_remaining_value", False)
        else:
            self.years = [0]
            self.P = range(1)
            self.per = [0] * self.T
            self.end = 1
        self.m = LinModel()
        self.flows = {}
        self.kinds = {n["n"]: n for n in spec["nodes"]}
        self.occurrences = {}
        for n in spec["nodes"]:
            for b, f in n.get("in", {}).items():
                self.flows[b, n["n"]] = f
            for b, f in n.get("out", {}).items():
                self.flows[n["n"], b] = f
        self.build()

    # ------------------------------------------------------------------
    def F(self, i, o, t):
        return {("flow", i, o, t): 1.0}

    def build(self):
        for (i, o), f in self.flows.items():
            self.flow(i, o, f)
        for n in self.spec["nodes"]:
            getattr(self, "n_" + n["k"])(n)
        for c in self.spec.get("constraints", []):
            getattr(self, "c_" + c["c"])(c)

    # ---------------- flows -------------------------------------------
    def flow(self, i, o, f):
        m = self.m
        nom = f.get("nominal_capacity")
        if nom is None:
            nom = f.get("nominal_value")
        inv, nc = f.get("investment"), f.get("nonconvex")
        fix = f.get("fix")
        mn, mx = f.get("minimum", f.get("min")), f.get(
            "maximum", f.get("max")
        )
        mn = 0 if mn is None else mn
        mx = 1 if mx is None else mx
        if f.get("bidirectional") and not isinstance(mn, list) and mn == 0:
            mn = -1
        bidir = min(vals(mn)) < 0 or bool(f.get("bidirectional"))
        for t in self.TS:
            m.var(("flow", i, o, t), -INF if bidir else 0.0, INF)
            if nom is not None:
                if fix is not None:
                    m.vars["flow", i, o, t][0] = -INF
                    m.bound(("flow", i, o, t), val(fix, t) * nom,
                            val(fix, t) * nom)
                else:
                    m.bound(("flow", i, o, t), -INF, val(mx, t) * nom)
                    if nc is None:
                        m.bound(("flow", i, o, t), val(mn, t) * nom)
            if f.get("integer"):
                m.bound(("flow", i, o, t), 0)
                m.vars["flow", i, o, t][2] = True
        if inv is not None:
            self.invest_flow(i, o, f, inv, nc, fix, mn, mx)
        elif nc is not None:
            for t in self.TS:
                m.var(("status", i, o, t), 0, 1, True)
                y = {("status", i, o, t): float(nom)}
                m.le(self.F(i, o, t), lin((val(mx, t), y)))
                m.ge(self.F(i, o, t), lin((val(mn, t), y)))
            self.commitment(i, o, f, nc)

        total = None
        if nom is not None:
            total = {None: float(nom)}
            energy = lin(
                *[
                    (self.inc[t] * self.tw[t], self.F(i, o, t))
                    for t in self.TS
                ]
            )
        elif inv is not None and nc is None:
            total = lin(*[(1, {("total", i, o, p): 1.0}) for p in self.P])
            energy = lin(
                *[
                    (self.inc[t] * self.tw[t], self.F(i, o, t))
                    for t in self.TS
                ]
            )
        if total is not None:
            x = f.get("full_load_time_max")
            if x is not None:
                m.le(energy, lin((x, total)), "flh max")
            x = f.get("full_load_time_min")
            if x is not None:
                m.ge(energy, lin((x, total)), "flh min")

        for key, sign in (
            ("positive_gradient_limit", 1),
            ("negative_gradient_limit", -1),
        ):
            g = f.get(key)
            if nc is not None and nc.get(key) is not None:
                g = nc[key]
            if g is None:
                continue
            for t in range(1, self.T):
                cap = {None: 1.0 * (nom or 0)}
                if nom is None and inv is not None:
                    cap = {
                        ("total" if nc is None else "invest", i, o,
                         self.per[t]): 1.0
                    }
                m.le(
                    lin(
                        (sign, self.F(i, o, t)), (-sign, self.F(i, o, t - 1))
                    ),
                    lin((val(g, t), cap)),
                    key,
                )

        c = f.get("variable_costs")
        if c is not None:
            for t in self.TS:
                k = val(c, t) * self.w[t] * self.tw[t]
                if self.multi:
                    k *= (1 + self.dr) ** -self.years[self.per[t]]
                m.cost(self.F(i, o, t), k, "SimpleFlowBlock.variable_costs")

        if self.multi:
            life, age = f.get("lifetime"), f.get("age") or 0
            if life is not None:
                for t in self.TS:
                    if life - age <= self.years[self.per[t]]:
                        m.bound(("flow", i, o, t), 0, 0)
            fc = f.get("fixed_costs")
            if fc is not None and nom is not None:
                n = self.end
                if life is not None:
                    n = min(n, life - age)
                m.cost(
                    {None: 1.0},
                    sum(nom * val(fc, y) for y in range(n)),
                    "SimpleFlowBlock.fixed_costs",
                )

    def commitment(self, i, o, f, nc, fix_initial=True):
        """initial status, minimum up and down times, starts and costs"""
        m = self.m
        block = "NonConvexFlowBlock."
        if f.get("investment") is not None:
            block = "InvestNonConvexFlowBlock."

        def s(t):
            return {("status", i, o, t): 1.0}

        y0 = nc.get("initial_status", 0)
        up = nc.get("minimum_uptime", 0)
        down = nc.get("minimum_downtime", 0)
        flex = val(down, 0) if y0 == 0 else val(up, 0)
        for t in range(min(flex, self.T)):
            m.bound(("status", i, o, t), y0, y0)

        def prev(t):
            return s(t - 1) if t > 0 else {None: float(y0)}

        for t in range(flex, self.T - 1):
            u, d = val(up, t), val(down, t)
            if u > 0:
                m.le(
                    lin((u, s(t)), (-u, prev(t))),
                    lin(*[(1, s(k)) for k in range(t, min(t + u, self.T))]),
                    "minimum up time",
                )
            if d > 0:
                m.le(
                    lin((d, prev(t)), (-d, s(t))),
                    lin(
                        (d, 1),
                        *[
                            (-1, s(k))
                            for k in range(t, min(t + d, self.T))
                        ],
                    ),
                    "minimum down time",
                )
        for what, sign, limit, cost in (
            ("startup", 1, "maximum_startups", "startup_costs"),
            ("shutdown", -1, "maximum_shutdowns", "shutdown_costs"),
        ):
            if nc.get(limit) is None and nc.get(cost) is None:
                continue
            ev = []
            for t in self.TS:
                key = ("ref_" + what, i, o, t)
                v = m.var(key, 0, 1, True)
                m.ge(v, lin((sign, s(t)), (-sign, prev(t))))
                ev.append((self.tw[t], v))
                if nc.get(cost) is not None:
                    m.cost(v, val(nc[cost], t) * self.tw[t], block + cost)
            if nc.get(limit) is not None:
                m.le(lin(*ev), {None: float(nc[limit])})
        for t in self.TS:
            if nc.get("activity_costs") is not None:
                m.cost(
                    s(t),
                    val(nc["activity_costs"], t) * self.tw[t],
                    block + "activity_costs",
                )
            if nc.get("inactivity_costs") is not None:
                m.cost(
                    lin((1, 1), (-1, s(t))),
                    val(nc["inactivity_costs"], t) * self.tw[t],
                    block + "inactivity_costs",
                )

    # capacity bookkeeping and costs shared by flows and storages
    def capacity(self, inv, invest, total, status, owner):
        """invest/total/status: functions period -> key"""
        m = self.m
        nonconvex = inv.get("nonconvex", False)
        existing = inv.get("existing", 0)
        life = inv.get("lifetime")
        age = inv.get("age", 0)
        for p in self.P:
            mn = val(inv.get("minimum", 0), p)
            mx = val(inv.get("maximum", INF), p)
            x = m.var(invest(p), 0, mx)
            if nonconvex:
                b = m.var(status(p), 0, 1, True)
                m.ge(x, lin((mn, b)))
                m.le(x, lin((mx, b)))
            else:
                m.bound(invest(p), mn)
        for p in self.P:
            m.var(total(p), 0, INF)
            parts = []
            for q in self.P:
                if q <= p and (
                    not self.multi
                    or q == p
                    or self.years[p] - self.years[q] < life
                ):
                    parts.append((1, {invest(q): 1.0}))
            if not self.multi or p == 0 or self.years[p] < life - age:
                parts.append((1, existing))
            m.eq({total(p): 1.0}, lin(*parts), "capacity")
        if self.multi:
            if inv.get("overall_maximum") is not None:
                for p in self.P:
                    m.bound(total(p), -INF, inv["overall_maximum"])
            if inv.get("overall_minimum") is not None:
                m.bound(total(self.P[-1]), inv["overall_minimum"])
        block = {
            "flow": "InvestmentFlowBlock.",
            "storage": "GenericInvestmentStorageBlock.",
        }[owner]
        m.cost(
            self.invest_costs(inv, invest, status, owner),
            1,
            block + "investment_costs",
        )
        if self.multi and inv.get("fixed_costs") is not None:
            fc = inv["fixed_costs"]
            for p in self.P:
                y0 = self.years[p]
                k = sum(
                    val(fc, y) for y in range(y0, min(self.end, y0 + life))
                )
                m.cost({invest(p): 1.0}, k, block + "fixed_costs")
            k = sum(val(fc, y) for y in range(min(self.end, life - age)))
            m.cost({None: 1.0}, existing * k, block + "fixed_costs")

    def invest_costs(self, inv, invest, status, owner, per_period=None,
                     remaining=True):
        """Linear expression of the investment costs."""
        nonconvex = inv.get("nonconvex", False)
        life = inv.get("lifetime")
        out = {}

        def add(key, k):
            out[key] = out.get(key, 0.0) + k

        for p in self.P:
            if per_period is not None and p != per_period:
                continue
            c = val(inv.get("ep_costs", 0), p)
            off = val(inv.get("offset", 0), p)
            if not self.multi:
                add(invest(p), c)
                if nonconvex:
                    add(status(p), off)
                continue
            w = FLOW_INTEREST if owner == "flow" else self.dr
            d = min(self.end - self.years[p], life)
            add(invest(p), annuity(c, life, w) / annuity(1, d, w))
            if nonconvex:
                add(
                    status(p),
                    annuity(off, life, w) if owner == "flow" else off,
                )
            left = life - (self.end - self.years[p])
            if self.use_rem and left > 0 and remaining:
                c_end = last(inv.get("ep_costs", 0))
                add(
                    invest(p),
                    (annuity(c_end, left, w) - annuity(c, left, w))
                    / annuity(1, left, w),
                )
                if nonconvex:
                    add(status(p), last(inv.get("offset", 0)) - off)
        return out

    def invest_flow(self, i, o, f, inv, nc, fix, mn, mx):
        m = self.m
        if nc is not None:
            return self.invest_nonconvex(i, o, f, inv, nc, mn, mx)
        self.capacity(
            inv,
            lambda p: ("invest", i, o, p),
            lambda p: ("total", i, o, p),
            lambda p: ("invest_status", i, o, p),
            "flow",
        )
        for t in self.TS:
            cap = {("total", i, o, self.per[t]): 1.0}
            if fix is not None:
                m.vars["flow", i, o, t][0] = -INF
                m.eq(self.F(i, o, t), lin((val(fix, t), cap)), "fix")
            else:
                m.le(self.F(i, o, t), lin((val(mx, t), cap)), "max")
                m.ge(self.F(i, o, t), lin((val(mn, t), cap)), "min")

    def invest_nonconvex(self, i, o, f, inv, nc, mn, mx):
        m = self.m
        nonconvex = inv.get("nonconvex", False)
        top = val(inv["maximum"], 0)
        x = m.var(("invest", i, o, 0), 0, top)
        if nonconvex:
            b = m.var(("invest_status", i, o, 0), 0, 1, True)
            m.ge(x, lin((val(inv.get("minimum", 0), 0), b)))
            m.le(x, lin((top, b)))
        else:
            m.bound(("invest", i, o, 0), val(inv.get("minimum", 0), 0))
        part = "InvestNonConvexFlowBlock.investment_costs"
        m.cost(x, val(inv.get("ep_costs", 0), 0), part)
        if nonconvex:
            m.cost(b, val(inv.get("offset", 0), 0), part)
        for t in self.TS:
            y = m.var(("status", i, o, t), 0, 1, True)
            # z = y * x exactly
            z = m.var(("status_nominal", i, o, t), 0, top)
            m.le(z, lin((top, y)))
            m.le(z, x)
            m.ge(z, lin((1, x), (-top, 1), (top, y)))
            m.le(self.F(i, o, t), lin((val(mx, t), z)))
            m.ge(self.F(i, o, t), lin((val(mn, t), z)))
        self.commitment(i, o, f, nc)

    # ---------------- nodes -------------------------------------------
    def ins(self, name):
        return [a for (a, b) in self.flows if b == name]

    def outs(self, name):
        return [b for (a, b) in self.flows if a == name]

    def n_bus(self, n):
        if not n.get("balanced", True):
            return
        name = n["n"]
        for t in self.TS:
            a = lin(*[(1, self.F(i, name, t)) for i in self.ins(name)])
            b = lin(*[(1, self.F(name, o, t)) for o in self.outs(name)])
            if a or b:
                self.m.eq(a, b, "bus " + name)

    def n_source(self, n):
        pass

    def n_sink(self, n):
        pass

    def n_conv(self, n):
        name, cf = n["n"], n.get("cf") or {}
        for t in self.TS:
            for i in self.ins(name):
                for o in self.outs(name):
                    self.m.eq(
                        lin((val(cf.get(o, 1), t), self.F(i, name, t))),
                        lin((val(cf.get(i, 1), t), self.F(name, o, t))),
                        "converter",
                    )

    def n_link(self, n):
        for a, b, c in n["cf"]:
            for t in self.TS:
                self.m.eq(
                    self.F(n["n"], b, t),
                    lin((val(c, t), self.F(a, n["n"], t))),
                    "link",
                )

    def n_etchp(self, n):
        name, cf = n["n"], n["cf"]
        (el,) = n["cfc"].keys()
        (heat,) = [o for o in self.outs(name) if o != el]
        (fuel,) = self.ins(name)
        for t in self.TS:
            eta_c = val(n["cfc"][el], t)
            eta_el, eta_th = val(cf[el], t), val(cf[heat], t)
            beta = (eta_c - eta_el) / eta_th
            p, q = self.F(name, el, t), self.F(name, heat, t)
            self.m.eq(
                lin((eta_c, self.F(fuel, name, t))), lin((1, p), (beta, q))
            )
            self.m.ge(p, lin((eta_el / eta_th, q)))

    def n_gchp(self, n):
        m, name = self.m, n["n"]
        (fuel,) = self.ins(name)
        el, heat = n["el"], n["heat"]
        cpf = self.flows[fuel, name]["custom_properties"]
        cpe = self.flows[name, el]["custom_properties"]
        cph = self.flows[name, heat]["custom_properties"]
        for t in self.TS:
            pmax, pmin = cpe["P_max_woDH"][t], cpe["P_min_woDH"][t]
            emax = cpe["Eta_el_max_woDH"][t]
            emin = cpe["Eta_el_min_woDH"][t]
            a1 = (pmax / emax - pmin / emin) / (pmax - pmin)
            a0 = pmin / emin - a1 * pmin
            y = m.var(("chp_on", name, t), 0, 1, True)
            h = self.F(fuel, name, t)
            p, q = self.F(name, el, t), self.F(name, heat, t)
            beta = val(n["beta"], t)
            m.var(("chp_pwo", name, t), 0, INF)
            pwo = {("chp_pwo", name, t): 1.0}
            m.bound(("flow", name, heat, t), 0)
            m.bound(("flow", name, el, t), 0)
            m.eq(h, lin((a0, y), (a1, pwo)))
            m.eq(h, lin((a0, y), (a1, p), (a1 * beta, q)))
            m.le(h, lin((pmax / emax, y)))
            m.ge(h, lin((pmin / emin, y)))
            res = lin(
                (1, p),
                (1, q),
                (cpf["H_L_FG_share_max"][t], h),
                (cph["Q_CW_min"][t], y),
            )
            if n.get("back_pressure", False):
                m.eq(res, h)
            else:
                m.le(res, h)
            if cpf.get("H_L_FG_share_min") is not None:
                m.ge(
                    lin(
                        (1, p),
                        (1, q),
                        (cpf["H_L_FG_share_min"][t], h),
                        (cph["Q_CW_min"][t], y),
                    ),
                    h,
                )

    def n_offset(self, n):
        m, name = self.m, n["n"]
        cf, no = n.get("cf") or {}, n.get("no") or {}
        flows = [(i, name) for i in self.ins(name)]
        flows += [(name, o) for o in self.outs(name)]
        (refk,) = [k for k in flows if self.flows[k].get("nonconvex") is not None]
        rf = self.flows[refk]
        if n.get("coefficients") is not None:
            # one input, reference at the output:  out = c0 * nom * Y + c1 * in
            (b_in,) = self.ins(name)
            c0, c1 = n["coefficients"]
            cf = {b_in: [1 / val(c1, t) for t in self.TS]}
            no = {b_in: [-val(c0, t) / val(c1, t) for t in self.TS]}
        for t in self.TS:
            if rf.get("investment") is not None:
                z = {("status_nominal", *refk, t): 1.0}
            else:
                z = {("status", *refk, t): float(rf["nominal_capacity"])}
            for k in flows:
                if k == refk:
                    continue
                bus = k[0] if k[1] == name else k[1]
                m.eq(
                    self.F(*k, t),
                    lin(
                        (val(cf.get(bus, 1), t), self.F(*refk, t)),
                        (val(no.get(bus, 0), t), z),
                    ),
                    "offset",
                )

    def n_pwl(self, n):
        """the operating point lies on one of the segments"""
        m, name = self.m, n["n"]
        (i,), (o,) = self.ins(name), self.outs(name)
        xs, ys = n["x"], n["y"]
        for t in self.TS:
            ex, ey, one = [], [], []
            for k in range(len(xs) - 1):
                z = m.var(("seg", name, t, k), 0, 1, True)
                w = m.var(("pos", name, t, k), 0, 1)
                m.le(w, z)
                ex += [(xs[k], z), (xs[k + 1] - xs[k], w)]
                ey += [(ys[k], z), (ys[k + 1] - ys[k], w)]
                one.append((1, z))
            m.add(lin(*one), 1, 1)
            m.eq(self.F(i, name, t), lin(*ex))
            m.eq(self.F(name, o, t), lin(*ey))

    def n_caes(self, n):
        m, name, q = self.m, n["n"], n["params"]
        (el_out,) = self.outs(name)

        def v(key, t, hi=INF, integer=False):
            return m.var((key, name, t), 0, hi, integer)

        level_max = q["cav_level_max"]
        for t in self.TS:
            cs, es = v("c_st", t, 1, True), v("e_st", t, 1, True)
            pc = self.F(n["el_in"], name, t)
            pe = self.F(name, el_out, t)
            fuel = self.F(n["fuel"], name, t)
            for x in ((n["el_in"], name), (n["fuel"], name), (name, el_out)):
                m.bound(("flow", *x, t), 0)
            cav = v("cav_level", t, level_max)
            tes = v("tes_level", t, q["tes_level_max"])
            prev = {} if t == 0 else {("cav_level", name, t - 1): 1.0}
            prev_tes = {} if t == 0 else {("tes_level", name, t - 1): 1.0}
            for kind, p, st in (("cmp", pc, cs), ("exp", pe, es)):
                slope, base = q[kind + "_p_max_m"], q[kind + "_p_max_b"]
                top = lin((slope, prev), (base, 1))
                m.le(p, top)
                m.ge(top, {})
                m.ge(p, lin((q[kind + "_p_min"], st)))
                m.le(p, lin((slope * level_max + base, st)))
            heat = lin((q["cmp_q_out_m"], pc), (q["cmp_q_out_b"], cs))
            waste, stored = v("waste", t), v("tes_in", t)
            m.eq(heat, lin((1, waste), (1, stored)))
            r = q["cmp_q_tes_share"]
            m.eq(lin((r, waste)), lin((1 - r, stored)))
            need = lin((q["exp_q_in_m"], pe), (q["exp_q_in_b"], es))
            out, extra = v("tes_out", t), v("added", t)
            m.eq(need, lin((1, fuel), (1, out), (1, extra)))
            r = q["exp_q_tes_share"]
            m.eq(lin((r, fuel)), lin((1 - r, out), (1 - r, extra)))
            e_in = lin((q["cav_e_in_m"], pc), (q["cav_e_in_b"], cs))
            e_out = lin((q["cav_e_out_m"], pe), (q["cav_e_out_b"], es))
            m.ge(e_in, {})
            m.ge(e_out, {})
            tau = self.inc[t]
            m.eq(
                lin((q["cav_eta_temp"], cav)),
                lin((1, prev), (tau, e_in), (-tau, e_out)),
            )
            m.eq(
                tes, lin((1, prev_tes), (tau, stored), (-tau, out))
            )

    def n_storage(self, n):
        name, kw, m = n["n"], n.get("kw", {}), self.m
        inv = n.get("investment")
        (bi,), (bo,) = self.ins(name), self.outs(name)
        g = kw.get
        lo, hi = g("min_storage_level", 0), g("max_storage_level", 1)
        loss = g("loss_rate", 0)
        lrel, labs = g("fixed_losses_relative", 0), g(
            "fixed_losses_absolute", 0
        )
        ei, eo = g("inflow_conversion_factor", 1), g(
            "outflow_conversion_factor", 1
        )
        init = g("initial_storage_level")
        points = range(self.T + 1)
        block = (
            "GenericStorageBlock."
            if inv is None
            else "GenericInvestmentStorageBlock."
        )
        tsam = self.spec["time"].get("tsam")

        def E(t):
            return {("content", name, t): 1.0}

        def total(p):
            return ("stotal", name, p)

        if inv is not None:
            self.capacity(
                inv,
                lambda p: ("sinvest", name, p),
                total,
                lambda p: ("sinvest_status", name, p),
                "storage",
            )

            def cap(p):
                return {total(p): 1.0}

        else:
            nom = g("nominal_capacity", g("nominal_storage_capacity"))

            def cap(p):
                return {None: float(nom)}

        if not tsam:
            for t in points:
                m.var(("content", name, t), 0 if inv else -INF, INF)
                p = self.per[min(t, self.T - 1)]
                if inv is not None and self.multi and t == self.T:
                    # see known findings: final level of multi-period
                    # investment storages
                    continue
                m.le(E(t), lin((val(hi, t), cap(p))), "max level")
                m.ge(E(t), lin((val(lo, t), cap(p))), "min level")
            for t in self.TS:
                d = self.inc[t]
                p = self.per[t]
                m.eq(
                    E(t + 1),
                    lin(
                        ((1 - val(loss, t)) ** d, E(t)),
                        (-val(lrel, t) * d, cap(p)),
                        (-1, val(labs, t) * d),
                        (val(ei, t) * d, self.F(bi, name, t)),
                        (-d / val(eo, t), self.F(name, bo, t)),
                    ),
                    "storage balance",
                )
            if self.multi and inv is not None:
                m.eq(E(0), 0)
            else:
                if init is not None:
                    m.eq(E(0), lin((init, cap(0))))
                elif inv is not None:
                    m.le(E(0), cap(0))
                if g("balanced", True):
                    m.eq(E(self.T), E(0), "balanced")
            sc = g("storage_costs")
            if sc is not None:
                for t in self.TS:
                    m.cost(E(t + 1), val(sc, t), block + "storage_costs")
            cs, fs = g("constant_soc_until"), g("fraction_saturation_charging")
            if cs is not None:
                f = self.flows[bi, name]
                for t in self.TS:
                    top = f["nominal_capacity"] * val(f.get("maximum", 1), t)
                    full = nom * val(hi, t)
                    # linear from (cs, top) to (1, fs * top)
                    slope = (fs * top - top) / (1 - cs)
                    m.le(
                        self.F(bi, name, t),
                        lin((1, top - slope * cs), (slope / full, E(t + 1))),
                        "soc dependent charging",
                    )
        else:
            self.tsam_storage(n, cap)

        r = g("invest_relation_input_output")
        for p in self.P:
            if r is not None:
                m.eq(
                    {("total", bi, name, p): 1.0},
                    lin((val(r, p), {("total", name, bo, p): 1.0})),
                )
            x = g("invest_relation_input_capacity")
            if x is not None:
                m.eq({("total", bi, name, p): 1.0}, lin((val(x, p), cap(p))))
            x = g("invest_relation_output_capacity")
            if x is not None:
                m.eq({("total", name, bo, p): 1.0}, lin((val(x, p), cap(p))))
        fc = g("fixed_costs", 0)
        if inv is None and fc is not None:
            n_years = self.end if self.multi else 1
            m.cost(
                {None: 1.0},
                sum(nom * val(fc, y) for y in range(n_years)),
                block + "fixed_costs",
            )

    def tsam_storage(self, n, cap):
        """The storage of the un-aggregated chronology: every repetition of a
        typical period uses the flows of that typical period."""
        name, kw, m = n["n"], n.get("kw", {}), self.m
        inv = n.get("investment")
        (bi,), (bo,) = self.ins(name), self.outs(name)
        g = kw.get
        lo, hi = g("min_storage_level", 0), g("max_storage_level", 1)
        loss = g("loss_rate", 0)
        lrel = g("fixed_losses_relative", 0)
        labs = g("fixed_losses_absolute", 0)
        ei = g("inflow_conversion_factor", 1)
        eo = g("outflow_conversion_factor", 1)
        sc = g("storage_costs")
        occurrences = self.occurrences[name] = []
        base = 0
        key = ("ref_content", name, 0)
        first = m.var(key, 0, INF)
        prev = first
        count = 0
        p_first = 0
        for p, tp in enumerate(self.spec["time"]["tsam"]):
            nst = tp["timesteps_per_period"]
            if tp.get("segments"):
                nst = len(tp["segments"][0])
            for c in tp["order"]:
                for s in range(nst):
                    t = base + c * nst + s
                    d = self.inc[t]
                    m.le(prev, lin((val(hi, 0), cap(p))), "max level")
                    m.ge(prev, lin((val(lo, 0), cap(p))), "min level")
                    count += 1
                    key = ("ref_content", name, count)
                    cur = m.var(key, -INF, INF)
                    m.eq(
                        cur,
                        lin(
                            ((1 - val(loss, t)) ** d, prev),
                            (-val(lrel, t) * d, cap(p)),
                            (-1, val(labs, t) * d),
                            (val(ei, t) * d, self.F(bi, name, t)),
                            (-d / val(eo, t), self.F(name, bo, t)),
                        ),
                    )
                    occurrences.append((t, prev, cur))
                    if sc is not None:
                        m.cost(
                            cur,
                            val(sc, t),
                            (
                                "GenericStorageBlock."
                                if inv is None
                                else "GenericInvestmentStorageBlock."
                            )
                            + "storage_costs",
                        )
                    prev = cur
            base += (max(tp["order"]) + 1) * nst
        m.ge(prev, 0)
        init = g("initial_storage_level")
        if self.multi and inv is not None:
            m.eq(first, 0)
        elif init is not None:
            m.eq(first, lin((init, cap(p_first))))
        if g("balanced", True) and (
            inv is None or self.spec.get("documented")
        ):
            # storages with optimised capacity are not balanced here, see
            # known findings
            m.eq(prev, first)
        m.le(prev, lin((val(hi, 0), cap(self.P[-1]))), "final max level")
        m.ge(prev, lin((val(lo, 0), cap(self.P[-1]))), "final min level")

    # ---------------- constraints -------------------------------------
    def all_invest_costs(self, per_period=None, remaining=True):
        terms = []
        for (i, o), f in self.flows.items():
            inv = f.get("investment")
            if inv is None:
                continue
            terms.append(
                (
                    1,
                    self.invest_costs(
                        inv,
                        lambda p, i=i, o=o: ("invest", i, o, p),
                        lambda p, i=i, o=o: ("invest_status", i, o, p),
                        "flow",
                        per_period,
                        remaining,
                    ),
                )
            )
        for n in self.spec["nodes"]:
            inv = n.get("investment")
            if n["k"] == "storage" and inv is not None:
                terms.append(
                    (
                        1,
                        self.invest_costs(
                            inv,
                            lambda p, n=n: ("sinvest", n["n"], p),
                            lambda p, n=n: ("sinvest_status", n["n"], p),
                            "storage",
                            per_period,
                            remaining,
                        ),
                    )
                )
        return lin(*terms)

    def c_investment_limit(self, c):
        self.m.le(self.all_invest_costs(), c["limit"])

    def c_investment_limit_per_period(self, c):
        for p in self.P:
            self.m.le(
                self.all_invest_costs(p, remaining=False), c["limit"][p]
            )

    def c_additional_investment_flow_limit(self, c):
        terms = []
        for (i, o), f in self.flows.items():
            inv = f.get("investment")
            if inv is None:
                continue
            x = (inv.get("custom_properties") or {}).get(c["keyword"])
            if x is not None:
                for p in self.P:
                    terms.append((x, {("invest", i, o, p): 1.0}))
        self.m.le(lin(*terms), c["limit"])

    def _with_keyword(self, kw):
        return {
            k: f["custom_properties"][kw]
            for k, f in self.flows.items()
            if kw in (f.get("custom_properties") or {})
        }

    def _listed(self, c):
        w = self._with_keyword(c.get("keyword", "emission_factor"))
        if c.get("flows") is not None:
            w = {k: w[k] for k in map(tuple, c["flows"])}
        return w

    def _integral(self, weights, steps):
        return lin(
            *[
                (val(w, t) * self.inc[t] * self.tw[t], self.F(i, o, t))
                for (i, o), w in weights.items()
                for t in steps
            ]
        )

    def c_generic_integral_limit(self, c):
        w = self._listed(c)
        e = self._integral(w, self.TS)
        if c.get("upper_limit") is not None:
            self.m.le(e, c["upper_limit"])
        if c.get("lower_limit") is not None:
            self.m.ge(e, c["lower_limit"])

    def c_emission_limit(self, c):
        self.m.le(self._integral(self._listed(c), self.TS), c["limit"])

    def _periodical(self, c):
        w, limits = self._listed(c), c["limit"]
        for p in self.P:
            if limits[p] is not None:
                steps = [t for t in self.TS if self.per[t] == p]
                self.m.le(self._integral(w, steps), limits[p])

    def c_emission_limit_per_period(self, c):
        self._periodical(c)

    def c_generic_periodical_integral_limit(self, c):
        self._periodical(c)

    def c_equate_flows(self, c):
        for t in self.TS:
            self.m.eq(
                lin(
                    *[
                        (c.get("factor", 1), self.F(a, b, t))
                        for a, b in c["f1"]
                    ]
                ),
                lin(*[(1, self.F(a, b, t)) for a, b in c["f2"]]),
            )

    def c_equate_flows_by_keyword(self, c):
        self.c_equate_flows(
            {
                "factor": c.get("factor", 1),
                "f1": list(self._with_keyword(c["k1"])),
                "f2": list(self._with_keyword(c["k2"])),
            }
        )

    def c_equate_invest(self, c):
        self.m.eq(
            {("invest", *c["f1"], 0): float(c.get("factor", 1))},
            {("invest", *c["f2"], 0): 1.0},
        )

    def c_limit_active_flow_count(self, c):
        for t in self.TS:
            e = lin(
                *[(1, {("status", a, b, t): 1.0}) for a, b in c["flows"]]
            )
            if c.get("upper_limit") is not None:
                self.m.le(e, c["upper_limit"])
            if c.get("lower_limit") is not None:
                self.m.ge(e, c["lower_limit"])

    def c_limit_active_flow_count_by_keyword(self, c):
        self.c_limit_active_flow_count(
            {
                **c,
                "flows": [
                    k
                    for k in self._with_keyword(c["keyword"])
                    if self.flows[k].get("nonconvex") is not None
                ],
            }
        )

    def c_shared_limit(self, c):
        for e in shared(self, c).values():
            if c.get("upper_limit") is not None:
                self.m.le(e, c["upper_limit"])
            self.m.ge(e, c.get("lower_limit", 0))

    def c_storage_level(self, c):
        m, s = self.m, c["storage"]
        kw = self.kinds[s]["kw"]
        nom = kw.get("nominal_capacity", kw.get("nominal_storage_capacity"))
        steps = self.occurrences.get(s) or [
            (t, {("content", s, t): 1.0}, {("content", s, t + 1): 1.0})
            for t in self.TS
        ]
        for x, level in c["inputs"].items():
            cap = self.flows[x, c["bus"]]["nominal_capacity"]
            for t in self.TS:
                z = m.var(("ref_in_block", x, c["name"], t), 0, 1, True)
                m.le(
                    lin((1 / cap, self.F(x, c["bus"], t))),
                    lin((1, 1), (-1, z)),
                )
            for t, before, _ in steps:
                # blocked (z = 1) whenever the level exceeds the threshold
                z = {("ref_in_block", x, c["name"], t): 1.0}
                m.le(lin((1 / nom, before), (-1, level)), z)
        for x, level in c["outputs"].items():
            cap = self.flows[c["bus"], x]["nominal_capacity"]
            for t in self.TS:
                y = m.var(("ref_out_active", x, c["name"], t), 0, 1, True)
                m.le(lin((1 / cap, self.F(c["bus"], x, t))), y)
            for t, _, after in steps:
                y = {("ref_out_active", x, c["name"], t): 1.0}
                m.ge(lin((1 / nom, after)), lin((level, y)))
