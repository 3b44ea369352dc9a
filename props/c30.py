"""C30: shipped templates (all of them, every run) and generated variations of line status and loading."""
from pbt.common import *
from props import _net as N

RULE = ("Every shipped template is checked as it is (well-formedness, building twice, nominal power flow, agreement with the "
        "network it is a part of), and generated cases vary it: a random connectivity-preserving choice of open and closed "
        "lines, a random order of the line list and of the line ends, and random down-scaled loads. Non-trivial: a varied "
        "template with at least 5 buses and a line whose status differs from the shipped one, or unevenly scaled loads.")
EXAMPLES = {"quick": 120, "thorough": 1500}
ASSUMPTIONS = ["plausible voltage: 0.85..1.01 p.u. (nominal or less load, shipped topology), 0.8..1.02 with other topologies and at most 30% load"]
SINGLE = ["bolognani56", "bolognani33", "bolognani21", "cigre_mv_feeder1", "ieee_33"]
THREE = ["cigre_mv_feeder3", "test_3phase", "ieee123center"]


def enumerate_cases(tier):
    return [{"t": t, "what": "shipped"} for t in SINGLE + THREE] + [{"t": "", "what": "cross"}]


def strategy(st):
    @st.composite
    def case(draw):
        t = draw(st.sampled_from(SINGLE + ["test_3phase", "cigre_mv_feeder3"] + SINGLE + THREE))
        return {"t": t, "what": draw(st.sampled_from(["lines", "scale", "both"])), "seed": draw(st.integers(0, 2 ** 31)),
                "extra": draw(st.sampled_from([0.0, 0.5, 1.0])), "flip": draw(st.booleans()), "shuffle": draw(st.booleans()),
                "scale": draw(st.sampled_from([1.0, 0.5, 0.0, 0.9])), "even": draw(st.booleans())}
    return case()


def tables(ctx, name):
    """the tables of the template, fresh copies, and whether it is three-phase"""
    import copy
    from src.simulation import net_templates, net_templates_3ph
    three = name in THREE
    m = net_templates_3ph if three else net_templates
    if not hasattr(ctx, "tmpl"):
        ctx.tmpl = {}
    if name not in ctx.tmpl:      # before any network is built from them
        ctx.tmpl[name] = copy.deepcopy((getattr(m, name + "_bus"), getattr(m, name + "_net")))
    b, l = copy.deepcopy(ctx.tmpl[name])
    return b, l, three


def setup(ctx):
    for t in SINGLE + THREE:
        tables(ctx, t)


def well_formed(name, bus, lines, three):
    import numpy as np
    from src.simulation.net_templates_3ph import ieee123_types
    ids = [b.id for b in bus]
    require(len(ids) == len(set(ids)), "%s: bus ids repeat" % name)
    require([b.type for b in bus].count(3) == 1, "%s: %d grid connections" % (name, [b.type for b in bus].count(3)))
    for b in bus:
        require(b.type in (1, 3), "%s: bus %s of type %s" % (name, b.id, b.type))
        require(b.baseKV > 0 and b.baseKV == bus[0].baseKV, "%s: bus %s at %s kV" % (name, b.id, b.baseKV))
        for v in (b.Pd, b.Qd):
            require(np.all(np.asarray(v) >= 0) and np.all(np.isfinite(np.asarray(v, dtype=float))), "%s: load %r at bus %s" % (name, v, b.id))
            require(np.size(v) in ((1, 3) if three and b.type == 1 else (1,)), "%s: load %r at bus %s" % (name, v, b.id))
        require(np.size(b.Pd) == np.size(b.Qd), "%s: load of bus %s" % (name, b.id))
    g = {i: set() for i in ids}
    for l in lines:
        w = "%s: line %s-%s" % (name, l.start_bus, l.end_bus)
        require(l.start_bus in g and l.end_bus in g, w + " joins a bus that is not listed")
        require(l.start_bus != l.end_bus, w + " joins a bus to itself")
        require(l.length > 0, w + " has length %r" % l.length)
        if three:
            require(l.t in ieee123_types, w + " has type %r" % l.t)
            t = ieee123_types[l.t]
            require(all(t[k] > 0 for k in ("r_ohm_per_km", "x_ohm_per_km", "r0_ohm_per_km", "x0_ohm_per_km")), w + " has a type without impedance")
        else:
            require(l.R > 0 and l.X > 0, w + " has impedance %r + %rj" % (l.R, l.X))
        if l.status > 0:
            g[l.start_bus].add(l.end_bus)
            g[l.end_bus].add(l.start_bus)
    seen, todo = {ids[0]}, [ids[0]]
    while todo:
        for k in g[todo.pop()]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    require(seen == set(ids), "%s: buses %s are not connected" % (name, sorted(set(ids) - seen)))


def reference(bus, lines, three, kv):
    d = {"buses": [{"id": b.id, "kv": kv} for b in bus]}
    if three:
        from src.simulation.net_templates_3ph import ieee123_types
        d["lines"] = [{"f": l.start_bus, "t": l.end_bus, "l": l.length, "ty": l.t, "s": l.status} for l in lines]
        return N.y3_ref(d, ieee123_types)[0]
    d["lines"] = [{"f": l.start_bus, "t": l.end_bus, "r": l.R / kv ** 2, "x": l.X / kv ** 2, "s": l.status} for l in lines]
    return N.y_ref(d)


def contents(net, name, bus, lines, three):
    """the network holds what the tables say"""
    import numpy as np
    ids = [b.id for b in bus]
    require([int(i) for i in net.bus.index] == ids, "%s: buses %s" % (name, list(net.bus.index)))
    pcc = [b.id for b in bus if b.type == 3]
    require([int(i) for i in net.ext_grid.bus.values] == pcc, "%s: grid connection at %s" % (name, list(net.ext_grid.bus.values)))
    require(set(float(k) for k in net.bus.vn_kv.values) == {float(bus[0].baseKV)}, "%s: nominal voltages" % name)
    sym = {b.id: (0.0, 0.0) if b.type == 3 else (float(b.Pd), float(b.Qd)) for b in bus if np.size(b.Pd) == 1}
    got = {int(b): (float(p), float(q)) for b, p, q in zip(net.load.bus.values, net.load.p_mw.values, net.load.q_mvar.values)}
    require(got == sym, "%s: loads %r, expected %r" % (name, got, sym))
    require(len(net.load) == len(sym), "%s: %d loads" % (name, len(net.load)))
    a = net.asymmetric_load
    asym = {b.id: tuple(float(x) for x in tuple(b.Pd) + tuple(b.Qd)) for b in bus if np.size(b.Pd) == 3}
    got = {int(b): tuple(float(a[c].values[k]) for c in ("p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar"))
           for k, b in enumerate(a.bus.values)}
    require(got == asym and len(a) == len(asym), "%s: asymmetric loads %r, expected %r" % (name, got, asym))
    up = sorted(tuple(sorted((l.start_bus, l.end_bus))) for l in lines if l.status > 0)
    ln = net.line[net.line.in_service.values.astype(bool)]
    got = sorted(tuple(sorted((int(f), int(t)))) for f, t in zip(ln.from_bus.values, ln.to_bus.values))
    require(got == up, "%s: lines in service %s, expected %s" % (name, got, up))


def solve(net, three, f, what, lo, hi, ctx):
    """run the loads scaled with f, check the balance, return the voltages"""
    import numpy as np
    N.clean_sims(ctx)
    P, Q = net.load.p_mw.values * f(len(net.load)), net.load.q_mvar.values * f(len(net.load))
    n = len(net.bus)
    ids = list(net.bus.index)
    kw = dict(verbose=False, calculate_voltage_angles=True)
    if three:
        a = net.asymmetric_load
        s = [f(len(a)) for _ in range(3)]
        asym = tuple((a[c].values * s[k % 3])[None, :] for k, c in enumerate(("p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar")))
        v, i = net.run(P[None, :], Q[None, :], asym, **kw).get_current_and_voltage()
        S = np.zeros((n, 3), dtype=complex)
        for b, p, q in zip(net.load.bus.values, P, Q):
            S[ids.index(b)] += (p + 1j * q) / 3
        for k, b in enumerate(a.bus.values):
            for ph in range(3):
                S[ids.index(b), ph] += asym[ph][0, k] + 1j * asym[3 + ph][0, k]
        S = S.reshape(-1)
        pcc = [3 * ids.index(net.ext_grid.bus.values[0]) + k for k in range(3)]
    else:
        v, i = net.run(P[None, :], Q[None, :], **kw).get_current_and_voltage()
        S = np.zeros(n, dtype=complex)
        for b, p, q in zip(net.load.bus.values, P, Q):
            S[ids.index(b)] += p + 1j * q
        pcc = [ids.index(net.ext_grid.bus.values[0])]
    N.clean_sims(ctx)
    v, i = np.asarray(v)[0], np.asarray(i)[0]
    require(np.all(np.isfinite(v)), what + ": voltages not finite")
    keep = [k for k in range(len(v)) if k not in pcc]
    close((v * np.conj(i))[keep], -S[keep], what + ": power balance", rtol=0, atol=2e-4 if three else 1e-5)
    m = np.abs(v)
    require(m.min() >= lo and m.max() <= hi, "%s: voltages %.4f .. %.4f" % (what, m.min(), m.max()))
    return v


def check(c, ctx):
    import numpy as np
    import pandapower as pp
    from src.simulation import run, run3ph
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation import SimulatedNet
    from src.simulation.simulation_3ph import SimulatedNet3P
    if c["what"] == "cross":
        return cross(ctx)
    name = c["t"]
    bus, lines, three = tables(ctx, name)
    kv = bus[0].baseKV
    if c["what"] == "shipped":
        well_formed(name, bus, lines, three)
        ys = []
        for k in range(2):
            net, b, l = (run3ph if three else run).make_net(name)
            require(net.name == name, "%s: name %r" % (name, net.name))
            contents(net, name, bus, lines, three)
            require(len(b) == len(bus) and len(l) == len(lines), "%s: tables returned by make_net" % name)
            ys.append(np.asarray(net.make_y_bus()))
        close(ys[0], reference(bus, lines, three, kv), name + ": admittance", rtol=1e-9 if not three else 1e-7)
        exact(ys[1], ys[0], name + ": built a second time")
        v = solve(net, three, lambda n: np.ones(n), name + " nominal", 0.85, 1.01, ctx)
        if name == "ieee_33":        # Baran and Wu: 0.9131 p.u. at bus 18
            k = int(np.argmin(np.abs(v)))
            require(bus[k].id == 18 and abs(abs(v[k]) - 0.9131) < 5e-4, "ieee_33: lowest voltage %.4f at bus %s" % (abs(v[k]), bus[k].id))
        return {"labels": [name, "shipped"], "nontrivial": True}
    rng = np.random.RandomState(c["seed"] % (2 ** 32))
    changed = False
    if c["what"] in ("lines", "both"):
        order = rng.permutation(len(lines))
        root = {b.id: b.id for b in bus}

        def find(i):
            while root[i] != i:
                i = root[i]
            return i
        for k in order:
            l = lines[k]
            a, b = find(l.start_bus), find(l.end_bus)
            s = 1 if a != b else int(rng.rand() < c["extra"])
            root[a] = b
            changed = changed or s != l.status
            l.status = s
    if c["flip"]:
        for l in lines:
            if rng.rand() < 0.5:
                l.start_bus, l.end_bus = l.end_bus, l.start_bus
    ref = reference(bus, lines, three, kv)
    spec = [(l.start_bus, l.end_bus, l.status) for l in lines]
    if c["shuffle"]:
        lines = [lines[k] for k in rng.permutation(len(lines))]
    what = "%s with lines %s" % (name, [(min(f, t), max(f, t)) for f, t, s in spec if not s]) if changed else name
    net = SimulatedNet3P(ieee123_types, bus, lines) if three else SimulatedNet(bus, lines)
    net.name = "pbt30"
    contents(net, what, bus, lines, three)
    heavy = changed or c["what"] != "scale"
    top = (0.3 if heavy else 1.0) * c["scale"]

    def f(n):
        return np.full(n, top) if c["even"] else top * rng.rand(n)
    if heavy:        # the admittance is computed at the nominal loads, which need not be feasible with other lines
        net.load.p_mw *= 0.3
        net.load.q_mvar *= 0.3
        for k in ("p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar"):
            net.asymmetric_load[k] *= 0.3
    close(np.asarray(net.make_y_bus()), ref, what + ": admittance", rtol=1e-9 if not three else 1e-7)
    if heavy:
        top = c["scale"]
    try:
        solve(net, three, f, what + " scaled", 0.8 if heavy else 0.85, 1.02 if heavy or not c["even"] else 1.01, ctx)
    except pp.LoadflowNotConverged:
        raise Violation(what + ": power flow does not converge")
    return {"labels": [name, c["what"], "changed" if changed else "same lines", "even" if c["even"] else "uneven", "scale %g" % c["scale"]],
            "nontrivial": len(bus) >= 5 and (changed or not c["even"])}


def cross(ctx):
    """parts and three-phase versions of a network agree with it"""
    import numpy as np
    from src.simulation import net_templates as t
    edge = lambda l, m=lambda i: i: frozenset((m(l.start_bus), m(l.end_bus)))
    fb, fl, _ = tables(ctx, "bolognani56")
    loads = {b.id: (b.type, b.Pd, b.Qd) for b in fb}
    full = {edge(l): (l.R, l.X, l.length) for l in fl}
    for name, mp in (("bolognani33", t.bolognani_mapping33), ("bolognani21", t.bolognani_mapping21)):
        m = lambda i: mp.get(i, i)
        bus, lines, _ = tables(ctx, name)
        require(len(set(m(b.id) for b in bus)) == len(bus), "%s: mapping not one to one" % name)
        for b in bus:
            require(loads.get(m(b.id)) == (b.type, b.Pd, b.Qd), "%s: bus %s differs from bus %s of the full network" % (name, b.id, m(b.id)))
        for l in lines:
            require(full.get(edge(l, m)) == (l.R, l.X, l.length),
                    "%s: line %s-%s differs from line %s-%s of the full network" % (name, l.start_bus, l.end_bus, m(l.start_bus), m(l.end_bus)))
    for name, other, fac in (("ieee123center", "bolognani56", 0.3e-3), ("cigre_mv_feeder3", "cigre_mv_feeder1", 1.0)):
        bus, lines, _ = tables(ctx, name)
        ob, ol, _ = tables(ctx, other)
        one = {b.id: b for b in ob}
        require(set(one) == set(b.id for b in bus), "%s and %s list different buses" % (name, other))
        for b in bus:
            require(b.type == one[b.id].type, "%s: type of bus %s" % (name, b.id))
            if b.type == 1:
                for k in ("Pd", "Qd"):
                    v = np.asarray(getattr(b, k), dtype=float)
                    v = v.sum() if name == "ieee123center" else v
                    require(np.all(np.abs(v - getattr(one[b.id], k)) < 1e-9), "%s: %s of bus %s is %r, %s has %r" % (name, k, b.id, v, other, getattr(one[b.id], k)))
        le, oe = {edge(l): l.length for l in lines}, {edge(l): l.length for l in ol}
        require(set(le) == set(oe), "%s and %s have different lines" % (name, other))
        for k in le:
            require(abs(le[k] - fac * oe[k]) <= 1e-9, "%s: length of line %s" % (name, sorted(k)))
    for name, types in (("bolognani56", 2), ("bolognani33", 2), ("bolognani21", 1), ("cigre_mv_feeder1", 1)):
        s = set((float("%.4g" % (l.R / l.length)), float("%.4g" % (l.X / l.length))) for l in tables(ctx, name)[1])
        require(len(s) <= types, "%s: impedances per length %s, %d conductor types" % (name, sorted(s), types))
    return {"labels": ["cross"], "nontrivial": True}
