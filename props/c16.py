"""C16: stateful network edits and passive nodes."""
from pbt.common import *

RULE = ("A case is a history of up to 14 operations (create_bus(es), create_line(s), remove_bus(es), remove_line(s), change of "
        "a load, a pandapower load added under its own index, one opposite to another load of its bus) on a single- or three-phase network, optionally wrapped "
        "around an existing pandapower net. After every operation tables and passive nodes are compared with a dictionary "
        "model. Non-trivial: at least one removal that removes something that was connected and 4 operations.")
EXAMPLES = {"quick": 800, "thorough": 8000}


def strategy(st):
    P = st.sampled_from([0.0, 0.0, 0.25, 0.5, -0.125])

    def bus(three):
        pq = st.one_of(st.tuples(P, P).map(list), st.tuples(st.lists(P, min_size=3, max_size=3), st.lists(P, min_size=3, max_size=3)).map(list)) if three else st.tuples(P, P).map(list)
        return st.tuples(st.integers(0, 15), st.sampled_from([1, 1, 1, 3, 2]), pq)

    @st.composite
    def case(draw):
        three = draw(st.booleans())
        B, L = bus(three), st.tuples(st.integers(0, 20), st.integers(0, 20), st.sampled_from([1, 1, 0]))
        op = st.one_of(
            st.tuples(st.just("buses"), st.lists(B, min_size=1, max_size=5)), st.tuples(st.just("bus"), B),
            st.tuples(st.just("lines"), st.lists(L, min_size=1, max_size=5)), st.tuples(st.just("line"), L),
            st.tuples(st.just("rm_bus"), st.integers(0, 20)), st.tuples(st.just("rm_buses"), st.lists(st.integers(0, 20), max_size=4)),
            st.tuples(st.just("rm_line"), st.integers(0, 20)), st.tuples(st.just("rm_lines"), st.lists(st.integers(0, 20), max_size=4)),
            st.tuples(st.just("load"), st.integers(0, 20), P, P, st.integers(0, 2)),
            st.tuples(st.just("pp_load"), st.integers(0, 20), P, P), st.tuples(st.just("opposite"), st.integers(0, 20)))
        return {"three": three, "other": draw(st.booleans()),
                "ops": [["buses", draw(st.lists(B, min_size=2, max_size=6))], ["lines", draw(st.lists(L, min_size=1, max_size=8))]]
                + draw(st.lists(op, max_size=12))}
    return case()


def check(c, ctx):
    import numpy as np
    import pandapower as pp
    from src.simulation.load_profile import BusData
    from src.simulation.lines import LineData
    from src.simulation.network import NetData
    from src.simulation.network_3ph import NetData3P
    from src.simulation.net_templates_3ph import ieee123_types
    three = c["three"]
    other = None
    buses, lines, eg = {}, {}, []          # id -> list of loads (p, q) or ((p3), (q3)); line index -> (f, t); grid buses
    loads = {}                             # (table, index) -> [bus, p(3), q(3)]
    if c["other"]:
        other = pp.create_empty_network("other")
        pp.create_bus(other, 4.16, name="90", index=90)
        pp.create_bus(other, 4.16, name="91", index=91)
        i = pp.create_load(other, 91, 0.5, 0.25)
        buses.update({90: 4.16, 91: 4.16})
        loads[("load", int(i))] = [91, [0.5] * 3, [0.25] * 3]
    net = NetData3P(ieee123_types, [], [], other) if three else NetData([], [], other)
    removed = 0
    zi = {}                                # load index -> percentages of constant impedance and current

    def data(b):
        return BusData(b[0], b[1], b[2][0] if not isinstance(b[2][0], list) else tuple(b[2][0]),
                       b[2][1] if not isinstance(b[2][1], list) else tuple(b[2][1]), kv=[4.16, 20.0][b[0] % 2], z_perc=[0, 30, 100][b[0] % 3], i_perc=[20, 40, 0][b[0] % 3])

    def usable(bs):
        out, seen = [], set(buses)
        for b in bs:
            if b[0] not in seen and (not b[1] == 3 or not isinstance(b[2][0], list)):
                seen.add(b[0])
                out.append(b)
        return out

    def added(bs):
        for b in bs:
            buses[b[0]] = [4.16, 20.0][b[0] % 2]
            if b[1] == 3:
                eg.append(b[0])
                loads[("load", b[0])] = [b[0], [0.0] * 3, [0.0] * 3]
            elif b[1] == 1:
                p, q = b[2]
                if isinstance(p, list):
                    loads[("asymmetric_load", b[0])] = [b[0], list(p), list(q)]
                else:
                    loads[("load", b[0])] = [b[0], [p] * 3, [q] * 3]
                    zi[b[0]] = ([0, 30, 100][b[0] % 3], [20, 40, 0][b[0] % 3])

    def free_load(bs):
        return [b for b in bs if ("load", b[0]) not in loads and ("asymmetric_load", b[0]) not in loads]

    def ends(l):
        k = sorted(buses)
        if len(k) < 2:
            return None
        f, t = k[l[0] % len(k)], k[l[1] % len(k)]
        return None if f == t else (f, t)

    def new_lines(pairs, before):
        now = [int(i) for i in net.line.index]
        new = [i for i in now if i not in before]
        require(len(new) == len(pairs), "%d lines appeared, %d were created" % (len(new), len(pairs)))
        for i, (f, t) in zip(new, pairs):
            lines[i] = (min(f, t), max(f, t))

    def drop_bus(bs):
        for b in bs:
            buses.pop(b)
            while b in eg:
                eg.remove(b)
        for k in [k for k, v in loads.items() if v[0] in bs]:
            loads.pop(k)
            zi.pop(k[1], None) if k[0] == "load" else None
        for k in [k for k, v in lines.items() if v[0] in bs or v[1] in bs]:
            lines.pop(k)

    def verify(what):
        require(sorted(int(i) for i in net.bus.index) == sorted(buses), "%s: buses %r, expected %r" % (what, sorted(net.bus.index), sorted(buses)))
        for b in buses:
            require(net.bus.vn_kv[b] == buses[b] and net.bus.name[b] == str(b), "%s: bus %d is %r" % (what, b, dict(net.bus.loc[b])))
        got = {int(i): (min(int(f), int(t)), max(int(f), int(t))) for i, f, t in zip(net.line.index, net.line.from_bus, net.line.to_bus)}
        require(got == lines, "%s: lines %r, expected %r" % (what, got, lines))
        require(sorted(int(b) for b in net.ext_grid.bus) == sorted(eg), "%s: external grids %r, expected %r" % (what, list(net.ext_grid.bus), eg))
        have = {}
        for i in net.load.index:
            have[("load", int(i))] = [int(net.load.bus[i]), [float(net.load.p_mw[i])] * 3, [float(net.load.q_mvar[i])] * 3]
        for i in net.asymmetric_load.index:
            a = net.asymmetric_load.loc[i]
            have[("asymmetric_load", int(i))] = [int(a.bus), [float(a.p_a_mw), float(a.p_b_mw), float(a.p_c_mw)], [float(a.q_a_mvar), float(a.q_b_mvar), float(a.q_c_mvar)]]
        require(have == loads, "%s: loads %r, expected %r" % (what, have, loads))
        for i in net.load.index:
            got_zi = (float(net.load.const_z_percent[i]), float(net.load.const_i_percent[i]))
            require(got_zi == zi.get(int(i), (0, 0)), "%s: load %d has %r percent of constant impedance and current, expected %r" % (what, i, got_zi, zi.get(int(i), (0, 0))))
        pas = net.give_passive_nodes()
        require(len(pas) == 3, "%s: %d phases" % (what, len(pas)))
        for ph in range(3):
            want = [int(b) for b in net.bus.index if b not in eg and
                    not any(v[0] == b and (v[1][ph] != 0 or v[2][ph] != 0) for v in loads.values())]
            require([int(b) for b in pas[ph]] == want, "%s: passive nodes of phase %d are %r, expected %r" % (what, ph, list(pas[ph]), want))

    verify("empty network")
    for k, op in enumerate(c["ops"]):
        name, what = op[0], "operation %d (%s)" % (k + 1, op[0])
        before = [int(i) for i in net.line.index]
        if name in ("bus", "buses"):
            bs = free_load(usable([op[1]] if name == "bus" else op[1]))
            if name == "buses":
                require(net.create_buses([data(b) for b in bs]) is net, what + " returns the network")
            elif bs:
                b = data(bs[0])
                require(net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, b.Z, b.I) is net, what + " returns the network")
            added(bs)
        elif name in ("line", "lines"):
            pairs = [(ends(l), l[2]) for l in ([op[1]] if name == "line" else op[1])]
            pairs = [(e, s) for e, s in pairs if e]
            if name == "line":
                for e, s in pairs:
                    net.create_line(e[0], e[1], 0.3, "OG3") if three else net.create_line(e[0], e[1], 0.1, 0.2, 0.5)
                new_lines([e for e, s in pairs], before)
            else:
                ld = [LineData(e[0], e[1], 0.5, "OG3", 0.1, 0.2, s=s) for e, s in pairs]
                require(net.create_lines(ld) is net, what + " returns the network")
                new_lines([e for e, s in pairs if s], before)
        elif name == "rm_bus" and buses:
            b = sorted(buses)[op[1] % len(buses)]
            removed += any(b in v for v in lines.values())
            net.remove_bus(b)
            drop_bus([b])
        elif name == "rm_buses" and buses:
            bs = sorted({sorted(buses)[i % len(buses)] for i in op[1]})
            removed += any(set(bs) & set(v) for v in lines.values())
            net.remove_buses(bs)
            drop_bus(bs)
        elif name == "rm_line" and lines:
            l = sorted(lines)[op[1] % len(lines)]
            removed += 1
            net.remove_line(l)
            lines.pop(l)
        elif name == "rm_lines" and lines:
            ls = sorted({sorted(lines)[i % len(lines)] for i in op[1]})
            removed += len(ls) > 0
            net.remove_lines(ls)
            for l in ls:
                lines.pop(l)
        elif name == "load" and loads:
            key = sorted(loads)[op[1] % len(loads)]
            v = loads[key]
            if key[0] == "load":
                net.load.loc[key[1], "p_mw"], net.load.loc[key[1], "q_mvar"] = op[2], op[3]
                v[1], v[2] = [op[2]] * 3, [op[3]] * 3
            else:
                ph = op[4]
                net.asymmetric_load.loc[key[1], "p_%s_mw" % "abc"[ph]] = op[2]
                net.asymmetric_load.loc[key[1], "q_%s_mvar" % "abc"[ph]] = op[3]
                v[1][ph], v[2][ph] = op[2], op[3]
        elif name == "pp_load" and buses:
            b = sorted(buses)[op[1] % len(buses)]
            i = int(pp.create_load(net, b, op[2], op[3], index=40 + k))
            loads[("load", i)] = [b, [op[2]] * 3, [op[3]] * 3]
        elif name == "opposite" and [k for k in loads if k[0] == "load"]:       # generation as large as the load of the same bus
            v = loads[sorted(k for k in loads if k[0] == "load")[op[1] % len([k for k in loads if k[0] == "load"])]]
            i = int(pp.create_load(net, v[0], -v[1][0], -v[2][0], index=60 + k))
            loads[("load", i)] = [v[0], [-v[1][0]] * 3, [-v[2][0]] * 3]
        verify(what)
    return {"labels": ["three" if three else "single", "other" if c["other"] else "new", "ops=%d" % min(len(c["ops"]), 8), "removals=%d" % min(removed, 3)],
            "nontrivial": removed > 0 and len(c["ops"]) >= 4}
