"""C13: single-phase bus admittance matrix."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a connected single-phase network (2..7 buses with arbitrary ids in arbitrary order, PCC anywhere, three "
        "base voltages, parallel lines, lengths, broken extra lines) built by constructor, template, create_line or in "
        "parts, then changed by up to four edits (move, add, drop, lengthen, switch off or on a line) with the matrix checked in between; up to two grid connections. Reference: per-unit sum of the lines in service. Non-trivial: at "
        "least 3 buses, ids not 0..n-1 in order or a broken or parallel line.")
EXAMPLES = {"quick": 500, "thorough": 6000}


def strategy(st):
    @st.composite
    def case(draw):
        d = draw(N.strategy(st, 2, 7, grids=2))
        return {"net": d, "edits": draw(N.edits(st)), "how": draw(st.sampled_from(["ctor", "template", "create_line", "parts", "ybus_net"])),
                "cut": draw(st.integers(0, 6)), "sn": draw(st.sampled_from([1.0, 1.0, 10.0])),
                "weak": [draw(st.integers(0, 9)), draw(st.integers(0, 9)), draw(st.integers(0, 10)), draw(st.integers(0, 5))]}
    return case()


def check(c, ctx):
    import numpy as np
    from src.simulation import net_templates, run
    from src.simulation.network import NetData
    from src.simulation.simulation import SimulatedNet
    d, how = c["net"], c["how"]
    ids = [b["id"] for b in d["buses"]]
    kv = d["buses"][0]["kv"]
    ref = N.y_ref(d)
    bd, ld = N.bus_data(d, scale=0.1), N.line_data(d)
    if how == "ctor":
        net = NetData(bd, ld)
    elif how in ("template", "ybus_net"):
        net_templates.pbt_bus, net_templates.pbt_net = bd, ld
        net, b2, l2 = run.make_net("pbt", None if how == "template" else ref)
        require(b2 is bd or list(b2) == list(bd), "make_net returns the template's buses")
        require(net.name == "pbt", "make_net names the network")
    elif how == "create_line":
        net = NetData(bd)
        for l in d["lines"]:
            if l["s"]:
                require(net.create_line(l["f"], l["t"], l["r"] * kv * kv, l["x"] * kv * kv, l["l"]) is net, "create_line returns the network")
    else:
        net = SimulatedNet()
        k = c["cut"] % (len(bd) + 1)
        require(net.create_buses(bd[:k]) is net, "create_buses returns the network")
        net.create_buses(bd[k:])
        m = c["cut"] % (len(ld) + 1)
        net.create_lines(ld[:m])
        net.create_lines(ld[m:])
    require(list(net.bus.index) == ids, "buses %r, expected %r" % (list(net.bus.index), ids))
    require(len(net.line) == (sum(l["s"] for l in d["lines"]) if how != "ybus_net" else int(np.count_nonzero(np.triu(ref, 1)))), "%d lines" % len(net.line))
    if c["sn"] != 1.0:
        net.sn_mva = c["sn"]
    ref = ref / c["sn"]
    before = N.snapshot(net)
    y = np.asarray(net.make_y_bus())
    close(y, ref, "admittance matrix (%s)" % how, rtol=1e-9)
    N.same_snapshot(before, N.snapshot(net), "make_y_bus", require)
    close(y, y.T, "symmetric", rtol=1e-12)
    close(y.sum(1), np.zeros(len(ids)), "zero row sums", rtol=1e-10, scale=float(np.max(np.abs(y))))
    # rebuilt from its own matrix
    net2 = NetData(bd)
    net2.sn_mva = c["sn"]
    yin = y.copy()
    require(net2.create_lines_from_ybus(yin) is net2, "create_lines_from_ybus returns the network")
    exact(yin, y, "matrix given to create_lines_from_ybus unchanged")
    close(np.asarray(net2.make_y_bus()), y, "admittance of the network rebuilt from the matrix", rtol=1e-9)
    # a matrix with one connection more, weak, capacitive or as left by a reduction: every nonzero entry is a line
    n = len(ids)
    i, j, k, a = (c.get("weak", [0, 0, 2]) + [0])[:4]
    i, j = i % n, j % n
    if i != j and y[i, j] == 0:
        g = [1.0 - 2.0j, 1.0 - 2.0j, 0.5 + 1.0j, -0.2 - 1.0j, -1.0j, 1.0][a] * 10.0 ** -k * (1.0 if k % 2 else float(np.max(np.abs(y))))
        yin[i, j] -= g
        yin[j, i] -= g
        yin[i, i] += g
        yin[j, j] += g
        net3 = NetData(N.bus_data(d, scale=0.0))
        net3.sn_mva = c["sn"]
        y3 = np.asarray(net3.create_lines_from_ybus(yin).make_y_bus())
        close(y3, yin, "admittance of the network rebuilt from the matrix with a weak line", rtol=1e-9)
        require(abs(y3[i, j] + g) <= 1e-6 * abs(g) and abs(y3[j, i] + g) <= 1e-6 * abs(g),
                "weak line %g is %g in the rebuilt network" % (abs(g), abs(y3[i, j])))
    # a history of edits: the matrix always describes the present lines
    d3, tab = d, N.line_table(d, net) if how != "ybus_net" else []
    done = 0
    for k, op in enumerate(c.get("edits", []) if tab else []):
        d4, tab = N.apply_edit(d3, net, tab, op, lambda l: net.create_line(l["f"], l["t"], l["r"] * kv * kv, l["x"] * kv * kv, l["l"]))
        changed = d4 is not d3
        done += changed
        d3 = d4
        if changed:
            close(np.asarray(net.make_y_bus()), N.y_ref(d3) / c["sn"], "admittance matrix after edit %d (%s)" % (k + 1, op[0]), rtol=1e-9)
    n = len(ids)
    lines = [tuple(sorted((l["f"], l["t"]))) for l in d["lines"] if l["s"]]
    par, broken = len(set(lines)) < len(lines), any(not l["s"] for l in d["lines"])
    labels = [how, "n=%d" % n, "kv=%g" % kv] + (["parallel"] if par else []) + (["broken"] if broken else []) + (["edited"] if done else [])
    return {"labels": labels, "nontrivial": n >= 3 and (ids != list(range(n)) or par or broken)}
