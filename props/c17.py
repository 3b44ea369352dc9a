"""C17: single-phase power flow simulation."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a network (2..6 buses, arbitrary ids and order, PCC anywhere with set point 1 pu, constant power, impedance "
        "or current shares, parallel and broken lines) and a history of 1..2 runs with load series of 1..4 steps "
        "(per-step random factors, possibly negative or zero, also a load on the PCC). Oracle: power balance with the "
        "description's own admittance matrix. Non-trivial: at least 3 buses, 2 different steps and a voltage drop above 1e-4.")
EXAMPLES = {"quick": 320, "thorough": 3000}


def strategy(st):
    @st.composite
    def case(draw):
        d = draw(N.strategy(st, 2, 6, zi=True, neg=True))
        n = len(d["buses"])
        runs = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            t = draw(st.integers(1, 4))
            runs.append({"t": t, "f": draw(blob(st, 2 * t * n)), "kind": draw(st.sampled_from(["scaled", "free", "free", "same"]))})
        return {"net": d, "runs": runs, "via": draw(st.sampled_from(["run", "run", "simulate_net"])),
                "sub": draw(st.booleans()), "setp": draw(st.sampled_from([1.0, 1.0, 1.02]))}
    return case()


def check(c, ctx):
    import os
    import shutil
    import numpy as np
    from pathlib import Path
    from src.simulation import run as R
    from src.simulation.simulation import SimulatedNet
    d = c["net"]
    ids = [b["id"] for b in d["buses"]]
    n = len(ids)
    net = SimulatedNet(N.bus_data(d, scale=0.05), N.line_data(d))
    net.name = "pbt17"
    net.ext_grid["vm_pu"] = c["setp"]
    yl = N.y_ref(d)
    pcc = [k for k, b in enumerate(d["buses"]) if b["t"] == 3]
    z = np.array([b.get("z", 0) for b in d["buses"]]) / 100.0
    ci = np.array([b.get("i", 0) for b in d["buses"]]) / 100.0
    lid = [int(i) for i in net.load.index]
    require(sorted(lid) == sorted(ids), "harness: one load per bus")
    pos = [ids.index(i) for i in lid]
    out = Path(ctx.tmp) / "sim17"
    drop, steps = 0.0, 0
    require(net.get_current_and_voltage() == (None, None), "results before any run")
    y = np.asarray(net.make_y_bus())
    close(y - np.diag(np.diag(y)), yl - np.diag(np.diag(yl)), "mutual admittances", rtol=1e-9)
    for k, r in enumerate(c["runs"]):
        what, t = "run %d" % (k + 1), r["t"]
        f = reals(r["f"]).reshape(2, t, n) / 8.0                      # (-1, 1)
        nom = np.array([[net.load.p_mw[i] for i in lid], [net.load.q_mvar[i] for i in lid]])
        if r["kind"] == "scaled":
            lp, lq = nom[0] * (1 + f[0][:, :1]), nom[1] * (1 + f[0][:, :1])
        elif r["kind"] == "same":
            lp, lq = np.tile(nom[0], (t, 1)), np.tile(nom[1], (t, 1))
        else:
            lp, lq = 0.05 * f[0], 0.05 * f[1]
        before = N.snapshot(net)
        lp0, lq0 = lp.copy(), lq.copy()
        if c["via"] == "run":
            require(net.run(lp, lq, output_path=out, verbose=False) is net, "run returns the network")
            v, i = net.get_current_and_voltage()
        else:
            v, i, yb = R.simulate_net(net, lp, lq, verbose=False)
            exact(np.asarray(yb), y, "admittance returned by simulate_net")
            v2, i2, y2 = R.simulate_net(net, None, None, verbose=False)
            exact(v2, v, "voltages read back")
            exact(i2, np.asarray(i), "currents read back")
            exact(y2, y, "admittance read back")
        v, i = np.asarray(v), np.asarray(i)
        N.same_snapshot(before, N.snapshot(net), what, require)
        exact(lp, lp0, "active loads unchanged")
        exact(lq, lq0, "reactive loads unchanged")
        require(v.shape == (t, n), "%s: voltages of shape %r for %d steps and %d buses" % (what, v.shape, t, n))
        close(i, v @ y, what + ": currents are the admittance applied to the voltages", rtol=1e-9, scale=float(np.max(np.abs(y))))
        close(v[:, pcc], c["setp"] * np.ones((t, len(pcc))), what + ": voltage of the grid connection", rtol=1e-9)
        P, Q = np.zeros((t, n)), np.zeros((t, n))
        P[:, pos], Q[:, pos] = lp, lq
        vm = np.abs(v)
        s = (P + 1j * Q) * ((1 - z - ci) + ci * vm + z * vm ** 2)
        inj = v * np.conj(v @ yl)
        o = [k for k in range(n) if k not in pcc]
        close(inj[:, o], -s[:, o], what + ": power balance", rtol=0, atol=2e-7)
        drop = max(drop, float(np.max(np.abs(v - c["setp"]))))
        steps = max(steps, t)
        if c["sub"] and t > 1 and k == 0:
            perm = list(range(t))[::-1][:t - 1]
            other = SimulatedNet(N.bus_data(d, scale=0.05), N.line_data(d))
            other.ext_grid["vm_pu"] = c["setp"]
            w = np.asarray(other.run(lp[perm], lq[perm], output_path=out, verbose=False).get_current_and_voltage()[0])
            close(w, v[perm], what + ": steps simulated in another order", rtol=0, atol=1e-7)
    shutil.rmtree(str(out), ignore_errors=True)
    for e in os.listdir(str(ctx.conf.SIM_DIR)):
        if e.startswith("sim_2"):
            shutil.rmtree(str(ctx.conf.SIM_DIR / e), ignore_errors=True)
    zi = ["Z"] * bool(np.any(z)) + ["I"] * bool(np.any(ci))
    return {"labels": [c["via"], "n=%d" % n, "runs=%d" % len(c["runs"]), "steps=%d" % steps] + zi, "nontrivial": n >= 3 and steps >= 2 and drop > 1e-4}
