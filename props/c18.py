"""C18: three-phase power flow simulation."""
from pbt.common import *
from props import _net as N

RULE = ("A case is a three-phase network (2..5 buses, arbitrary ids and order, PCC anywhere, symmetric and asymmetric "
        "loads) and a history of 1..2 runs with load series of 1..3 steps, each load and phase with its own random factor. "
        "Oracle: power balance per bus and phase with the description's own phase admittance. Non-trivial: at least 3 "
        "buses, 2 steps, an unbalanced load and a voltage drop above 1e-4.")
EXAMPLES = {"quick": 220, "thorough": 2400}


def strategy(st):
    @st.composite
    def case(draw):
        d = draw(N.strategy(st, 2, 5, three=True, kvs=(4.16, 20.0), extra=2, neg=True))
        n = len(d["buses"])
        runs = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            t = draw(st.integers(1, 3))
            runs.append({"t": t, "f": draw(blob(st, 8 * t * n)), "kind": draw(st.sampled_from(["scaled", "free", "free", "same"]))})
        return {"net": d, "runs": runs, "via": draw(st.sampled_from(["run", "run", "simulate_net"])), "sub": draw(st.booleans())}
    return case()


def check(c, ctx):
    import os
    import shutil
    import numpy as np
    from pathlib import Path
    from src.simulation import run3ph as R
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation_3ph import SimulatedNet3P
    d = c["net"]
    ids = [b["id"] for b in d["buses"]]
    n = len(ids)
    sc = 0.02
    net = SimulatedNet3P(ieee123_types, N.bus_data(d, scale=sc), N.line_data(d, True))
    net.name = "pbt18"
    yl = N.y3_ref(d, ieee123_types)[0]
    pcc = [k for k, b in enumerate(d["buses"]) if b["t"] == 3]
    lid, aid = [int(i) for i in net.load.index], [int(i) for i in net.asymmetric_load.index]
    require(sorted(lid + aid) == sorted(ids), "harness: one load per bus")
    lpos, apos = [ids.index(i) for i in lid], [ids.index(i) for i in aid]
    out = Path(ctx.tmp) / "sim18"
    require(net.get_current_and_voltage() == (None, None), "results before any run")
    y = np.asarray(net.make_y_bus())
    drop, steps, unbal = 0.0, 0, False
    names = ["p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar"]
    for k, r in enumerate(c["runs"]):
        what, t = "run %d" % (k + 1), r["t"]
        f = reals(r["f"]).reshape(8, t, n) / 8.0
        nom = [net.load.p_mw.values, net.load.q_mvar.values]
        anom = [net.asymmetric_load[v].values for v in names]
        if r["kind"] == "scaled":
            lp, lq = nom[0] * (1 + f[0][:, :len(lid)]), nom[1] * (1 + f[1][:, :len(lid)])
            asym = [a * (1 + f[2 + m][:, :len(aid)]) for m, a in enumerate(anom)]
        elif r["kind"] == "same":
            lp, lq = np.tile(nom[0], (t, 1)), np.tile(nom[1], (t, 1))
            asym = [np.tile(a, (t, 1)) for a in anom]
        else:
            lp, lq = sc * f[0][:, :len(lid)], sc * f[1][:, :len(lid)]
            asym = [sc * f[2 + m][:, :len(aid)] for m in range(6)]
        asym = tuple(asym)
        if not aid:
            asym = None if c["via"] == "run" else asym
        before = N.snapshot(net)
        keep = [lp.copy(), lq.copy()] + [a.copy() for a in (asym or ())]
        if c["via"] == "run":
            require(net.run(lp, lq, asym, output_path=out, verbose=False) is net, "run returns the network")
            v, i = net.get_current_and_voltage()
        else:
            v, i, yb = R.simulate_net(net, lp, lq, asym, verbose=False)
            exact(np.asarray(yb), y, "admittance returned by simulate_net")
            v2, i2, y2 = R.simulate_net(net, None, None, None, verbose=False)
            exact(v2, v, "voltages read back")
            exact(i2, np.asarray(i), "currents read back")
            exact(y2, y, "admittance read back")
        v, i = np.asarray(v), np.asarray(i)
        N.same_snapshot(before, N.snapshot(net), what, require)
        for a, b in zip(keep, [lp, lq] + list(asym or ())):
            exact(b, a, "loads unchanged")
        require(v.shape == (t, 3 * n), "%s: voltages of shape %r for %d steps and %d buses" % (what, v.shape, t, n))
        close(i, v @ y, what + ": currents are the admittance applied to the voltages", rtol=1e-9, scale=float(np.max(np.abs(y))))
        a = np.exp(-2j * np.pi / 3)
        for b in pcc:
            close(v[:, 3 * b:3 * b + 3], np.tile([1, a, a * a], (t, 1)), what + ": voltage of the grid connection", rtol=0, atol=3e-4)
        S = np.zeros((t, n, 3), dtype=complex)
        for m, b in enumerate(lpos):
            S[:, b, :] += ((lp[:, m] + 1j * lq[:, m]) / 3.0)[:, None]
        if asym is not None:
            for m, b in enumerate(apos):
                for ph in range(3):
                    S[:, b, ph] += asym[ph][:, m] + 1j * asym[3 + ph][:, m]
        inj = (v * np.conj(v @ yl)).reshape(t, n, 3)
        o = [b for b in range(n) if b not in pcc]
        close(inj[:, o], -S[:, o], what + ": power balance per phase", rtol=0, atol=2e-6)
        drop = max(drop, float(np.max(np.abs(np.abs(v) - 1))))
        steps = max(steps, t)
        unbal = unbal or float(np.max(np.abs(S - S.mean(2, keepdims=True)))) > 1e-4
        if c["sub"] and t > 1 and k == 0:
            perm = list(range(t))[::-1][:t - 1]
            other = SimulatedNet3P(ieee123_types, N.bus_data(d, scale=sc), N.line_data(d, True))
            w = np.asarray(other.run(lp[perm], lq[perm], None if asym is None else tuple(x[perm] for x in asym),
                                     output_path=out, verbose=False).get_current_and_voltage()[0])
            close(w, v[perm], what + ": steps simulated in another order", rtol=0, atol=1e-6)
    shutil.rmtree(str(out), ignore_errors=True)
    for e in os.listdir(str(ctx.conf.SIM_DIR)):
        if e.startswith("sim_2"):
            shutil.rmtree(str(ctx.conf.SIM_DIR / e), ignore_errors=True)
    return {"labels": [c["via"], "n=%d" % n, "runs=%d" % len(c["runs"]), "steps=%d" % steps, "asym" if aid else "symmetric only",
                       "unbalanced" if unbal else "balanced"],
            "nontrivial": n >= 3 and steps >= 2 and unbal and drop > 1e-4}
