"""P09: results do not depend on arbitrary choices in the description of the same states."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, su2, rotation_matrix
from ..gen import *
from ..states import random_unitary, box_planewaves, Potential
from ..writers import Calc, KP, write_wfk, write_qe, write_wavecar, write_poscar, write_w90

RULE = ("A calculation and a second description of the same states (phases and norms, unitary mixing of degenerate states, order "
        "of plane waves, equivalent k points; or another primitive cell, origin and orientation) are both read and everything "
        "reported is compared. Non-trivial: a k point has at least two operations, or the path at least three points.")
ASSUMPTIONS = ["results compared within the single precision of VASP files"]

MODES = ["phase", "mix", "order", "kshift"]


def eq_st():
    return st.tuples(calc_st(kpts=(1, 3)), st.lists(st.sampled_from(MODES), min_size=1, max_size=4, unique=True), ints(0, 10 ** 6),
                     st.booleans(), ints(0, 2)
                     ).map(lambda t: {**t[0], "modes": t[1], "mseed": t[2], "match": t[3], "super": t[4]})


def transform(calc, modes, rng, thresh, path=False):
    """-> another description of the same calculation"""
    out = []
    for kp in calc.kpts:
        k, G, C, E = kp.k.copy(), kp.G.copy(), kp.C.copy(), kp.E.copy()
        if "mix" in modes:
            for a, b in sets_of(E, thresh):
                # levels of one set may differ by less than the threshold: mix equal ones only
                e = E[a:b]
                for x in np.unique(e):
                    i = a + np.where(e == x)[0]
                    C[i] = random_unitary(len(i), rng) @ (C[i] / np.linalg.norm(C[i], axis=1)[:, None])
        if "phase" in modes:
            C = C * (np.exp(2j * np.pi * rng.random(len(C))) * 10 ** rng.uniform(-2, 2, len(C)))[:, None]
        if "order" in modes:
            o = rng.permutation(len(G))
            G = G[o]
            C = C[:, np.concatenate([o, o + len(o)]) if calc.spinor else o]
        if "kshift" in modes:
            g = rng.integers(-1, 2, 3)
            k, G = k + g, G - g
        out.append(KP(k, G, C, E))
    return Calc(calc.Lattice, calc.positions, calc.typat, calc.Ecut, out, calc.spinor, calc.EF)


def write_as(calc, code, tag):
    if code == "abinit":
        write_wfk(tag + "_WFK", calc)
        return dict(code=code, fWFK=tag + "_WFK")
    if code == "espresso":
        write_qe(tag, calc)
        return dict(code=code, prefix=tag)
    if code == "vasp":
        write_poscar(tag + "_POSCAR", calc.Lattice, calc.positions, calc.typat)
        write_wavecar(tag + "_WAVECAR", calc)
        return dict(code=code, fPOS=tag + "_POSCAR", fWAV=tag + "_WAVECAR", spinor=calc.spinor)
    import os
    os.makedirs(tag, exist_ok=True)
    os.chdir(tag)
    write_w90(tag, calc, extra=len(tag))
    return dict(code=code, prefix=tag, Ecut=calc.Ecut)


def irreps_equal(a, b, what):
    for x, y in zip(a, b):
        check(set(x) == set(y), "{}: irreps {} and {}", what, x, y)
        for nm in x:
            check(abs(x[nm] - y[nm]) < 2e-3, "{}: multiplicity of {}: {} and {}", what, nm, x[nm], y[nm])


SUPER = [np.diag([1, 2, 1]), np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]), np.array([[2, 0, 0], [0, 1, 0], [1, 0, 2]])]


def run_eq(case, note):
    crys = Crystal(case["crystal"])
    kw = {}
    if case["match"]:
        crys.require_number()
        kw["search_cell"] = True
    calc = build_calc(case, crys)
    rng = np.random.default_rng(case["mseed"])
    other = transform(calc, case["modes"], rng, 1e-3)
    res = []
    for tag, c in (("a", calc), ("bb", other)):
        import os
        here = os.getcwd()
        args = write_as(c, case["code"], tag)
        res.append(run_bs(args, degen_thresh=1e-3, **kw))
        os.chdir(here)
    A, B = res
    lab = "+".join(sorted(case["modes"]))
    # the sign of a spin rotation of an operation is not defined by the crystal alone
    for X, Y, kp in zip(A.kpoints, B.kpoints, calc.kpts):
        ia, ib = [s.ind for s in X.little_group], [s.ind for s in Y.little_group]
        check(ia == ib, "{}: little group {} and {}", lab, ia, ib)
        close(np.asarray(X.Energy_mean), np.asarray(Y.Energy_mean), 1e-7, lab + ": energies")
        check(list(X.degeneracies) == list(Y.degeneracies), "{}: degeneracies {} and {}", lab, X.degeneracies, Y.degeneracies)
        close(np.asarray(X.char), np.asarray(Y.char), 4e-4, lab + ": characters")
        close(np.asarray(X.char_refUC), np.asarray(Y.char_refUC), 4e-4, lab + ": characters in the reference cell")
        if whole_parity(X):
            check(X.num_bandinvs == Y.num_bandinvs, "{}: odd states {} and {}", lab, X.num_bandinvs, Y.num_bandinvs)
        # unfolding onto a primitive cell (groups of states as degenerate sets)
        sc = SUPER[case["super"]]
        kp_ = (X.k + rng.integers(-2, 3, 3)) @ np.linalg.inv(sc.T)
        u, v = X.unfold(sc, kp_, 1e-3), Y.unfold(sc, kp_, 1e-3)
        close(u, v, 4e-4, lab + ": unfolding")
        note.nontrivial(len(ia) > 1 and any(d > 1 for d in X.degeneracies))
    if all(whole_parity(X) for X in A.kpoints):
        check(A.num_bandinvs == B.num_bandinvs, "{}: total of odd states", lab)
    for m in case["modes"]:
        note(m)
    note(case["code"])


# --------------------------------------------------- irreps at tabulated k points
def irr_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), ik=ints(0, 40), code=st.sampled_from(CODES), npw=ints(14, 50), sets=ints(1, 8),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), e0=ints(-8, 8).map(float), kind=st.just("sym"), cseed=ints(0, 10 ** 6),
        modes=st.lists(st.sampled_from(MODES), min_size=1, max_size=4, unique=True), mseed=ints(0, 10 ** 6),
        b=crystal_st()))


def to_cell(calc, ca, cb):
    """the same physical states described in the cell, origin and orientation of cb"""
    out = []
    AaT, AbT = ca.A.T, cb.A.T
    M = AbT @ np.linalg.inv(AaT)
    U = su2(rotation_matrix(cb.rot) @ rotation_matrix(ca.rot).T)
    for kp in calc.kpts:
        k = M @ kp.k
        K = (kp.G + kp.k) @ M.T
        Kc = (kp.G + kp.k) @ np.linalg.inv(AaT).T            # conventional coordinates
        G = np.round(K - k).astype(int)
        assert np.abs(K - k - G).max() < 1e-6
        ph = np.exp(2j * np.pi * Kc @ (cb.s - ca.s))
        n = len(G)
        if calc.spinor:
            up, dn = kp.C[:, :n] * ph, kp.C[:, n:] * ph
            C = np.hstack([U[0, 0] * up + U[0, 1] * dn, U[1, 0] * up + U[1, 1] * dn])
        else:
            C = kp.C * ph
        out.append(KP(k, G, C, kp.E))
    return Calc(cb.Lattice, cb.positions, cb.typat, calc.Ecut, out, calc.spinor, calc.EF)


def ref_char(bs, K):
    """characters of the tabulated operations (char_refUC is char itself if the cells coincide)"""
    sg = bs.spacegroup
    if not (np.allclose(sg.refUC, np.eye(3)) and np.allclose(sg.shiftUC, 0)):
        return np.asarray(K.char_refUC)
    out = np.array(K.char)
    for i, s in enumerate(K.little_group):
        dt = sg.symmetries_tables[s.ind - 1].t - s.translation
        out[:, i] *= s.sign * np.exp(-2j * np.pi * dt @ K.k)
    return out


def run_cell(case, note):
    """another primitive cell, origin and orientation, reference cell given in both"""
    ca = Crystal(case["crystal"])
    ca.rot = case["crystal"]["rot"]
    cb = Crystal({**case["b"], **{x: case["crystal"][x] for x in ("sg", "metric", "xseed")}})
    cb.rot = case["b"]["rot"]
    ca.require_number()
    cb.require_number()
    T = table(ca.n, case["spinor"])
    ik = case["ik"] % len(T.kpoints)
    name = T.kpoints[ik][0]
    ks = [ca.k_dft(T.kx[ik])]
    if ik % 2:
        ks.append(ca.k_dft([.1, .2, .3]) if ik % 4 == 1 else ca.k_dft([.5, .5, .13]))
    calc = build_calc(case, ca, kdft=ks)
    rng = np.random.default_rng(case["mseed"])
    other = transform(to_cell(calc, ca, cb), case["modes"], rng, 1e-3)
    import os
    here = os.getcwd()
    R = []
    for tag, c, cr in (("a", calc, ca), ("bb", other, cb)):
        inv = np.linalg.inv(cr.A)
        args = write_as(c, case["code"], tag)
        bs = run_bs(args, degen_thresh=1e-3, search_cell=True, refUC=inv.T, shiftUC=-inv @ cr.s)
        os.chdir(here)
        bs.kpoints[0].identify_irreps(bs.spacegroup.get_irreps_from_table(name, bs.kpoints[0].k))
        R.append(bs)
    A, B = R
    for X, Y in zip(A.kpoints, B.kpoints):
        ia, ib = [s.ind for s in X.little_group], [s.ind for s in Y.little_group]
        check(ia == ib, "little group {} and {} in another cell", ia, ib)
        check(list(X.degeneracies) == list(Y.degeneracies), "degeneracies {} and {}", X.degeneracies, Y.degeneracies)
        d = np.asarray(X.k_refUC) - np.asarray(Y.k_refUC)
        close(d, np.round(d), 1e-6, "k point in the reference cell, modulo reciprocal vectors")
        # k points differing by a reciprocal vector of the reference lattice: same states, same operations
        close(ref_char(A, X), ref_char(B, Y), 5e-4, f"characters in the reference cell, SG {ca.n} at {X.k_refUC}")
        note.nontrivial(len(ia) > 1)
    irreps_equal(A.kpoints[0].irreps, B.kpoints[0].irreps, f"SG {ca.n} {name} in another cell")
    note("double" if case["spinor"] else "single")
    note(case["code"])


# -------------------------------------------------------------- loops
def loop_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), code=st.sampled_from(CODES), nb=ints(1, 5), nk=ints(3, 8), npw=ints(12, 30),
        k0=st.lists(ints(-40, 40).map(lambda i: i / 100), min_size=3, max_size=3), dir=ints(0, 2), cseed=ints(0, 10 ** 6),
        modes=st.lists(st.sampled_from(MODES + ["gauge"]), min_size=1, max_size=5, unique=True), mseed=ints(0, 10 ** 6)))


def loop_calc(case, crys):
    rng = np.random.default_rng(case["cseed"])
    V = Potential(rng)
    g = np.eye(3)[case["dir"]]
    ks = [np.array(case["k0"]) + g * i / case["nk"] for i in range(case["nk"])]
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    kps = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 4:
            raise Skip("too few plane waves")
        e, C = V.bands(k, G, crys.Lattice, case["spinor"])
        kps.append(KP(k, G, C[:case["nb"]], e[:case["nb"]]))
    return Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, case["spinor"])


def circ(a, b):
    d = np.abs((np.asarray(a)[:, None] - np.asarray(b)[None, :] + .5) % 1 - .5)
    from scipy.optimize import linear_sum_assignment
    i, j = linear_sum_assignment(d)
    return d[i, j].max()


def run_loop(case, note):
    crys = Crystal(case["crystal"])
    calc = loop_calc(case, crys)
    rng = np.random.default_rng(case["mseed"])
    other = transform(calc, case["modes"], rng, 1e-6)
    if "gauge" in case["modes"]:
        for kp in other.kpts:
            kp.C = random_unitary(len(kp.C), rng) @ (kp.C / np.linalg.norm(kp.C, axis=1)[:, None])
    import os
    here = os.getcwd()
    R = []
    for tag, c in (("a", calc), ("bb", other)):
        args = write_as(c, case["code"], tag)
        R.append(run_bs(args, degen_thresh=1e-7, calculate_traces=False))
        os.chdir(here)
    A, B = R
    smin = 1
    for x, y in zip(A.kpoints, A.kpoints[1:] + A.kpoints[:1]):
        O = x.overlap(y)
        smin = min([smin, *np.linalg.svd(O)[1]], default=1)
        for n in range(1, len(O) + 1):
            smin = min(smin, abs(np.linalg.det(O[:n, :n])))
    if smin < .02:
        raise Skip("nearly singular overlaps")
    check(circ(A.wcc(), B.wcc()) < 2e-3, "{}: centres {} and {}", case["modes"], A.wcc(), B.wcc())
    za, zb = A.zakphase(), B.zakphase()
    sel = slice(None) if "gauge" not in case["modes"] else slice(-1, None)
    d = (za[0][sel] - zb[0][sel] + np.pi) % (2 * np.pi) - np.pi
    check(np.abs(d).max() < 5e-3, "{}: Zak phases {} and {}", case["modes"], za[0], zb[0])
    for i in (1, 2, 3):
        close(za[i][:-1], zb[i][:-1], 1e-6, "gaps")
    note.nontrivial(case["nk"] >= 3 and case["nb"] > 1)


TARGETS = [
    Target("equivalent", run_eq, eq_st, quick=500, thorough=20000),
    Target("cell", run_cell, irr_st, quick=500, thorough=20000),
    Target("loops", run_loop, loop_st, quick=300, thorough=10000),
]
