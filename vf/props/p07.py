"""P07: readers return what the files contain, whatever the (documented) layout; codes agree."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, reciprocal
from ..gen import *
from ..states import box_planewaves, random_states, symmetric_states, pick_cutoff
from ..writers import (write_poscar, write_wavecar, write_wfk, write_qe, write_w90, write_win, Calc, KP)
from .p02 import reference_cell, known_points

RULE = ("A calculation (crystal, k points, energies, states) is written in every documented variant of the formats of the four "
        "codes, drawn at random, and everything read is compared with what was written. Non-trivial: at least two bands and a "
        "layout different from the default.")
ASSUMPTIONS = ["the writers follow the format descriptions of the codes"]


def base_st(many=False, **kw):
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(),
        kpts=st.lists(st.lists(ints(-100, 100).map(lambda i: i / 100), min_size=3, max_size=3), **(dict(min_size=10, max_size=14) if many else
                                                                                              dict(min_size=1, max_size=4))),
        nb=ints(1, 2) if many else ints(1, 6), npw=ints(8, 14) if many else ints(8, 40), cseed=ints(0, 10 ** 6), ef=ints(-300, 300).map(lambda i: i / 100 + .003651),
        EF=st.sampled_from(["auto", "auto", "0.0", "1.25", "-2", "3.14159265", "-0.000321"]), **kw))


def make(case, crys=None, nbs=None, seed=0, Ecut=None):
    crys = crys or Crystal(case["crystal"])
    rng = np.random.default_rng(case["cseed"] + 7919 * seed)
    ks = [np.array(k) for k in case["kpts"]]
    Ecut = Ecut or pick_cutoff(ks, crys.Lattice, case["npw"])
    kps = []
    for ik, k in enumerate(ks):
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 7:
            raise Skip("too few plane waves")
        G = G[np.random.default_rng(case["cseed"] + ik).permutation(len(G))]
        nb = case["nb"] if nbs is None else nbs[ik % len(nbs)]
        n = len(G) * (2 if case["spinor"] else 1)
        C = random_states(n, min(nb, n), rng)
        E = np.cumsum(rng.choice([0.0, 0.1, 1.37], len(C))) + rng.uniform(-20, 10)
        kps.append(KP(k, G, C, E))
    return crys, Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, case["spinor"], EF=case["ef"])


def same_atoms(bs, calc):
    """atoms as a set: positions modulo lattice vectors with a one-to-one renaming of types"""
    pos, typ = np.asarray(bs.spacegroup.positions), list(np.asarray(bs.spacegroup.typat))
    check(len(pos) == len(calc.positions) == len(typ), "{} atoms instead of {}", len(pos), len(calc.positions))
    ren, used = {}, set()
    for p, t in zip(calc.positions, calc.typat):
        d = np.abs((pos - p + .5) % 1 - .5).max(axis=1)
        i = int(np.argmin(d))
        check(d[i] < 1e-6 and i not in used, "no atom at {} (type {}); atoms read: {}", p, t, pos)
        used.add(i)
        check(ren.setdefault(t, typ[i]) == typ[i], "atom at {} of type {} read as type {}", p, t, typ[i])
    check(len(set(ren.values())) == len(ren), "different types merged: {}", ren)


def compare(bs, calc, case, single=False, ef_read=True, order_read=True):
    close(bs.Lattice, calc.Lattice, 1e-6, "lattice vectors (Angstrom)")
    close(bs.spacegroup.Lattice, calc.Lattice, 1e-6, "lattice vectors of the space group")
    same_atoms(bs, calc)
    check(bool(bs.spinor) == bool(calc.spinor), "spinor {}", bs.spinor)
    close(bs.Ecut0, calc.Ecut, 1e-5 * calc.Ecut, "cutoff (eV)")
    ef = (calc.EF if ef_read else 0.0) if case["EF"] == "auto" else float(case["EF"])
    close(bs.efermi, ef, 2e-5 if case["EF"] == "auto" else 1e-9, "Fermi level (eV)")
    check(bs.num_k == len(calc.kpts), "{} k points instead of {}", bs.num_k, len(calc.kpts))
    V = np.linalg.inv(calc.Lattice).T * 2 * np.pi
    close(bs.RecLattice, V, 1e-6, "reciprocal lattice")
    for ik, (KPo, kp) in enumerate(zip(bs.kpoints, calc.kpts)):
        close(KPo.k, kp.k, 1e-7, f"coordinates of k point {ik+1}")
        close(np.asarray(KPo.Energy_raw), kp.E - ef, 2e-5, f"energies of k point {ik+1} relative to the Fermi level")
        idx = {tuple(g): i for i, g in enumerate(kp.G.tolist())}
        try:
            sel = np.array([idx[tuple(int(x) for x in g)] for g in np.asarray(KPo.ig)[:3].T])
        except KeyError as e:
            raise Violation(f"plane wave {e} of k point {ik+1} is not in the file")
        check(len(sel) == len(idx), "{} plane waves instead of {}", len(sel), len(idx))
        n = len(kp.G)
        close(np.asarray(KPo.WF), kp.C[:, np.concatenate([sel, sel + n]) if calc.spinor else sel],
              1e-5 if single else 1e-8, f"wave functions of k point {ik+1}")


# ------------------------------------------------------------------ VASP
def vasp_st(many=False):
    return base_st(many, var=st.fixed_dictionaries(dict(
        scale=st.sampled_from([1.0, 1.0, 5.43, 0.5, 2.8346, -1.0]), cartesian=st.booleans(), selective=st.booleans(),
        names=st.booleans(), comment=st.booleans(), velocities=st.booleans(), case=ints(0, 5))), pad=ints(0, 3))


def run_vasp(case, note):
    crys, calc = make(case)
    write_poscar("POS", calc.Lattice, calc.positions, calc.typat, **case["var"])
    write_wavecar("WAV", calc, pad=case["pad"])
    bs = run_bs(dict(code="vasp", fPOS="POS", fWAV="WAV", spinor=case["spinor"]), EF=case["EF"])
    compare(bs, calc, case, single=True, ef_read=False)
    note.nontrivial(case["nb"] > 1 and any(case["var"].values()))
    note("cartesian" if case["var"]["cartesian"] else "direct")
    if case["var"]["scale"] != 1:
        note("scaling factor" if case["var"]["scale"] > 0 else "volume")


# ---------------------------------------------------------------- Abinit
def abinit_st(many=False):
    return base_st(many, var=st.fixed_dictionaries(dict(
        version=st.sampled_from(["8.10.3", "8.0.8", "9.6.2", "9.10.1", "7.10.5"]), headform=st.just(80),
        occopt=st.sampled_from([1, 3, 7]), usepaw=ints(0, 1), nsym=ints(1, 4),
        endian=st.sampled_from(["<", "<", ">"]), nshiftk=ints(1, 4))), nbs=st.lists(ints(1, 6), min_size=1, max_size=4))


def run_abinit(case, note):
    crys, calc = make(case, nbs=case["nbs"])
    rng = np.random.default_rng(case["cseed"])
    npsp = len(set(calc.typat))
    write_wfk("x_WFK", calc, order=lambda n: rng.permutation(n), **case["var"])
    bs = run_bs(dict(code="abinit", fWFK="x_WFK"), EF=case["EF"])
    compare(bs, calc, case)
    note.nontrivial(max(case["nbs"]) > 1)
    note("different number of bands per k point" if len(set(len(k.E) for k in calc.kpts)) > 1 else "same number of bands")
    note("Abinit " + case["var"]["version"] + (" PAW" if case["var"]["usepaw"] else ""))


# -------------------------------------------------------------- Espresso
def qe_st(many=False):
    return base_st(many, alat=st.sampled_from([None, None, 1.0, 7.3]), upper=st.booleans(), fermi=st.sampled_from([True, True, False]),
                   channel=st.sampled_from([None, None, "up", "dw", "down", "UP", "Down"]), nb2=ints(1, 6),
                   initial=st.sampled_from([None, None, None, "atoms", "cell"]))


def run_qe(case, note):
    case = dict(case)
    ch = case["channel"]
    if ch is not None:
        case["spinor"] = False
    crys, calc = make(case)
    rng = np.random.default_rng(case["cseed"])
    perm = {}
    order = lambda n: perm.setdefault(n, rng.permutation(n))
    kw = dict(alat=case["alat"], upper=case["upper"], fermi=case["fermi"], order=order)
    args = dict(code="espresso", prefix="pre")
    if case["initial"]:         # structure relaxed from another one, or read from an earlier calculation
        d = np.random.default_rng(case["cseed"]).uniform(-.05, .05, (len(calc.positions) + 3, 3))
        kw["initial"] = (calc.Lattice * 1.03 + d[-3:] if case["initial"] == "cell" else calc.Lattice, calc.positions + d[:-3])
        note("relaxed structure")
    if ch is None:
        write_qe("pre", calc, **kw)
    else:
        c2 = dict(case, nb=case["nb2"])
        _, other = make(c2, crys=crys, seed=1, Ecut=calc.Ecut)
        write_qe("pre", calc, channels=(calc, other), **kw)
        args["spin_channel"] = ch
        if ch.lower() in ("dw", "down"):
            calc = other
        note("spin channel")
    bs = run_bs(args, EF=case["EF"])
    compare(bs, calc, case, ef_read=case["fermi"])
    note.nontrivial(case["nb"] > 1)


# ------------------------------------------------------------- Wannier90
def w90_st(many=False):
    return base_st(many, var=st.fixed_dictionaries(dict(
        cart_atoms=st.booleans(), cell_units=st.sampled_from(["ang", "bohr", "none"]), atom_units=st.sampled_from([None, "ang", "bohr"]),
        assign=st.sampled_from(["=", ":", " "]), comments=st.booleans(), inline=st.booleans(), head_last=st.booleans(),
        weights=st.booleans(), names=st.sampled_from([None, None, ["Fe1", "Fe2", "Fe3", "Fe", "O1"], ["X", "Xa", "xb", "XA1", "Ca"]]), extras=ints(0, 3), block_order=st.permutations([0, 1, 2]), upper=st.booleans(), fermi=st.sampled_from([True, True, False]))),
        extra=ints(0, 3))


def run_w90(case, note):
    crys, calc = make(case)
    nk = len(calc.kpts)
    mp = {1: (1, 1, 1), 2: (1, 2, 1), 3: (3, 1, 1), 4: (2, 1, 2), 10: (1, 2, 5), 12: (2, 3, 2), 14: (14, 1, 1)}.get(nk, (1, 1, nk))
    write_w90("pre", calc, extra=case["extra"], win=dict(mp=mp, **case["var"]))
    bs = run_bs(dict(code="wannier90", prefix="pre", Ecut=calc.Ecut), EF=case["EF"])
    compare(bs, calc, case, ef_read=case["var"]["fermi"])
    note.nontrivial(case["nb"] > 1)
    note("atoms " + ("cartesian" if case["var"]["cart_atoms"] else "fractional"))


# ------------------------------------------------------------ cross-code
def cross_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), ik=ints(0, 40), npw=ints(14, 45), sets=ints(1, 6),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), e0=ints(-8, 8).map(float),
        kind=st.just("sym"), cseed=ints(0, 10 ** 6), cell=st.just("search")))


def run_cross(case, note):
    crys = Crystal(case["crystal"])
    crys.require_number()
    T = table(crys.n, case["spinor"])
    ik = case["ik"] % len(T.kpoints)
    name = T.kpoints[ik][0]
    # cell given so that the order of atoms does not matter for the choice of the origin
    kw, refUC, shiftUC = reference_cell(crys, dict(case, cell="given"))
    k = np.linalg.inv(refUC.T) @ T.kx[ik]
    calc = build_calc(case, crys, kdft=[k])
    same = np.allclose(refUC, np.eye(3)) and np.allclose(shiftUC, 0)
    out = {}
    for code in CODES:
        bs = run_bs(write(calc, code), degen_thresh=1e-3, **kw)
        bs.identify_irreps([name])
        K = bs.kpoints[0]
        # the sign of a spin rotation is arbitrary before it is matched with the tables
        sgn = np.array([s.sign for s in K.little_group])
        out[code] = (np.asarray(K.Energy_mean, float), np.asarray(K.char) * sgn, K.irreps, list(K.degeneracies),
                     np.asarray(K.char_refUC) * (sgn if same else 1), [s.ind for s in K.little_group])
    ref = out["abinit"]
    for code, o in out.items():
        close(o[0], ref[0], 2e-5, f"energies from {code} and abinit")
        check(o[3] == ref[3], "degeneracies from {} {} and abinit {}", code, o[3], ref[3])
        check(o[5] == ref[5], "little group from {} {} and abinit {}", code, o[5], ref[5])
        close(o[1], ref[1], 4e-4, f"characters from {code} and abinit")
        close(o[4], ref[4], 4e-4, f"characters in the reference cell from {code} and abinit")
        for a, b in zip(o[2], ref[2]):
            ka = {x for x, y in a.items() if abs(y) > 0.01}
            kb = {x for x, y in b.items() if abs(y) > 0.01}
            check(ka == kb, "irreps from {} {} and abinit {}", code, a, b)
    note.nontrivial(len(ref[5]) > 1)


TARGETS = [
    Target("vasp", run_vasp, vasp_st, quick=700, thorough=25000),
    Target("abinit", run_abinit, abinit_st, quick=700, thorough=25000),
    Target("espresso", run_qe, qe_st, quick=700, thorough=25000),
    Target("wannier90", run_w90, w90_st, quick=700, thorough=25000),
    # ten k points and more
    *[Target(n + "-many-k", f, lambda g=g: g(True), quick=60, thorough=2000)
      for n, f, g in (("vasp", run_vasp, vasp_st), ("abinit", run_abinit, abinit_st), ("espresso", run_qe, qe_st), ("wannier90", run_w90, w90_st))],
    Target("cross-code", run_cross, cross_st, quick=300, thorough=10000),
]
