"""P01: characters are <psi|g|psi> summed over degenerate sets, for the reported operations."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, little_group
from ..gen import *
from ..states import reference_trace

RULE = ("Crystals of all 230 space groups (random metric, unimodular cell changes incl. left-handed, origins, "
        "orientations) with symmetric or arbitrary states written as files of one of the four codes; non-trivial: "
        "some k point has at least two operations in its little group and a plane-wave set of at least 10 waves.")
ASSUMPTIONS = ["spglib finds the operations of the generated crystals",
               "characters compared within 2e-4 (single precision in VASP files)"]

TOL = 2e-4


def check_traces(bs, calc, thresh, note, Ecut=None, TOL=TOL):
    """oracle: reference action of the reported operations on the generated states"""
    syms = bs.spacegroup.symmetries
    check(len(bs.kpoints) == len(calc.kpts), "{} k points instead of {}", len(bs.kpoints), len(calc.kpts))
    for KPo, kp in zip(bs.kpoints, calc.kpts):
        lg = little_group(kp.k, [s.rotation for s in syms])
        want = [syms[i].ind for i in lg]
        got = [s.ind for s in KPo.little_group]
        check(sorted(got) == sorted(want), "little group of k={}: operations {} instead of {}", kp.k, got, want)
        byind = {s.ind: s for s in syms}
        C, G = kp.C, kp.G
        if Ecut is not None:
            from ..states import box_planewaves, H2M
            from ..crystal import reciprocal
            e = H2M * (((G + kp.k) @ reciprocal(calc.Lattice)) ** 2).sum(axis=1)
            sel = e < Ecut
            G = G[sel]
            C = C[:, np.concatenate([sel, sel]) if calc.spinor else sel]
        sets = sets_of(kp.E, thresh)
        char = np.asarray(KPo.char)
        ref = np.zeros((len(sets), len(got)), complex)
        for j, ind in enumerate(got):
            s = byind[ind]
            tr = reference_trace(kp.k, G, C, s.rotation, s.translation,
                                 s.spinor_rotation if calc.spinor else None)
            ref[:, j] = [tr[a:b].sum() for a, b in sets]
        close(char, ref, TOL, f"characters at k={kp.k} (rows: sets, columns: operations {got})")
        if len(got) > 1 and len(G) >= 10:
            note.nontrivial()
        note(f"little group order {'1' if len(got) == 1 else '2-4' if len(got) <= 4 else '5-16' if len(got) <= 16 else '>16'}")
        if any(np.abs(byind[i].translation).max() > 1e-3 for i in got):
            note("nonsymmorphic operation in the little group")


def run(case, note):
    crys = Crystal(case["crystal"])
    calc = build_calc(case, crys)
    note(case["code"] + (" spinor" if case["spinor"] else " scalar"))
    kd = case.get("kdigits")
    if kd:
        for k in calc.kpts:
            if little_group(k.k, crys.W) != little_group(k.k, crys.W, 1e-3):
                raise Skip("k point close to one of higher symmetry")
        if np.abs(crys.W).sum(axis=-2).max() * .5 * 10 ** -kd > 4e-5:
            raise Skip("too few digits for such a cell")
    args = write(round_k(calc, kd), case["code"])
    bs = run_bs(args, degen_thresh=1e-3)
    check_traces(bs, calc, 1e-3, note, TOL=TOL + (60 * 10 ** -kd if kd else 0))


def run_matched(case, note):
    """as run, with operations renumbered like the tables, and a lower cutoff"""
    crys = Crystal(case["crystal"])
    crys.require_number()
    calc = build_calc(case, crys)
    args = write(calc, case["code"])
    kw = {}
    Ecut = None
    if case["lower"] and case["code"] != "wannier90":
        Ecut = pick_cutoff([k.k for k in calc.kpts], crys.Lattice, max(8, 0.6 * case["npw"]))
        if any(len(box_planewaves(k.k, crys.Lattice, Ecut)[0]) < 3 for k in calc.kpts):
            raise Skip("too few plane waves")
        for k in calc.kpts:
            e = np.linalg.norm(k.C, axis=1)
        kw["Ecut"] = Ecut
        note("lower cutoff")
    bs = run_bs(args, degen_thresh=1e-3, search_cell=True, **kw)
    check_traces(bs, calc, 1e-3, note, Ecut)


def rounded_st():
    """lattices and positions with few digits, so that equivalent plane waves differ in energy"""
    cr = st.tuples(crystal_st(sgs=[5, 12, 15, 62, 69, 82, 86, 88] + list(range(143, 195)) + [199, 216, 225, 227]), st.sampled_from([5, 6, 6, 7])).map(
        lambda t: {**t[0], "digits": t[1]})
    return calc_st(crystals=cr, kpts=(1, 2), npw=(60, 350), sets=(1, 4))


def rounded_k_st():
    """k points with few digits, as 0.3333333"""
    return st.tuples(calc_st(crystals=crystal_st(sgs=list(range(75, 231))), kgen=st.lists(st.sampled_from(
        [0, .5, 1 / 3, 2 / 3, -1 / 3, 1 / 3, 4 / 3, .25, 1 / 6]), min_size=3, max_size=3)), ints(5, 10)).map(
        lambda t: {**t[0], "kdigits": t[1]})


TARGETS = [
    Target("traces-rounded-k", run, rounded_k_st, quick=200, thorough=6000),
    Target("traces-rounded", run, rounded_st, quick=100, thorough=3000),
    # cells with several primitive cells: pure translations, several operations of equal rotation
    Target("traces-supercell", run, lambda: calc_st(crystals=crystal_st(cells=True), kpts=(1, 2)), quick=200, thorough=8000),
    Target("traces", run, lambda: calc_st(), quick=700, thorough=30000),
    Target("traces-matched", run_matched,
           lambda: st.tuples(calc_st(), st.booleans()).map(lambda t: {**t[0], "lower": t[1]}),
           quick=400, thorough=15000),
]
