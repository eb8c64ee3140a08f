"""P08: selections of bands, k points and Fermi level are restrictions of the full calculation."""
import copy
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal
from ..gen import *
from ..states import reference_trace, box_planewaves, pick_cutoff, random_states
from ..writers import Calc, KP, write_wfk

RULE = ("A calculation is written once and read in full and with a random selection (band range incl. absent and out-of-range "
        "values, list of k points in any order, Fermi level, threshold). Everything reported with the selection is compared with "
        "the generated states restricted by the test, and with the full run. Non-trivial: the selection leaves out some band or "
        "k point, or moves the Fermi level, and some set has more than one state.")
ASSUMPTIONS = ["Abinit files are read sequentially, so k lists in any order are given to the other codes only"]


def sel_st():
    return st.fixed_dictionaries(dict(
        ibs=st.one_of(st.none(), ints(-2, 9)), ibe=st.one_of(st.none(), ints(-2, 16)),
        kl=st.one_of(st.none(), st.lists(ints(-1, 6), min_size=1, max_size=5)), klt=st.sampled_from(["list", "array", "tuple"]),
        EF=st.sampled_from(["auto", "0.0", "0.5", "-3.25", "1e1", "AUTO", "2.71828183", "-4.30217e-4"]), th=st.sampled_from([1e-3, 1e-2, .1, .3]),
        save=st.booleans()))


def case_st():
    return st.tuples(calc_st(kpts=(1, 4), sets=(2, 9)), sel_st(), ints(-300, 300)).map(
        lambda t: {**t[0], "sel": t[1], "ef": t[2] / 100 + .003651})


def many_st():
    """more than nine k points; long lists of them"""
    kl = st.one_of(st.none(), st.lists(ints(1, 14), min_size=1, max_size=12))
    return st.tuples(calc_st(kpts=(10, 14), sets=(2, 4), npw=(8, 16)), sel_st(), kl, ints(-300, 300)).map(
        lambda t: {**t[0], "sel": {**t[1], "kl": t[2]}, "ef": t[3] / 100 + .003651})


def compare_kpoint(K, kp, ik, b0, b1, ef, th, syms, spinor, tol=2e-4, efull=None):
    """K reported by the code for states b0:b1 of the generated k point kp"""
    E = kp.E[b0:b1] - ef
    check(K.ik0 == ik + 1, "k point numbered {} instead of {}", K.ik0, ik + 1)
    close(K.k, kp.k, 1e-7, f"k point {ik+1}")
    check(K.num_bands == len(E), "{} bands instead of {}", K.num_bands, len(E))
    close(np.asarray(K.Energy_raw), E, 2e-5, f"energies at k point {ik+1}")
    up = kp.E[b1] - ef if b1 < len(kp.E) else np.nan
    check(np.isnan(K.upper) if np.isnan(up) else abs(K.upper - up) < 2e-5, "energy of the next band {} instead of {}", K.upper, up)
    sets = sets_of(E, th)
    check([int(x) for x in K.borders] == [a for a, _ in sets] + [len(E)], "sets start at {} instead of {}", K.borders,
          [a for a, _ in sets])
    check([int(x) for x in K.degeneracies] == [b - a for a, b in sets], "degeneracies {} instead of {}", K.degeneracies, sets)
    close(np.asarray(K.Energy_mean), [E[a:b].mean() for a, b in sets], 2e-5, "mean energies of the sets")
    byind = {s.ind: s for s in syms}
    got = [s.ind for s in K.little_group]
    ref = np.zeros((len(sets), len(got)), complex)
    for j, ind in enumerate(got):
        s = byind[ind]
        tr = reference_trace(kp.k, kp.G, kp.C[b0:b1], s.rotation, s.translation, s.spinor_rotation if spinor else None)
        ref[:, j] = [tr[a:b].sum() for a, b in sets]
    close(np.asarray(K.char), ref, tol, f"characters at k point {ik+1}, bands {b0+1}-{b1}")
    return sets


def band_range(sel, nb):
    b0 = sel["ibs"] - 1 if sel["ibs"] is not None and sel["ibs"] > 0 else 0
    b1 = sel["ibe"] if sel["ibe"] is not None and 0 < sel["ibe"] <= nb else nb
    if b0 >= b1:
        raise Skip("empty band range (refused: P18)")
    return b0, b1


def klist(sel, nk, code):
    kl = sel["kl"]
    if kl is None:
        return None, list(range(nk))
    if code == "abinit":
        kl = sorted(set(kl))
    ks = [k - 1 for k in kl if 0 < k <= nk]
    if not ks:
        raise Skip("no k point selected")
    arg = {"list": list, "array": np.array, "tuple": tuple}[sel["klt"]](kl)
    return arg, ks


def run(case, note):
    crys = Crystal(case["crystal"])
    calc = build_calc(case, crys)
    sel, code = case["sel"], case["code"]
    args = write(calc, code)
    nb = len(calc.kpts[0].E)
    b0, b1 = band_range(sel, nb)
    arg, ks = klist(sel, len(calc.kpts), code)
    ef = (0.0 if code == "vasp" else calc.EF) if sel["EF"].lower() == "auto" else float(sel["EF"])
    kw = dict(IBstart=sel["ibs"], IBend=sel["ibe"], EF=sel["EF"], degen_thresh=sel["th"], save_wf=sel["save"])
    keep = copy.deepcopy(arg)
    bs = run_bs(args, kplist=arg, **kw)
    check(np.array_equal(keep, arg) and type(keep) is type(arg), "list of k points given by the caller changed to {}", arg)
    check(len(bs.kpoints) == bs.num_k == len(ks), "{} k points instead of {}", len(bs.kpoints), len(ks))
    check(bs.num_bands == b1 - b0, "{} bands instead of {}", bs.num_bands, b1 - b0)
    close(bs.efermi, ef, 2e-5, "Fermi level")
    syms = bs.spacegroup.symmetries
    multi = False
    for K, ik in zip(bs.kpoints, ks):
        sets = compare_kpoint(K, calc.kpts[ik], ik, b0, b1, ef, sel["th"], syms, calc.spinor)
        multi |= any(b - a > 1 for a, b in sets)
        check((K.WF is not None) == sel["save"], "wave functions kept: {}", K.WF is not None)
        if sel["save"]:
            check(K.WF.shape[0] == b1 - b0, "{} wave functions kept", K.WF.shape[0])
    # the full calculation, Fermi level 0
    full = run_bs(args, degen_thresh=sel["th"], EF="0.0")
    for K, ik in zip(bs.kpoints, ks):
        F = full.kpoints[ik]
        close(np.asarray(K.Energy_raw), np.asarray(F.Energy_raw)[b0:b1] - bs.efermi, 1e-9, "energies against the full run")
        close(K.ig[:3], F.ig[:3], 0, "plane waves against the full run")
        if sel["save"]:
            close(K.WF, F.WF[b0:b1], 1e-9, "wave functions against the full run")
        fb = [int(x) for x in F.borders]
        for i, (a, b) in enumerate(zip(K.borders, K.borders[1:])):
            if a + b0 in fb and b + b0 in fb[1:] and fb.index(a + b0) + 1 == fb.index(b + b0):
                close(np.asarray(K.char[i]), np.asarray(F.char[fb.index(a + b0)]), 1e-6, "characters against the full run")
    left = b1 - b0 < nb or len(set(ks)) < len(calc.kpts) or abs(ef) > 0
    note.nontrivial(left and multi)
    note(code)
    if arg is not None and list(ks) != sorted(ks):
        note("k points out of order")
    if b1 - b0 < nb:
        note("band range")
    if sel["ibe"] is not None and sel["ibe"] > nb:
        note("IBend above the number of bands")


# ------------------------------------------------ degeneracy chains
def chain_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), code=st.sampled_from(CODES), spinor=st.booleans(), k=kpt_st(), npw=ints(14, 40),
        steps=st.lists(st.sampled_from([0, 0, .05, .5, .9, 1.1, 2, 20]), min_size=1, max_size=11), th=st.sampled_from([1e-8, 1e-7, 3e-6, 1e-4, 1e-3, .05, .4]),
        e0=ints(-100, 100), EF=st.sampled_from(["0", "auto", "7.5", "-0.123456789"]), cseed=ints(0, 10 ** 6)))


def run_chain(case, note):
    """sets are chains of levels linked by steps not larger than the threshold"""
    crys = Crystal(case["crystal"])
    k = crys.k_dft(case["k"])
    Ecut = pick_cutoff([k], crys.Lattice, case["npw"])
    G, _ = box_planewaves(k, crys.Lattice, Ecut)
    if len(G) < 4:
        raise Skip("too few plane waves")
    n = len(G) * (2 if case["spinor"] else 1)
    E = case["e0"] / 10 + np.concatenate([[0], np.cumsum(np.array(case["steps"]) * case["th"])])[:n]
    C = random_states(n, len(E), np.random.default_rng(case["cseed"]))
    calc = Calc(crys.Lattice, crys.positions, crys.typat, Ecut, [KP(k, G, C, E)], case["spinor"], EF=-1.0)
    kw = {} if case["th"] == 1e-8 else dict(degen_thresh=case["th"])      # the default
    bs = run_bs(write(calc, case["code"]), EF=case["EF"], **kw)
    ef = bs.efermi
    sets = compare_kpoint(bs.kpoints[0], calc.kpts[0], 0, 0, len(E), ef, case["th"], bs.spacegroup.symmetries, case["spinor"])
    note.nontrivial(any(b - a > 1 for a, b in sets) and len(sets) > 1)
    if any(b - a > 2 and E[b - 1] - E[a] > case["th"] * 1.01 for a, b in sets):
        note("chain wider than the threshold")


# ------------------------------------------- Abinit, bands differ per k
def nband_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), kpts=st.lists(kpt_st(), min_size=2, max_size=4),
        nbs=st.lists(ints(1, 9), min_size=2, max_size=4), npw=ints(14, 40), cseed=ints(0, 10 ** 6), sel=sel_st()))


def run_nband(case, note):
    crys = Crystal(case["crystal"])
    rng = np.random.default_rng(case["cseed"])
    ks = [crys.k_dft(k) for k in case["kpts"]]
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    kps = []
    for i, k in enumerate(ks):
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        n = len(G) * (2 if case["spinor"] else 1)
        nb = min(n, case["nbs"][i % len(case["nbs"])])
        if nb < 1:
            raise Skip("no plane waves")
        kps.append(KP(k, G, random_states(n, nb, rng), np.cumsum(rng.choice([0, .5, 2.0], nb))))
    calc = Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, case["spinor"], EF=.75)
    write_wfk("x_WFK", calc)
    sel = case["sel"]
    mx = max(len(k.E) for k in kps)
    b0, b1 = band_range(sel, mx)
    arg, kl = klist(sel, len(kps), "abinit")
    if any(len(kps[i].E) <= b0 for i in kl):
        raise Skip("k point without bands in the range")
    bs = run_bs(dict(code="abinit", fWFK="x_WFK"), kplist=arg, IBstart=sel["ibs"], IBend=sel["ibe"], degen_thresh=sel["th"])
    for K, ik in zip(bs.kpoints, kl):
        compare_kpoint(K, kps[ik], ik, b0, min(b1, len(kps[ik].E)), 0.0, sel["th"], bs.spacegroup.symmetries, case["spinor"])
    note.nontrivial(len({len(kps[i].E) for i in kl}) > 1)


TARGETS = [
    Target("selection", run, case_st, quick=600, thorough=25000),
    Target("selection-many-k", run, many_st, quick=80, thorough=3000),
    Target("chains", run_chain, chain_st, quick=500, thorough=20000),
    Target("abinit-bands", run_nband, nband_st, quick=200, thorough=6000),
]
