"""P06: the plane waves kept are exactly those below the cutoff, with their coefficients."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, reciprocal
from ..gen import *
from ..states import box_planewaves, pick_cutoff, random_states, H2M

RULE = ("Lattices of any shape (aspect ratio up to 10, strongly skewed, not reduced, left-handed), any k point (up to 2 reciprocal vectors "
        "from Gamma), 3 to 400 plane waves in any order, states not normalised, requested cutoff absent / not positive / above / "
        "below that of the calculation, cutoffs of WAVECAR corrected with correct_Ecut0; written for each code. Non-trivial: at least 20 plane waves (5 in cells that are not reduced).")
ASSUMPTIONS = ["the box of integer vectors enumerated by the oracle contains the cutoff sphere (bound of Cauchy-Schwarz)",
               "waves that the grid of Wannier90 cannot tell apart (at half its points and beyond) are not kept",
               "cutoffs are not within 0.05% of the energy of a plane wave"]


SHEAR = st.tuples(ints(0, 2), ints(0, 2), st.sampled_from([1, -1, 2, -2, 3]))


def sheared_st():
    """few plane waves of lattices given by long vectors, in the codes that enumerate plane waves"""
    return st.tuples(case_st(), st.sampled_from(["vasp", "vasp", "wannier90"]), ints(3, 30), st.lists(SHEAR, min_size=2, max_size=4)).map(
        lambda t: {**t[0], "code": t[1], "npw": t[2], "shear": t[3]})


def grid_st():
    """grids of Wannier90 that don't hold all plane waves below the cutoff"""
    return st.tuples(case_st(), st.lists(st.sampled_from([1, 0, -1, -2, 2]), min_size=3, max_size=3), ints(8, 200)).map(
        lambda t: {**t[0], "code": "wannier90", "grid": t[1], "npw": t[2]})


def case_st():
    return st.fixed_dictionaries(dict(
        code=st.sampled_from(CODES), spinor=st.booleans(),
        lens=st.lists(ints(20, 160).map(lambda i: i / 10), min_size=3, max_size=3),
        skew=st.lists(ints(-9, 9).map(lambda i: i / 10), min_size=3, max_size=3),
        shear=st.one_of(st.just([]), st.just([]), st.lists(SHEAR, min_size=1, max_size=2)), rot=rot_st(), left=st.booleans(),
        kpts=st.lists(st.one_of(st.just([0, 0, 0]), st.lists(st.one_of(
            st.sampled_from([0, .5, -.5, 1 / 3, 1, -1.5, 2]), ints(-200, 200).map(lambda i: i / 100)), min_size=3, max_size=3)),
            min_size=1, max_size=3),
        npw=st.one_of(ints(3, 60), ints(3, 60), ints(60, 400)), nb=ints(1, 4), cseed=ints(0, 10 ** 6),
        request=st.sampled_from(["none", "none", "zero", "negative", "above", "below", "below", "shells", "equal"]), frac=ints(20, 95),
        scale=st.booleans(), header=st.sampled_from([0, 0, 0, 1e-4, -1e-4, .05, -.2])))


def run(case, note):
    rng = np.random.default_rng(case["cseed"])
    a, b, c = case["lens"]
    x, y, z = case["skew"]
    L = np.array([[a, 0, 0], [b * x, b, 0], [c * y, c * z, c]])
    for i, j, n in case["shear"]:           # the same lattice in another cell
        if i != j:
            L[i] += n * L[j]
    if case["left"]:
        L = L[[1, 0, 2]]
    from ..crystal import rotation_matrix
    L = L @ rotation_matrix(case["rot"]).T
    ks = [np.array(k, float) for k in case["kpts"]]
    Ecut = pick_cutoff(ks, L, case["npw"], rel=1e-3, maxg=60)
    code = case["code"]
    req = case["request"]
    if code == "wannier90" and req not in ("below", "shells"):
        req = "equal"
    low = Ecut
    if req == "below":
        low = pick_cutoff(ks, L, max(2, case["npw"] * case["frac"] / 100), rel=1e-3, maxg=60)
        if low > Ecut:
            raise Skip("lower cutoff above the cutoff")
    if req == "shells":     # all but the last shells of plane waves
        es = np.unique(np.round(np.concatenate([box_planewaves(k, L, Ecut)[1] for k in ks]), 9))
        j = np.where(np.diff(es) > 1e-3 * es[1:])[0][-1 - case["cseed"] % 5:]
        if not len(j):
            raise Skip("a single shell")
        low = (es[j[0]] + es[j[0] + 1]) / 2
    ecut_arg = dict(none=None, zero=0.0, negative=-5.0, above=1.3 * Ecut if case["frac"] % 2 else 1.002 * Ecut, below=low, shells=low, equal=Ecut)[req]
    kps = []
    nb = case["nb"]
    grid = None
    if case.get("grid"):    # points of the grid with respect to twice the largest component of the plane waves
        if min(len(box_planewaves(k, L, Ecut)[0]) for k in ks) < 2:
            raise Skip("too few plane waves")
        m = np.max([np.abs(box_planewaves(k, L, Ecut)[0]).max(axis=0) for k in ks], axis=0)
        grid = np.maximum(2 * m + np.array(case["grid"]), 1)
        note("even grid" if (grid % 2 == 0).any() else "odd grid")
    for k in ks:
        G, _ = box_planewaves(k, L, Ecut)
        lowG = box_planewaves(k, L, low)[0]
        if grid is not None:
            G, lowG = [g[(2 * np.abs(g) < grid).all(axis=1)] for g in (G, lowG)]
        if len(G) < 2 or len(lowG) < 1:
            raise Skip("no plane waves")
        G = G[rng.permutation(len(G))]
        n = len(G) * (2 if case["spinor"] else 1)
        C = rng.standard_normal((nb, n)) + 1j * rng.standard_normal((nb, n))
        C /= np.linalg.norm(C, axis=1)[:, None]
        if case["scale"]:
            C *= 10 ** rng.uniform(-4, 1.5, nb)[:, None]
        kps.append(KP(k, G, C, np.sort(rng.uniform(-5, 5, nb)) + np.arange(nb)))
    nbm = min(nb, min(kp.C.shape[1] for kp in kps))
    pos = rng.random((2, 3))
    calc = Calc(L, pos, [1, 2], Ecut, kps, case["spinor"], EF=0.3)
    header = case["header"] if code == "vasp" else 0
    if header:           # cutoff in WAVECAR other than that of its plane waves, corrected by the user
        calc.Ecut = Ecut * (1 + header)
    args = write(calc, code, **(dict(grid=grid) if grid is not None else {}))
    if header:
        args["correct_Ecut0"] = Ecut - calc.Ecut
        note("cutoff of the file corrected")
    if ecut_arg is not None:
        args["Ecut"] = ecut_arg
    else:
        args.pop("Ecut", None)
    bs = run_bs(args)
    close(bs.Lattice, L, 1e-6, "lattice")
    if code != "wannier90":
        close(bs.Ecut0, Ecut, 1e-5 * Ecut, "cutoff of the calculation")
    close(bs.Ecut, low, 1e-5 * Ecut, f"cutoff applied when {req} is requested")
    tol = 2e-6 if code == "vasp" else 1e-9
    check(len(bs.kpoints) == len(ks), "{} k points instead of {}", len(bs.kpoints), len(ks))
    for KPo, kp in zip(bs.kpoints, kps):
        close(KPo.k, kp.k, 1e-8, "coordinates of the k point")
        e = H2M * (((kp.G + kp.k) @ reciprocal(L)) ** 2).sum(axis=1)
        want = {tuple(g): i for i, (g, ee) in enumerate(zip(kp.G.tolist(), e)) if ee < low}
        ig = np.asarray(KPo.ig)
        got = [tuple(int(x) for x in g) for g in ig[:3].T]
        check(len(set(got)) == len(got), "repeated plane waves at k={}", kp.k)
        check(set(got) == set(want), "plane waves at k={}: missing {}, in excess {}", kp.k,
              sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5])
        idx = np.array([want[g] for g in got])
        es = e[idx]
        check(np.all(np.diff(es) > -2e-3), "plane waves at k={} not in order of energy: {}", kp.k, es)
        WF = np.asarray(KPo.WF)
        n, m = len(kp.G), len(got)
        C = kp.C[:, np.concatenate([idx, idx + n]) if case["spinor"] else idx]
        nrm = np.linalg.norm(C, axis=1)
        rel = (nrm / np.linalg.norm(kp.C, axis=1)).min()
        if rel < 1e-3:
            raise Skip("no weight below the cutoff")
        close(WF, C / nrm[:, None], tol * 20 / rel, f"coefficients at k={kp.k}")
        note.nontrivial(m >= 20 or case["shear"] and m >= 5)
    note(f"{code} {'spinor' if case['spinor'] else 'scalar'}")
    note("requested cutoff: " + req)


TARGETS = [Target("planewaves", run, case_st, quick=1500, thorough=60000), Target("planewaves-sheared", run, sheared_st, quick=600, thorough=20000),
           Target("planewaves-grid", run, grid_st, quick=400, thorough=12000)]
