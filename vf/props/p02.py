"""P02: reported multiplicities are the decomposition into tabulated irreps."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, table_ops_in_cell, little_group, given_cell
from ..gen import *
from ..states import Action, symmetric_states, box_planewaves, pick_cutoff

RULE = ("Space group, single/double, tabulated k point (and an equivalent one) drawn over all tables; crystals in random "
        "primitive cells; states are eigenstates of random Hermitian matrices with the symmetry of the little group, or "
        "projected on one irrep. Non-trivial: little group with at least two operations and at least one reported irrep.")
ASSUMPTIONS = ["the tables are right (property P05)", "spin axes of the tables: x||a, z||c* (and fixed axes for 143-194)"]


def case_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), ik=ints(0, 40), code=st.sampled_from(CODES),
        gshift=st.lists(ints(-1, 1), min_size=3, max_size=3), npw=ints(14, 50), sets=ints(1, 8),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), e0=ints(-8, 8).map(float),
        kind=st.just("sym"), cseed=ints(0, 10 ** 6), cell=st.sampled_from(["search", "search", "given"]), gop=ints(-8, 47),
        kdigits=st.sampled_from([None, None, 5, 6, 7, 8])))


def exhaustive(tier):
    """every k point of every table at least once"""
    out = []
    for n in range(1, 231):
        for sp in (False, True):
            for ik in range(len(table(n, sp).kpoints)):
                h = (n * 7919 + ik * 104729 + sp * 1299709) % 10 ** 6
                out.append(dict(crystal=dict(sg=n, metric=[((h >> i) % 100) / 100 for i in range(6)],
                                             U=[h % 10] if h % 3 else [], shift=[h % 24 / 24, (h // 24) % 24 / 24, 0],
                                             rot=[0, 0, 0] if h % 2 else [.3, -.7, 1.1], xseed=h, shuffle=False),
                                spinor=sp, ik=ik, code="abinit", gshift=[0, 0, 0], npw=40, sets=8, esteps=[1, 2],
                                e0=0.0, kind="sym", cseed=h, cell="search"))
    return out if tier == "thorough" else out[::3]


def reference_cell(crys, case):
    from irrep.spacegroup import SpaceGroup
    if case["cell"] == "given":
        refUC, shift = given_cell(crys, table(crys.n, case["spinor"]), case.get("gop", 0))
        return dict(refUC=refUC.T, shiftUC=shift), refUC, shift
    sg = SpaceGroup(crys.cell, spinor=case["spinor"], search_cell=True)
    return {}, np.array(sg.refUC, float), np.array(sg.shiftUC, float)


def exact_multiplicities(C, k, G, lg, W, w, S, spinor, irreps):
    tr = []
    for i in lg:
        gC = Action(k, G, W[i], w[i]).apply(C, S[i] if spinor else None)
        tr.append(np.einsum("ij,ij->", C.conj(), gC))
    tr = np.array(tr)
    return {name: np.dot(ch.conj(), tr) / len(lg) for name, dim, ch in irreps}, tr


def known_points():
    """tabulated points recorded as findings (irreps of the opposite sign of k.t); their
    multiplicities are compared with the projection on the table without requiring integers"""
    from ..main import known_findings
    return {(f["case"]["crystal"]["sg"], f["case"]["spinor"], f["case"]["ik"]) for f in known_findings()
            if f["property"] == "P02" and f["status"] == "finding"}


def run(case, note):
    run_point(case, note, known_points())


def run_strict(case, note):
    run_point(case, note, ())


def run_point(case, note, known):
    crys = Crystal(case["crystal"])
    crys.require_number()
    spinor = case["spinor"]
    T = table(crys.n, spinor)
    ik = case["ik"] % len(T.kpoints)
    name, _, isym, irreps = T.kpoints[ik]
    isknown = (crys.n, spinor, ik) in known
    kw, refUC, shiftUC = reference_cell(crys, case)
    k = np.linalg.inv(refUC.T) @ T.kx[ik] + np.array(case["gshift"])
    W, w, S = table_ops_in_cell(crys.n, spinor, refUC, shiftUC, crys.Lattice)
    calc = build_calc(case, crys, kdft=[k])
    kp = calc.kpts[0]
    kd = case.get("kdigits")
    if kd and np.abs(crys.W).sum(axis=-2).max() * .5 * 10 ** -kd > 4e-5:
        raise Skip("too few digits for such a cell")
    args = write(round_k(calc, kd), case["code"])
    thresh = 1e-3
    bs = run_bs(args, degen_thresh=thresh, search_cell=True, **kw)
    bs.identify_irreps([name])
    KPo = bs.kpoints[0]
    sets = sets_of(kp.E, thresh)
    lg = [i - 1 for i in isym]
    check(len(KPo.irreps) == len(sets), "{} sets of irreps instead of {}", len(KPo.irreps), len(sets))
    dims = {nm: d for nm, d, ch in irreps}
    closed_sets = 0
    for iset, (a, b) in enumerate(sets):
        # does the set span an invariant subspace (the last one may be cut by the number of bands)?
        Cn = kp.C[a:b] / np.linalg.norm(kp.C[a:b], axis=1)[:, None]
        gram = 0
        for i in lg:
            gC = Action(k, kp.G, W[i], w[i]).apply(Cn, S[i] if spinor else None)
            gram += np.linalg.norm(Cn.conj() @ gC.T) ** 2
        if abs(gram / len(lg) - (b - a)) > 1e-6:
            note("set cut by the number of bands")
            continue
        closed_sets += 1
        mult, _ = exact_multiplicities(Cn, k, kp.G, lg, W, w, S, spinor, irreps)
        want = {nm: m for nm, m in mult.items() if abs(m) > 0.02}
        got = KPo.irreps[iset]
        ints_ = [complex(m) for m in got.values()]
        if isknown and any(abs(m - round(m.real)) > 5e-3 or m.real < 0.5 for m in ints_):
            note("point recorded as a finding")
            check(set(got) == set(want) and all(min(abs(got[nm] - want[nm]), abs(got[nm] - want[nm].conj())) < 5e-3 for nm in want),
                  "irreps of set {} at {} of SG {}: {} instead of {}", iset, name, crys.n, got, want)
            continue
        if isknown:
            want = {}
            check(sum(dims[nm] * round(complex(m).real) for nm, m in got.items()) == b - a,
                  "dimensions do not add up in set {} at {} of SG {}: {}", iset, name, crys.n, got)
            continue
        for nm, m in want.items():
            if abs(m - round(m.real)) > 5e-3:
                raise Violation(f"reference decomposition at {name} of SG {crys.n} gives {mult}: "
                                "the tabulated irreps do not decompose an invariant subspace")
        check(set(got) == set(want), "irreps of set {} at {} of SG {} ({}): {} instead of {}", iset, name, crys.n,
              "double" if spinor else "single", {x: complex(y) for x, y in got.items()}, want)
        for nm in want:
            check(abs(got[nm] - round(want[nm].real)) < 5e-3, "multiplicity of {} in set {} at {} of SG {}: {} instead of {}",
                  nm, iset, name, crys.n, got[nm], want[nm])
        tot = sum(dims[nm] * round(complex(m).real) for nm, m in got.items())
        check(tot == b - a, "dimensions add up to {} in a set of {} states at {} of SG {}", tot, b - a, name, crys.n)
        note(f"irreps per set: {min(3, len(want))}")
    if closed_sets and len(lg) > 1:
        note.nontrivial()
    note(("double" if spinor else "single") + " " + case["code"])
    if any(abs(x) > 1e-3 for i in lg for x in T.tx[i]):
        note("nonsymmorphic little group")


def case_one_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), ik=ints(0, 40), ir=ints(0, 20), code=st.sampled_from(CODES),
        npw=ints(30, 70), cseed=ints(0, 10 ** 6), cell=st.just("search")))


def run_one(case, note):
    """states built to transform as one tabulated irrep are labelled with exactly that irrep"""
    crys = Crystal(case["crystal"])
    crys.require_number()
    spinor = case["spinor"]
    T = table(crys.n, spinor)
    ik = case["ik"] % len(T.kpoints)
    name, _, isym, irreps = T.kpoints[ik]
    irname, dim, chi = irreps[case["ir"] % len(irreps)]
    if (crys.n, spinor, ik) in known_points():
        raise Skip("point recorded as a finding")
    kw, refUC, shiftUC = reference_cell(crys, case)
    k = np.linalg.inv(refUC.T) @ T.kx[ik]
    W, w, S = table_ops_in_cell(crys.n, spinor, refUC, shiftUC, crys.Lattice)
    lg = [i - 1 for i in isym]
    Ecut = pick_cutoff([k], crys.Lattice, case["npw"])
    G, _ = box_planewaves(k, crys.Lattice, Ecut)
    rng = np.random.default_rng(case["cseed"])
    n = len(G) * (2 if spinor else 1)
    x = rng.standard_normal(n) + 1j * rng.standard_normal(n)
    D = [Action(k, G, W[i], w[i]) for i in lg]
    proj = sum(np.conj(c) * d.apply(x, S[i] if spinor else None)[0] for c, d, i in zip(chi, D, lg)) * dim / len(lg)
    if np.linalg.norm(proj) < 1e-3 * np.linalg.norm(x):
        raise Skip("irrep absent from the plane waves below the cutoff")
    # the images of the projected state span dim copies at most; reduce to one copy by an
    # invariant random Hermitian matrix restricted to that space
    imgs = np.array([d.apply(proj, S[i] if spinor else None)[0] for d, i in zip(D, lg)])
    u, s, vh = np.linalg.svd(imgs, full_matrices=False)
    r = int((s > 1e-4 * s[0]).sum())
    B = vh[:r]
    h0 = rng.standard_normal((r, r)) + 1j * rng.standard_normal((r, r))
    h0 = h0 + h0.conj().T
    h = np.zeros((r, r), complex)
    for d, i in zip(D, lg):
        M = d.apply(B, S[i] if spinor else None) @ B.conj().T      # image of row a in rows b
        h += M.T @ h0 @ M.conj()
    e, v = np.linalg.eigh(h)
    C = (v[:, :dim].T @ B)
    if r > dim and abs(e[dim] - e[dim - 1]) < 1e-6 * max(1e-3, np.abs(e).max()):
        raise Skip("ambiguous degeneracy of generated states")
    calc = Calc(crys.Lattice, crys.positions, crys.typat, Ecut, [KP(k, G, C, np.full(dim, 1.5))], spinor)
    bs = run_bs(write(calc, case["code"]), degen_thresh=1e-3, search_cell=True)
    bs.identify_irreps([name])
    got = bs.kpoints[0].irreps
    check(len(got) == 1 and set(got[0]) == {irname} and abs(got[0][irname] - 1) < 5e-3,
          "states of {} at {} of SG {} identified as {}", irname, name, crys.n, got)
    note.nontrivial(len(lg) > 1)
    note(f"dim {dim}")


TARGETS = [
    Target("all-kpoints", run, enumerate_=exhaustive),
    Target("findings", run_strict),          # probes of known-findings.json
    Target("decomposition", run, case_st, quick=1200, thorough=40000),
    Target("one-irrep", run_one, case_one_st, quick=600, thorough=20000),
]
