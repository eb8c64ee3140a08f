"""P10: characters reported for the reference cell are those of the tabulated operations."""
import contextlib, io, re
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, table_ops_in_cell, given_cell
from ..gen import *
from ..states import Action

RULE = ("Crystals of all space groups in random primitive cells, origins and orientations; the reference cell is found by the code "
        "or given, with a shift by random lattice vectors. Characters in the reference cell are compared with the traces of the "
        "tabulated operations (file of tables, translations not reduced) over the generated states. Non-trivial: the reference "
        "cell or origin differs from the calculated one and some operation besides the identity is in the little group.")
ASSUMPTIONS = ["spin axes of the tables: x||a, z||c* (and fixed axes for 143-194)"]


def case_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), ik=st.lists(ints(-12, 40), min_size=1, max_size=3), code=st.sampled_from(CODES),
        gshift=st.lists(ints(-1, 1), min_size=3, max_size=3), kgen=kpt_st(), npw=ints(14, 50), sets=ints(1, 8),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), e0=ints(-8, 8).map(float),
        kind=st.sampled_from(["sym", "sym", "rand"]), cseed=ints(0, 10 ** 6),
        cell=st.sampled_from(["search", "search", "given", "given-nosearch"]), lat=st.lists(ints(-2, 2), min_size=3, max_size=3), gop=ints(-8, 47)))


def reference(crys, case):
    """-> arguments, reference cell (columns) and origin or None if found by the code"""
    inv = np.linalg.inv(crys.A)
    if case["cell"] == "search":
        return dict(search_cell=True), None, None
    refUC, s = given_cell(crys, table(crys.n, case["spinor"]), case["gop"])
    s = s + inv @ np.array(case["lat"], float)
    return dict(search_cell=case["cell"] == "given", refUC=refUC.T, shiftUC=s), refUC, s


def run(case, note):
    from irrep.spacegroup import SpaceGroup
    crys = Crystal(case["crystal"])
    crys.require_number()
    spinor = case["spinor"]
    T = table(crys.n, spinor)
    kw, refUC, shift = reference(crys, case)
    if refUC is None:
        sg = SpaceGroup(crys.cell, spinor=spinor, **kw)
        refUC, shift = np.array(sg.refUC, float), np.array(sg.shiftUC, float)
    ks = []
    for i in case["ik"]:
        kr = T.kx[i % len(T.kx)] if i >= 0 else np.array(case["kgen"])
        ks.append(np.linalg.inv(refUC.T) @ kr + np.array(case["gshift"]))
    calc = build_calc(case, crys, kdft=ks)
    bs = run_bs(write(calc, case["code"]), degen_thresh=1e-3, **kw)
    close(bs.spacegroup.refUC, refUC, 1e-9, "reference cell")
    close(bs.spacegroup.shiftUC, shift, 1e-9, "origin of the reference cell")
    same = np.allclose(refUC, np.eye(3)) and np.allclose(shift, 0)
    W, w, S = table_ops_in_cell(crys.n, spinor, refUC, shift, crys.Lattice)
    for K, kp in zip(bs.kpoints, calc.kpts):
        # the reciprocal vector is that of the columns of refUC
        V = refUC.T @ crys.Lattice
        kc = kp.k @ (2 * np.pi * np.linalg.inv(crys.Lattice).T)
        close(np.asarray(K.k_refUC), V @ kc / (2 * np.pi), 1e-6, "coordinates of the k point in the reference cell")
        sets = sets_of(kp.E, 1e-3)
        inds = [s.ind for s in K.little_group]
        C = kp.C / np.linalg.norm(kp.C, axis=1)[:, None]
        if same:
            close(np.asarray(K.char_refUC), np.asarray(K.char), 1e-9, "characters when both cells coincide")
        else:
            ref = np.zeros((len(sets), len(inds)), complex)
            for j, i in enumerate(inds):
                gC = Action(kp.k, kp.G, W[i - 1], w[i - 1]).apply(C, S[i - 1] if spinor else None)
                tr = np.einsum("ij,ij->i", C.conj(), gC)
                ref[:, j] = [tr[a:b].sum() for a, b in sets]
            close(np.asarray(K.char_refUC), ref, 4e-4,
                  f"characters of the tabulated operations {inds} of SG {crys.n} at {kp.k} ({K.k_refUC} in the reference cell)")
        note.nontrivial(not same and len(inds) > 1)
        if np.abs(np.asarray(K.char_refUC) - np.asarray(K.char)).max() > 1e-2:
            note("characters of the two cells differ")
    note("same cell" if same else case["cell"])
    if np.linalg.det(refUC.T @ crys.Lattice) < 0:
        note("left-handed reference cell")
    # JSON of a k point and of the operations
    bs.identify_irreps(None)
    js = bs.json()
    for K, d in zip(bs.kpoints, js["k points"]):
        close(np.asarray(d["characters refUC"]), np.asarray(K.char_refUC), 1e-9, "characters refUC in JSON")
        eq = bool(np.abs(np.asarray(K.char) - np.asarray(K.char_refUC)).max() < 1e-4)
        check(d["characters refUC is the same"] == eq, "'characters refUC is the same' is {}", d["characters refUC is the same"])
    check_ops(bs.spacegroup, crys, refUC, shift, T, same)


def tmod(t, t0, L, tol=1e-4):
    d = L @ (np.asarray(t, float) - t0)
    return np.abs(d - np.round(d)).max() < tol


def check_ops(sg, crys, refUC, shift, T, same):
    js = sg.json()
    check(js["cells match"] == same, "'cells match' is {}", js["cells match"])
    check(js["number"] == crys.n and js["num symmetries"] == len(T.R), "space group in JSON: {}", js["number"])
    check(sorted(js["symmetries"]) == list(range(1, len(T.R) + 1)), "operations in JSON: {}", sorted(js["symmetries"]))
    for i, d in js["symmetries"].items():
        close(np.asarray(d["rotation matrix refUC"]), T.R[i - 1], 0, f"rotation matrix refUC of operation {i} in JSON")
        check(tmod(d["translation refUC"], T.tx[i - 1], refUC), "translation refUC of operation {}: {} instead of {}", i,
              d["translation refUC"], T.tx[i - 1])
        W = refUC @ T.R[i - 1] @ np.linalg.inv(refUC)
        close(np.asarray(d["rotation matrix"]), W, 1e-6, f"rotation matrix of operation {i} in JSON")
        close(np.asarray(d["translation"]) % 1, np.asarray(sg.symmetries[i - 1].translation) % 1, 1e-9, "translation in JSON")
    # printed description
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        sg.show()
    txt = buf.getvalue()
    num = r"(-?\d+\.\d+)"
    v = re.findall(r"a\d = +" + r" +".join([num] * 3) + r" +\|  a\d = +" + r" +".join([num] * 3), txt)
    check(len(v) == 3, "printed lattice vectors: {}", v)
    v = np.array(v, float)
    close(v[:, :3], crys.Lattice, 6e-5, "printed vectors of the DFT cell")
    close(v[:, 3:], refUC.T @ crys.Lattice, 6e-5, "printed vectors of the reference cell")
    p = np.array(re.findall(r"^ +(\d+) +\| +" + r" +".join([num] * 3) + r" \| +" + r" +".join([num] * 3), txt, re.M), float)
    check(len(p) == len(crys.positions), "{} atoms printed", len(p))
    close(p[:, 0], np.asarray(sg.typat), 0, "printed types")
    close(p[:, 1:4], np.asarray(sg.positions), 6e-5, "printed positions")
    close(p[:, 4:], (np.linalg.inv(refUC) @ (np.asarray(sg.positions) - shift).T).T, 6e-5, "printed positions in the reference cell")
    r = re.search(r"\| +" + r" *".join([num] * 3) + r" \|\s*\nrefUC = \| +" + r" *".join([num] * 3) +
                  r" \| +shiftUC = \[(.*?)\]\s*\n +\| +" + r" *".join([num] * 3), txt, re.S)
    check(r, "transformation not printed")
    g = r.groups()
    close(np.array(g[:6] + g[7:], float).reshape(3, 3), refUC.T, 6e-5, "printed refUC (rows: reference vectors)")
    close(np.array(g[6].split(), float), shift, 2e-5, "printed shiftUC")
    blocks = txt.split(" ### ")[1:]
    check(len(blocks) == len(T.R), "{} operations printed", len(blocks))
    for i, b in enumerate(blocks):
        check(int(b.split()[0]) == i + 1, "operation printed as {}", b.split()[0])
        rows = re.findall(r"\|([ \-\d]+)\|", b)
        a = np.array([x.split() for x in rows], int)
        s = sg.symmetries[i]
        if same:
            close(a, s.rotation, 0, f"printed rotation {i+1}")
        else:
            close(a[0::2], s.rotation, 0, f"printed rotation {i+1}")
            close(a[1::2], T.R[i], 0, f"printed rotation {i+1} in the reference cell")
            t = np.array(re.search(r"translation \(refUC\) : +\[(.*?)\]", b).group(1).split(), float)
            check(tmod(t, T.tx[i], refUC, 1e-3), "printed translation {} of operation {} in the reference cell", t, i + 1)
        t = np.array(re.search(r"translation +: +\[(.*?)\]", b).group(1).split(), float)
        d = t - s.translation
        close(d, np.round(d), 6e-5, f"printed translation {i+1}")
        # action on k
        ks = re.findall(r"gk = \[(.*?)\]", b)
        check(len(ks) == (1 if same else 2), "action on k not printed")
        close(kparse(ks[0]), np.linalg.inv(s.rotation).T, 1e-9, f"printed action of operation {i+1} on k")
        if not same:
            close(kparse(ks[1]), np.linalg.inv(T.R[i]).T, 1e-9, f"printed action of operation {i+1} on k in the reference cell")


def kparse(s):
    M = np.zeros((3, 3))
    for i, row in enumerate(s.split(",")):
        for c, x in re.findall(r"([+-]?[\d.]*)k([xyz])", row.replace(" ", "")):
            M[i, "xyz".index(x)] += float(c + "1") if c in ("", "+", "-") else float(c)
    return M


TARGETS = [Target("characters", run, case_st, quick=900, thorough=40000)]
