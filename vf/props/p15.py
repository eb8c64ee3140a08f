"""P15: symmetry files are written and read back without loss."""
import os
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, cart
from ..gen import *
from ..writers import BOHR
from .cli import invoke, argv

RULE = ("Crystals of all space groups; .sym files written by the code (library and -writesym) are parsed independently, and files "
        "in any order of operations (written by the code or generated) are read back, also in complete calculations. "
        "Non-trivial: at least two operations besides the identity and a nonzero translation, or a calculation with several of them.")
ASSUMPTIONS = ["the lattice parameter is in Bohr radii, as in Quantum Espresso"]


def parse(path):
    L = [l.split() for l in open(path).read().split("\n") if l.strip()]
    n = int(L[0][0])
    check(len(L[0]) == 1 and len(L) == 1 + 4 * n, "{} lines for {} operations", len(L), n)
    X = np.array(L[1:], float).reshape(n, 4, 3)
    return X[:, :3], X[:, 3]


def compose(path, rows, digits, blank):
    with open(path, "w") as f:
        f.write(f" {len(rows)} \n")
        for R, t in rows:
            f.write("\n" * blank)
            for x in np.vstack([R, [t]]):
                f.write("  ".join(f"{y:.{digits}f}" for y in x) + "\n")


def check_file(path, syms, crys, alat):
    Rs, ts = parse(path)
    check(len(Rs) == len(syms), "{} operations in the file instead of {}", len(Rs), len(syms))
    L = np.asarray(crys.Lattice)
    for i, (R, t, s) in enumerate(zip(Rs, ts, syms)):
        close(R, cart(L, s.rotation), 1e-9, f"Cartesian rotation {i+1} in the file")
        close(t * alat * BOHR, -np.asarray(s.translation) @ L, 1e-7 + 1e-8 * np.abs(L).max(), f"translation {i+1} in the file, in units of the lattice parameter")
    # the operations as described in the file map the atoms onto themselves; in a line of the file
    # Fortran reads the elements (:, i) of a matrix, so rR is R (as printed) times the column r
    X = np.asarray(crys.positions) @ L
    Li = np.linalg.inv(L)
    for R, t in zip(Rs, ts):
        Y = (X @ R.T - t * alat * BOHR) @ Li
        for y, ty in zip(Y, crys.typat):
            d = (y - np.asarray(crys.positions) + .5) % 1 - .5
            j = np.abs(d).max(axis=1).argmin()
            check(np.abs(d[j]).max() < 1e-4 and crys.typat[j] == ty, "an operation of the file does not map atoms onto atoms")


def op_key(s):
    return tuple(np.asarray(s.rotation, int).reshape(-1)) + tuple(np.round(np.asarray(s.translation, float) % 1, 4) % 1)


def case_st(cells=False):
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(cells=cells), spinor=st.booleans(), alat=st.sampled_from([None, 1.0, 7.3, 10.26, 0.5]),
        search=st.just(False) if cells else st.booleans(),
        oseed=ints(0, 10 ** 6), own=st.booleans(), digits=st.sampled_from([10, 12, 15]), blank=ints(0, 2), latt=st.booleans()))


def run(case, note):
    from irrep.spacegroup import SpaceGroup
    crys = Crystal(case["crystal"])
    crys.require_number()
    rng = np.random.default_rng(case["oseed"])
    sg = SpaceGroup(crys.cell, spinor=case["spinor"], search_cell=case["search"])
    alat = case["alat"] or 1.0
    sg.write_sym_file("a.sym", **({} if case["alat"] is None else dict(alat=alat)))
    check_file("a.sym", sg.symmetries, crys, alat)
    # the lattice parameter of the calculation is used if none is given
    sg2 = SpaceGroup(crys.cell, spinor=case["spinor"], search_cell=case["search"], alat=alat)
    sg2.write_sym_file("b.sym")
    check(open("a.sym").read() == open("b.sym").read(), "lattice parameter of the calculation not used")
    # in any order, written by the code or composed
    n = len(sg.symmetries)
    perm = rng.permutation(n)
    if case["own"]:
        Rs, ts = parse("a.sym")
        rows = [(Rs[i], ts[i]) for i in perm]
        want = [(sg.symmetries[i].rotation, np.asarray(sg.symmetries[i].translation)) for i in perm]
        digits = 15
    else:
        want, rows = [], []
        for i in perm:
            W, w = crys.W[i], np.array(crys.w[i])
            if case["latt"]:
                w = w + rng.integers(-1, 2, 3)
            want.append((W, w))
            rows.append((cart(crys.Lattice, W), -w @ crys.Lattice / alat / BOHR))
        digits = case["digits"]
    compose("c.sym", rows, digits, case["blank"])
    sg3 = SpaceGroup(crys.cell, spinor=case["spinor"], search_cell=case["search"], alat=alat, from_sym_file="c.sym")
    check(sg3.number == crys.n and sg3.order == n == len(sg3.symmetries), "group {} with {} operations read", sg3.number, sg3.order)
    # the same vectors in units of the lattice: large and nearly cancelling in sheared cells
    tol = 1e-6 if digits == 15 else 1e-7 * 10 ** (10 - digits) * 100
    left = list(want)
    for s in sg3.symmetries:
        hit = [j for j, (W, w) in enumerate(left) if (np.asarray(s.rotation) == W).all() and np.abs((s.translation - w + .5) % 1 - .5).max() < tol]
        check(len(hit) == 1, "operation {} | {} is not in the file", np.asarray(s.rotation).tolist(), s.translation)
        left.pop(hit[0])
    byop = {op_key(s): s for s in sg.symmetries}
    if case["search"]:
        for a, b in zip(sg.symmetries, sg3.symmetries):
            check((np.asarray(a.rotation) == b.rotation).all(), "order of operations read from a file: rotation {} is {}", a.ind, b.rotation.tolist())
            check(a.ind == b.ind and a.sign == b.sign, "index or sign of operation {} read from a file", a.ind)
    check(sorted(s.ind for s in sg3.symmetries) == list(range(1, n + 1)), "numbers of the operations read")
    for s in sg3.symmetries:
        o = byop.get(op_key(s))
        if o is None:
            continue
        check(bool(o.inversion) == bool(s.inversion) and abs(o.angle - s.angle) < 1e-6, "angle or inversion of an operation read from a file")
        close(np.asarray(s.axis), np.asarray(o.axis), 1e-6, "axis of an operation read from a file")
        close(s.spinor_rotation, o.spinor_rotation, 1e-6, "spin rotation of an operation read from a file")
    note.nontrivial(n > 2 and any(np.abs(s.translation).max() > 1e-6 for s in sg.symmetries))
    note("read in own format" if case["own"] else "composed file")


# ------------------------------------------------------ complete calculations
def full_st(cells=False):
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(cells=cells), spinor=st.booleans(), code=st.sampled_from(CODES),
        named=st.just(False) if cells else st.booleans(), ik=ints(0, 40),
        kpts=st.lists(kpt_st(), min_size=1, max_size=2), npw=ints(12, 40), nsets=ints(1, 4), cseed=ints(0, 10 ** 6),
        alat=st.sampled_from([None, 1.0, 7.3]), oseed=ints(0, 10 ** 6), cli=st.booleans(),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), search=st.just(False) if cells else st.booleans()))


def run_full(case, note):
    from . import p14
    crys = Crystal(case["crystal"])
    crys.require_number()
    spinor, code = case["spinor"], case["code"]
    names = None
    if case["named"]:
        from irrep.spacegroup import SpaceGroup
        T = table(crys.n, spinor)
        refUC = np.array(SpaceGroup(crys.cell, spinor=spinor, search_cell=True).refUC, float)
        i = case["ik"] % len(T.kx)
        ks, names = [np.linalg.inv(refUC.T) @ T.kx[i]], [T.kpoints[i][0]]
    else:
        ks = [crys.k_dft(k) for k in case["kpts"]]
    calc, _ = p14.build(case, crys, ks)
    alat = case["alat"]
    qe_alat = 6.6 if code == "espresso" else None
    base = write(calc, code, **({"alat": 6.6} if code == "espresso" else {}))
    search = case["named"] or case["search"]
    eff = alat or qe_alat          # lattice parameter used
    bs = run_bs(base, search_cell=search, **({} if alat is None else dict(alat=alat)))
    bs.identify_irreps(names)
    if case["cli"] and (code in ("espresso", "wannier90")):
        args = argv(base) + (["-searchcell"] if search else []) + ["-onlysym", "-writesym"]
        if alat is not None:
            args += ["-alat", repr(alat)]
        invoke(args, fail_ok=True)
        path = base["prefix"] + ".sym"
        check(os.path.isfile(path), "no file {} written by -writesym", path)
        note("-writesym")
    else:
        path = "x.sym"
        bs.spacegroup.write_sym_file(path, **({} if alat is None else dict(alat=alat)))
    eff = eff or 1.0
    check_file(path, bs.spacegroup.symmetries, crys, eff)
    Rs, ts = parse(path)
    perm = np.random.default_rng(case["oseed"]).permutation(len(Rs))
    compose("y.sym", [(Rs[i], ts[i]) for i in perm], 15, 1)
    kw = dict(from_sym_file="y.sym", search_cell=search)
    if not (code == "espresso" and alat is None):
        kw["alat"] = eff
    b2 = run_bs(base, **kw)
    b2.identify_irreps(names)
    for K, Q in zip(bs.kpoints, b2.kpoints):
        check(len(K.little_group) == len(Q.little_group), "little group with operations of a file")
        close(np.asarray(Q.k_refUC), np.asarray(K.k_refUC), 1e-9, "k point in the reference cell with operations of a file")
        col = {op_key(s): j for j, s in enumerate(K.little_group)}
        for j, s in enumerate(Q.little_group):
            check(op_key(s) in col, "operation {} read from the file", s.ind)
            c = col[op_key(s)]
            close(Q.char[:, j], K.char[:, c], 1e-7, "characters with operations of a file")
            close(Q.char_refUC[:, j], K.char_refUC[:, c], 1e-6, "characters in the reference cell with operations of a file")
        if names:
            for a, b in zip(Q.irreps, K.irreps):
                check(set(a) == set(b) and all(abs(a[x] - b[x]) < 1e-5 for x in a), "irreps with operations of a file {} instead of {}", a, b)
    if case["cli"]:
        args = argv(base) + ["-from_sym_file", "y.sym"] + (["-kpnames", names[0]] if names else ["-searchcell"] if search else [])
        if "alat" in kw:
            args += ["-alat", repr(kw["alat"])]
        invoke(args)
        from monty.serialization import loadfn
        js = loadfn("irrep-output.json")
        syms = {s.ind: op_key(s) for s in b2.spacegroup.symmetries}
        d = js["spacegroup"]["symmetries"]
        for i, k in syms.items():
            o = d[str(i)]
            close(np.asarray(o["rotation matrix"]).reshape(-1), np.array(k[:9]), 0, "operation read with -from_sym_file")
        for q, Q in zip(js["characters and irreps"][0]["subspace"]["k points"], b2.kpoints):
            close(np.asarray(q["characters"]), Q.char, 1e-8, "characters with -from_sym_file")
        note("-from_sym_file")
    note.nontrivial(any(len(K.little_group) > 2 for K in bs.kpoints))


TARGETS = [
    Target("file", run, case_st, quick=700, thorough=20000),
    Target("calculation", run_full, full_st, quick=350, thorough=10000),
    # cells with several primitive cells
    Target("file-supercell", run, lambda: case_st(True), quick=150, thorough=5000),
    Target("calculation-supercell", run_full, lambda: full_st(True), quick=100, thorough=3000),
]
