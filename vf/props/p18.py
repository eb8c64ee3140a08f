"""P18: inconsistent input is refused, never turned into a result."""
import os, re, shutil, json
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table
from ..gen import *
from ..states import box_planewaves, random_states
from ..writers import Calc, KP, write_wavecar, write_poscar, write_wfk, write_qe, write_w90, BOHR
from . import p14

RULE = ("A valid generated calculation (checked to give irreps) is made inconsistent in one way, of a kind and at a place drawn at "
        "random, and must end with an error, in the library and in the command line, without irreps. "
        "Non-trivial: every case (the valid calculation gives results, the inconsistent one is tried).")
ASSUMPTIONS = ["an error is an exception (library) or a nonzero exit code (command line)"]

MUT = {}


def mut(*codes, names=False):
    def deco(f):
        MUT[f.__name__] = (f, codes or tuple(CODES), names)
        return f
    return deco


class Ctx:
    """the valid calculation, and how it is called"""

    def __init__(self, crys, calc, code, names, ks, refUC, rng, case):
        self.crys, self.calc, self.code, self.names, self.ks, self.refUC, self.rng, self.case = crys, calc, code, names, ks, refUC, rng, case
        self.lib = {}
        self.kw = {}
        self.sep = None           # index of a symmetry to separate
        self.cli = True           # can be expressed in the command line

    def pick(self, *x):
        return x[self.rng.integers(len(x))]


# ---- names and cells
@mut(names=True)
def name_absent(c):
    i = c.rng.integers(len(c.names))
    T = table(c.crys.n, c.calc.spinor)
    have = {k[0] for k in T.kpoints}
    n = c.pick("NOPE", "Q9", c.names[i] + "x", c.names[i].lower() + "_", "GM1", "-" + c.names[i])
    if n in have:
        raise Skip("name exists")
    c.names = c.names[:i] + [n] + c.names[i + 1:]


@mut(names=True)
def name_similar(c):
    """part of a name of the tables, or in letters of other case"""
    T = table(c.crys.n, c.calc.spinor)
    have = {k[0] for k in T.kpoints}
    sim = lambda n: [x for x in (n[:-1], n[1:], n[:1], n.lower(), n.capitalize(), n.swapcase(), n + n[-1:]) if x and x not in have]
    j = [i for i, n in enumerate(c.names) if sim(n)]
    i = j[c.rng.integers(len(j))] if j else 0
    n = sim(c.names[i])
    if not n:
        raise Skip("no similar name")
    c.names = c.names[:i] + [n[c.rng.integers(len(n))]] + c.names[i + 1:]


@mut(names=True)
def name_of_other_point(c):
    """a name of the tables at other coordinates"""
    T = table(c.crys.n, c.calc.spinor)
    i = int(c.rng.integers(len(c.names)))
    o = [k for k, x in zip(T.kpoints, T.kx) if np.abs((np.linalg.inv(c.refUC.T) @ x - c.ks[i] + .5) % 1 - .5).max() > 1e-3]
    if not o:
        raise Skip("one point only")
    n = o[c.rng.integers(len(o))][0]
    c.names = c.names[:i] + [n] + c.names[i + 1:]


@mut(names=True)
def point_displaced(c):
    i = int(c.rng.integers(len(c.ks)))
    d = c.rng.permutation([c.pick(.5, .1, .01, -.003, .25, 1 / 3), 0, 0])
    c.ks = [k.copy() for k in c.ks]
    c.ks[i] = c.ks[i] + d + c.rng.integers(-2, 3, 3)
    c.calc = None


@mut(names=True)
def point_of_other_sign_or_order(c):
    """the coordinates of the point with other signs or in another order, not equivalent to it"""
    i = int(c.rng.integers(len(c.ks)))
    c.ks = [k.copy() for k in c.ks]
    k = c.ks[i].copy()
    c.ks[i] = -k if c.rng.random() < .4 else k * c.rng.choice([-1, 1], 3) if c.rng.random() < .5 else k[c.rng.permutation(3)]
    if np.abs((c.ks[i] - k + .5) % 1 - .5).max() < 1e-3:
        raise Skip("equivalent point")
    c.calc = None


@mut(names=True)
def names_missing(c):
    if len(c.names) < 2:
        raise Skip("one point only")
    c.names = c.names[:-1]


@mut(names=True)
def wrong_cell(c):
    """reference cell or origin of the user that does not match the tables"""
    R = c.refUC.copy()
    kind = c.pick("scale", "shift", "shear", "none")
    crys = c.crys
    inv = np.linalg.inv(crys.A)
    kw = dict(refUC=inv.T, shiftUC=-inv @ crys.s)
    if kind == "scale":
        kw["refUC"] = kw["refUC"] * c.pick(2, .5, 3)
        lat = True
    elif kind == "shift":
        kw["shiftUC"] = kw["shiftUC"] + c.rng.permutation([c.pick(.13, .07, -.21), 0, 0])
    elif kind == "shear":
        kw["refUC"] = (inv @ np.array([[1, .5, 0], [0, 1, 0], [0, 0, 1]])).T
    else:
        kw = dict(refUC=np.eye(3), shiftUC=np.array([.1, .23, .05]))
    # is it one that matches after all? (independent comparison with the tables)
    A = np.linalg.inv(np.asarray(kw["refUC"], float).T)
    s = np.asarray(kw["shiftUC"], float)
    T = table(crys.n, False)
    ok = True
    Ai = np.linalg.inv(A)
    tab = list(zip(T.R, T.tx))
    for W, w in zip(crys.W, crys.w):
        Rr = A @ W @ Ai
        t = A @ (w + W @ s - s)
        hit = [1 for R0, t0 in tab if np.abs(Rr - R0).max() < 1e-4 and np.abs((Ai @ (t - t0) + .5) % 1 - .5).max() < 1e-3]
        ok = ok and bool(hit)
    if ok:
        raise Skip("the cell matches the tables")
    c.kw.update(kw)
    c.refUC_given = True
    c.nosearch = c.rng.random() < .4


@mut(names=True)
def several_primitive_cells(c):
    """the same crystal in a cell with several primitive cells: its translations belong to no operation of the tables"""
    H = SUPER[int(c.rng.integers(len(SUPER)))]
    x = Crystal({**c.case["crystal"], "super": H})
    if x.ncell < 2:
        raise Skip("primitive cell")
    M = x.P @ np.linalg.inv(c.crys.P)
    c.crys, c.ks, c.calc = x, [M @ k for k in c.ks], None
    c.nosearch = c.rng.random() < .3


@mut(names=True)
def missing_operation(c):
    """a file of operations without one of them"""
    crys = c.crys
    n = len(crys.W)
    if n < 2:
        raise Skip("trivial group")
    drop = int(c.rng.integers(1, n))
    from ..crystal import cart
    with open("part.sym", "w") as f:
        f.write(f"{n-1}\n")
        for i in range(n):
            if i == drop:
                continue
            f.write("\n")
            for x in np.vstack([cart(crys.Lattice, crys.W[i]), [-crys.w[i] @ crys.Lattice / BOHR]]):
                f.write("  ".join(f"{y:.15f}" for y in x) + "\n")
    c.kw.update(from_sym_file="part.sym", alat=1.0)


@mut()
def bad_sym_file(c):
    crys = c.crys
    from ..crystal import cart
    kind = c.pick("count", "count", "lines", "rotation", "tilt", "noalat")
    n = len(crys.W)
    with open("bad.sym", "w") as f:
        f.write(f"{n + (c.pick(1, -1) if kind == 'count' else 0)}\n")
        for i in range(n):
            f.write("\n")
            R = cart(crys.Lattice, crys.W[i])
            if kind == "rotation" and i == n - 1:
                R = R @ np.array([[.6, .8, 0], [-.8, .6, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, .28, .96], [0, -.96, .28]])
            if kind == "tilt" and i == n - 1:
                R = R @ np.array([[np.cos(.03), np.sin(.03), 0], [-np.sin(.03), np.cos(.03), 0], [0, 0, 1]])
            X = np.vstack([R, [-crys.w[i] @ crys.Lattice / BOHR]])
            for x in X[:3] if kind == "lines" and i == n - 1 else X:
                f.write("  ".join(f"{y:.15f}" for y in x) + "\n")
    c.kw.update(from_sym_file="bad.sym")
    if kind != "noalat":
        c.kw.update(alat=1.0)
    elif c.code == "espresso":
        raise Skip("lattice parameter known")


# ---- values
@mut()
def empty_bands(c):
    nb = len(c.calc.kpts[0].E)
    k = c.pick(0, 1, 2)
    if k == 0:
        c.kw.update(IBstart=nb + int(c.rng.integers(1, 4)))
    elif k == 1 and nb > 1:
        c.kw.update(IBstart=nb, IBend=int(c.rng.integers(1, nb)))
    else:
        c.kw.update(IBstart=nb + 1, IBend=nb + 5)


@mut()
def unknown_code(c):
    c.lib["code"] = c.pick("siesta", "vasp6", "qe", "w90", "", "abinit2")


@mut()
def fermi_level(c):
    c.kw["EF"] = c.pick("fermi", "", "1.2eV", "1,5", "autom", "--")


@mut()
def separating_symmetry(c):
    """a symmetry that does not exist, or that sends a k point to another one"""
    crys = c.crys
    n = len(crys.W)
    if c.rng.random() < .5:
        c.sep = c.pick(0, -1, -2, n + 1, n + 7)
        return
    from irrep.spacegroup import SpaceGroup
    sg = SpaceGroup(crys.cell, spinor=c.calc.spinor, search_cell=c.case["named"])
    bad = [s.ind for s in sg.symmetries for k in c.ks
           if np.abs((np.linalg.inv(s.rotation).T @ k - k + .5) % 1 - .5).max() > 1e-3]
    if not bad:
        raise Skip("all k points are invariant under all symmetries")
    c.sep = bad[c.rng.integers(len(bad))]


# ---- VASP
@mut("vasp")
def lattice_differs(c):
    L = c.calc.Lattice.copy()
    i, j = c.rng.integers(0, 3, 2)
    k = c.pick("one", "scale", "rot", "order")
    if k == "one":
        L[i, j] += c.pick(.01, -.5, 1e-3) * np.abs(L).max()
    elif k == "scale":
        L = L * c.pick(1.01, 2., .529177, 1.0005)
    elif k == "rot":
        L = L @ np.array([[.8, .6, 0], [-.6, .8, 0], [0, 0, 1]])
    else:
        L = L[[1, 2, 0]]
        if np.abs(L - c.calc.Lattice).max() < 1e-3:
            raise Skip("same lattice")
    write_wavecar("WAVECAR", c.calc, lattice=L)


@mut("vasp")
def spinor_flag(c):
    c.lib["spinor"] = not c.calc.spinor


@mut("vasp")
def spinor_missing(c):
    c.lib["spinor"] = None
    c.cli = False


@mut("vasp")
def number_of_planewaves(c):
    """coefficients more or fewer than plane waves below the cutoff"""
    i = int(c.rng.integers(len(c.calc.kpts)))
    kp = c.calc.kpts[i]
    d = c.pick(1, 2, -1, -2)
    G = kp.G.copy()
    n, s = len(G), 2 if c.calc.spinor else 1
    C = kp.C.reshape(len(kp.E), s, n)
    if d > 0:
        G = np.vstack([G, [[30 + j, 0, 0] for j in range(d)]])
        C = np.concatenate([C, np.full((len(kp.E), s, d), .1)], axis=2)
    else:
        G, C = G[:d], C[:, :, :d]
    c.calc.kpts[i] = KP(kp.k, G, C.reshape(len(kp.E), -1), kp.E)
    write_wavecar("WAVECAR", c.calc)


@mut("vasp")
def cutoff_differs(c):
    E0 = c.calc.Ecut
    f = c.pick(.8, 1.3, .9, 1.1, .5)
    if all(len(box_planewaves(k.k, c.calc.Lattice, E0 * f)[0]) == len(k.G) for k in c.calc.kpts):
        raise Skip("no plane wave in between")
    c.calc.Ecut = E0 * f
    write_wavecar("WAVECAR", c.calc)


@mut("vasp")
def spin_polarised(c):
    write_wavecar("WAVECAR", c.calc, ispin=2)


@mut("vasp")
def double_precision(c):
    write_wavecar("WAVECAR", c.calc, prec=c.pick(45210, 45100, 53300))


@mut("vasp")
def poscar_atoms_missing(c):
    L = open("POSCAR").read().rstrip("\n").split("\n")
    open("POSCAR", "w").write("\n".join(L[:-int(c.rng.integers(1, 3))]) + "\n")


@mut("vasp")
def poscar_coordinates(c):
    s = open("POSCAR").read()
    open("POSCAR", "w").write(s.replace("Direct", c.pick("Fractional", "Polar", "xyz")))


# ---- Abinit
@mut("abinit")
def abinit_header(c):
    kw = c.pick(dict(headform=57), dict(headform=79), dict(occopt=9), "istwfk")
    if kw == "istwfk":
        w = [1] * len(c.calc.kpts)
        w[c.rng.integers(len(w))] = int(c.rng.integers(2, 10))
        kw = dict(istwfk=w)
    write_wfk("gen_WFK", c.calc, **kw)


@mut("abinit")
def abinit_spin_channels(c):
    write_wfk("gen_WFK", c.calc, nsppol=2)


@mut("abinit")
def abinit_planewaves(c):
    """plane waves above the cutoff of the calculation"""
    kp = max(c.calc.kpts, key=lambda k: box_planewaves(k.k, c.calc.Lattice, c.calc.Ecut)[1].max())
    c.calc.Ecut = box_planewaves(kp.k, c.calc.Lattice, c.calc.Ecut)[1].max() * c.pick(.99, .7, .5)
    write_wfk("gen_WFK", c.calc)


# ---- Quantum Espresso
@mut("espresso")
def qe_planewaves(c):
    kp = max(c.calc.kpts, key=lambda k: box_planewaves(k.k, c.calc.Lattice, c.calc.Ecut)[1].max())
    c.calc.Ecut = box_planewaves(kp.k, c.calc.Lattice, c.calc.Ecut)[1].max() * c.pick(.99, .7, .5)
    write_qe("gen", c.calc)


@mut("espresso")
def spin_channel(c):
    if c.calc.spinor or c.rng.random() < .4:
        c.kw["spin_channel"] = c.pick("up", "dw", "down")
        c.cli = False
        return
    shutil.rmtree("gen.save")
    write_qe("gen", c.calc, channels=(c.calc, c.calc))
    ch = c.pick(None, None, "sideways")
    if ch:
        c.kw["spin_channel"] = ch
        c.cli = False


@mut("espresso")
def noncollinear_and_polarised(c):
    if not c.calc.spinor:
        raise Skip("scalar")
    p = "gen.save/data-file-schema.xml"
    s = open(p).read()
    nb = len(c.calc.kpts[0].E)
    open(p, "w").write(re.sub(r"<nbnd>.*?</nbnd>", f"<nbnd_up>{nb}</nbnd_up><nbnd_dw>{nb}</nbnd_dw>", s.replace("<lsda>false", "<lsda>true")))
    if c.rng.random() < .5:
        c.kw["spin_channel"] = "up"
        c.cli = False


@mut("espresso")
def qe_numbers(c):
    p = "gen.save/data-file-schema.xml"
    s = open(p).read()
    k = c.pick("npw", "species", "nbnd")
    if k == "npw":
        n = len(c.calc.kpts[0].G)
        s = s.replace(f"<npw>{n}</npw>", f"<npw>{n + c.pick(1, -1, 2)}</npw>")
    elif k == "nbnd":
        nb = len(c.calc.kpts[0].E)
        s = s.replace(f"<nbnd>{nb}</nbnd>", f"<nbnd>{nb + c.pick(1, 2)}</nbnd>")
    else:
        m = re.search(r'ntyp="(\d+)"', s)
        s = s.replace(m.group(0), f'ntyp="{int(m.group(1)) + 1}"')
    open(p, "w").write(s)


# ---- Wannier90
@mut("wannier90")
def no_cutoff(c):
    c.lib["Ecut"] = None


@mut("wannier90")
def eig_file(c):
    L = open("gen.eig").read().rstrip("\n").split("\n")
    k = c.pick("missing", "extra", "order", "index", "band")
    i = int(c.rng.integers(len(L)))
    if k == "missing":
        L.pop(i)
    elif k == "extra":
        L.insert(i, L[i])
    elif k == "order":
        j = int(c.rng.integers(len(L)))
        if L[i].split()[:2] == L[j].split()[:2]:
            raise Skip("same line")
        L[i], L[j] = L[j], L[i]
    else:
        w = L[i].split()
        w[1 if k == "index" else 0] = str(int(w[1 if k == "index" else 0]) + c.pick(1, -1, 3))
        L[i] = "  ".join(w)
    open("gen.eig", "w").write("\n".join(L) + "\n")


@mut("wannier90")
def win_file(c):
    s = open("gen.win").read()
    k = c.pick("missing", "twice", "bands", "grid", "noend", "wrongend", "twoblocks", "kind", "points", "number", "spinors")
    nb, nk = len(c.calc.kpts[0].E), len(c.calc.kpts)
    key = c.pick("num_bands", "mp_grid", "spinors")
    line = re.search(rf"^{key} .*$", s, re.M).group(0)
    if k == "missing":
        s = s.replace(line + "\n", "")
    elif k == "twice":
        s = line + "\n" + s
    elif k == "bands":
        s = s.replace(f"num_bands = {nb}\n", f"num_bands = {nb + c.pick(1, -1, 2)}\n")
    elif k == "grid":
        s = s.replace(f"mp_grid = {nk} 1 1", f"mp_grid = {nk} 1 {c.pick(2, 3)}" if c.rng.random() < .5 or nk == 1 else f"mp_grid = {nk-1} 1 1")
    elif k in ("noend", "wrongend"):
        b = c.pick("unit_cell_cart", "kpoints", "atoms_frac")
        s = s.replace(f"end {b}\n", "" if k == "noend" else f"end {c.pick('kpts', 'block', 'projections', 'atoms_cart' if b == 'atoms_frac' else 'unit_cell')}\n") if k == "wrongend" or b != "kpoints" \
            else s.replace("end kpoints\n", "end atoms\n")
    elif k == "twoblocks":
        b = c.pick("unit_cell_cart", "kpoints", "atoms_frac")
        m = re.search(rf"begin {b}\n.*?end {b}\n", s + "\n", re.S).group(0)
        s = s + "\n" + m
    elif k == "kind":
        s = s.replace("atoms_frac", "atoms_polar")
    elif k == "points":
        L = s.split("\n")
        i = L.index("begin kpoints")
        L.pop(i + 1)
        s = "\n".join(L)
    elif k == "number":
        s = s.replace(f"num_bands = {nb}", f"num_bands = {nb} {nb}")
    else:
        x = "true" if c.calc.spinor else "false"
        s = s.replace(f".{x}.", ".false." if c.calc.spinor else ".true.")
    open("gen.win", "w").write(s)


@mut("wannier90")
def unk_file(c):
    i = int(c.rng.integers(len(c.calc.kpts)))
    ext = "NC" if c.calc.spinor else "1"
    f = "UNK%05d.%s" % (i + 1, ext)
    k = c.pick("number", "bands", "absent", "swap")
    if k == "absent":
        os.remove(f)
    elif k == "swap" and len(c.calc.kpts) > 1:
        j = (i + 1) % len(c.calc.kpts)
        shutil.copyfile("UNK%05d.%s" % (j + 1, ext), f)
    else:
        b = bytearray(open(f, "rb").read())
        o = 4 + 4 * (4 if k == "bands" else 3)
        v = int.from_bytes(b[o:o + 4], "little") + c.pick(1, -1, 2)
        b[o:o + 4] = int(v % 2 ** 31).to_bytes(4, "little")
        open(f, "wb").write(bytes(b))


# ---- all codes
@mut()
def truncated(c):
    """a file of wave functions or energies that ends too early"""
    i = int(c.rng.integers(len(c.calc.kpts)))
    f = dict(vasp="WAVECAR", abinit="gen_WFK", espresso=f"gen.save/wfc{i+1}.dat",
             wannier90=c.pick("gen.eig", "UNK%05d.%s" % (i + 1, "NC" if c.calc.spinor else "1")))[c.code]
    b = open(f, "rb").read()
    n = len(b)
    if c.code == "vasp":
        # at least one coefficient of the last state is lost (records are padded)
        rl = int(np.frombuffer(b[:8])[0])
        last = (n // rl - 1) * rl + 8 * c.calc.kpts[-1].C.shape[1] - 8
        cut = int(c.rng.integers(rl * 2, last))
    elif f.endswith("eig"):
        cut = b.rstrip().rfind(b"\n") + 1
    else:
        cut = int(c.rng.integers(n // 4, n - 8))
    open(f, "wb").write(b[:cut])


@mut()
def file_absent(c):
    f = dict(vasp=c.pick("WAVECAR", "POSCAR"), abinit="gen_WFK", espresso=c.pick("gen.save/wfc1.dat", "gen.save/data-file-schema.xml"),
             wannier90=c.pick("gen.eig", "gen.win"))[c.code]
    os.remove(f)


def case_st(kind=None):
    return st.tuples(st.sampled_from(sorted(MUT)), st.sampled_from(CODES)).flatmap(lambda t: st.fixed_dictionaries(dict(
        mut=st.just(t[0]), code=st.just(t[1] if t[1] in MUT[t[0]][1] else MUT[t[0]][1][0]),
        crystal=crystal_st(), spinor=st.booleans(), ik=st.lists(ints(0, 40), min_size=1, max_size=3),
        npw=ints(12, 36), nsets=ints(1, 4), esteps=st.lists(ints(0, 4), min_size=1, max_size=4), cseed=ints(0, 10 ** 6), mseed=ints(0, 10 ** 6),
        named=st.booleans(), cli=st.booleans())))


def run(case, note):
    from irrep.spacegroup import SpaceGroup
    f, codes, need = MUT[case["mut"]]
    crys = Crystal(case["crystal"])
    crys.require_number()
    spinor, code = case["spinor"], case["code"]
    named = need or case["named"]
    T = table(crys.n, spinor)
    refUC = np.array(SpaceGroup(crys.cell, spinor=spinor, search_cell=True).refUC, float) if case["mut"] != "wrong_cell" else np.linalg.inv(crys.A)
    idx = sorted({i % len(T.kx) for i in case["ik"]})
    ks = [np.linalg.inv(refUC.T) @ T.kx[i] for i in idx]
    names = [T.kpoints[i][0] for i in idx] if named else None
    calc, _ = p14.build(case, crys, ks)
    base = write(calc, code)
    rng = np.random.default_rng(case["mseed"])
    given = {}
    if case["mut"] == "wrong_cell":
        inv = np.linalg.inv(crys.A)
        given = dict(refUC=inv.T, shiftUC=-inv @ crys.s)
    bs = run_bs(base, search_cell=named, **given)
    bs.identify_irreps(names)
    c = Ctx(crys, calc, code, names, ks, refUC, rng, case)
    f(c)
    if c.calc is None:              # k points changed
        calc, _ = p14.build(case, c.crys, c.ks)
        base = write(calc, code)
    lib = {**base, **c.lib, **c.kw}
    lib = {k: x for k, x in lib.items()}
    what = case["mut"]
    note(what)
    note.nontrivial()
    search = named and not getattr(c, "nosearch", False)
    if case["cli"] and c.cli:
        args = []
        for k, x in lib.items():
            if k == "spinor":
                args += ["-spinor"] if x and code == "vasp" else []
            elif k in ("refUC", "shiftUC"):
                args.append(f"-{k}=" + ",".join(repr(float(y)) for y in np.asarray(x).reshape(-1)))
            elif x is not None:
                args.append(f"-{k}={x}")
        if c.names:
            args.append("-kpnames=" + ",".join(c.names))
        if c.sep is not None:
            args += [f"-isymsep={c.sep}"]
        from click.testing import CliRunner
        from irrep.cli import cli
        r = CliRunner().invoke(cli, args)
        note("command line")
        if r.exit_code == 0 and r.exception is None:
            raise Violation(f"{what}: accepted by the command line {args}: {r.output[-800:]}")
        # (the separation comes after the irreps of all states)
        check(c.sep is not None or not os.path.exists("irreps.dat") and not os.path.exists("irrep-output.json"), "{}: results written in spite of the error {}", what, r.exception)
        return
    try:
        b2 = run_bs(lib, search_cell=search)
        b2.identify_irreps(c.names)
        if c.sep is not None:
            b2.Separate(c.sep)
    except Exception as e:
        if isinstance(e, (Violation, Skip)):
            raise
        note("error " + type(e).__name__)
        return
    raise Violation(f"{what}: accepted; irreps {[k.irreps for k in b2.kpoints]}")


TARGETS = [Target("refused", run, case_st, quick=2500, thorough=50000)]
