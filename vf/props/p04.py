"""P04: operations are those of the crystal, geometric, and form a (double) group."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, cart, SIGMA, CENT, table_spin_frame, PRIM
from ..gen import *

RULE = ("Crystals of all space groups in primitive and centred (conventional) or doubled cells, random metric, origin and "
        "orientation, exact or rounded to 7-8 digits; non-trivial: at least two operations besides the identity.")
ASSUMPTIONS = ["the reference set of operations are the tabulated ones transformed to the cell; spglib is used only to "
               "discard crystals with accidental symmetry"]


def reference_ops(crys):
    return list(zip(crys.W, crys.w))


class Cell:
    """A (possibly not primitive) cell of a crystal: rows of M in the basis of the cell of the crystal"""

    def __init__(self, crys, M):
        M = np.array(M)
        self.Lattice = M @ crys.Lattice
        self.n = crys.n
        Mi = np.linalg.inv(M.T)
        m = 3
        pos, typ, self.T = [], [], []
        r = range(-m, m + 1)
        for a in r:
            for b in r:
                for c in r:
                    x = Mi @ np.array([a, b, c])
                    x = x - np.floor(x + 1e-9)
                    if not any(np.abs((x - y + .5) % 1 - .5).max() < 1e-6 for y in self.T):
                        self.T.append(x)
        assert len(self.T) == round(abs(np.linalg.det(M)))
        for p, t in zip(crys.positions, crys.typat):
            for T in self.T:
                pos.append((Mi @ p + T) % 1)
                typ.append(t)
        self.positions, self.typat = np.array(pos), typ
        self.ops = []
        for W, w in zip(crys.W, crys.w):
            Wm = Mi @ W @ M.T
            if np.abs(Wm - np.round(Wm)).max() > 1e-6:
                continue              # not an operation of the larger lattice
            for T in self.T:
                self.ops.append((np.round(Wm).astype(int), Mi @ w + T))

    @property
    def cell(self):
        return (self.Lattice, self.positions, self.typat)


def same_mod1(a, b, tol=1e-4):
    d = np.asarray(a) - np.asarray(b)
    return np.abs(d - np.round(d)).max() < tol


def check_set(syms, ops):
    check(len(syms) == len(ops), "{} operations instead of {}", len(syms), len(ops))
    used = set()
    for s in syms:
        hit = [i for i, (W, w) in enumerate(ops) if (s.rotation == W).all() and same_mod1(s.translation, w)]
        check(len(hit) == 1, "operation {} | {} is not one of the crystal", np.asarray(s.rotation).tolist(), s.translation)
        used.add(hit[0])
    check(len(used) == len(ops), "operations of the crystal are missing: {}",
          [(ops[i][0].tolist(), ops[i][1].tolist()) for i in range(len(ops)) if i not in used][:3])
    inds = [s.ind for s in syms]
    check(sorted(inds) == list(range(1, len(syms) + 1)), "operations numbered {}", inds)


def check_geometry(syms, L, tol):
    for s in syms:
        R = cart(L, s.rotation)
        det = round(float(np.linalg.det(R)))
        check(bool(s.inversion) == (det < 0), "inversion={} for an operation of determinant {}", s.inversion, det)
        n, th = np.asarray(s.axis, float), float(s.angle)
        if abs(th) > 1e-9:               # no axis for the identity and inversion
            close(np.linalg.norm(n), 1, 1e-6, "length of the rotation axis")
        check(-np.pi - 1e-9 < th <= np.pi + 1e-9, "angle {}", th)
        X = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
        Rod = np.eye(3) + np.sin(th) * X + (1 - np.cos(th)) * X @ X
        close(det * Rod, R, tol, f"Cartesian rotation of axis {n}, angle {th/np.pi:.4f} pi, inversion {s.inversion}")
        S = np.asarray(s.spinor_rotation)
        close(S, expm(-0.5j * th * np.einsum("i,ijk->jk", n, SIGMA)), 1e-6, "spin rotation of axis and angle")
        close(S @ S.conj().T, np.eye(2), 1e-6, "unitarity of the spin rotation")
        close(np.linalg.det(S), 1, 1e-6, "determinant of the spin rotation")
        # spin rotation turns the Pauli matrices by the proper rotation
        M = np.array([[np.trace(SIGMA[i] @ S @ SIGMA[j] @ S.conj().T).real / 2 for j in range(3)] for i in range(3)])
        close(M, det * R, tol, "rotation of the spin")


def check_closure(syms, signs=None, pairs=None, rounded=False):
    keys = {}
    for i, s in enumerate(syms):
        keys.setdefault(s.rotation.tobytes(), []).append(i)
    S = np.array([s.spinor_rotation for s in syms])
    n = len(syms)
    pairs = pairs if pairs is not None else [(i, j) for i in range(n) for j in range(n)]
    out = {}
    for i, j in pairs:
        a, b = syms[i], syms[j]
        W = a.rotation @ b.rotation
        w = a.rotation @ b.translation + a.translation
        # rounded translations are magnified by the rotations of sheared cells
        tol = 1e-4 + 2e-5 * np.abs(a.rotation).sum(axis=1).max() * rounded
        k = [q for q in keys.get(W.astype(syms[0].rotation.dtype).tobytes(), []) if same_mod1(syms[q].translation, w, tol)]
        check(len(k) == 1, "product of operations {} and {} is not among them", a.ind, b.ind)
        k = k[0]
        P = S[i] @ S[j]
        tr = np.trace(P @ S[k].conj().T) / 2
        check(abs(abs(tr) - 1) < 1e-4 and abs(tr.imag) < 1e-4, "spin rotations of {} x {} and {} differ by {}",
              a.ind, b.ind, syms[k].ind, tr)
        out[i, j] = (k, round(tr.real))
    return out


def case_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(digits=True), spinor=st.booleans(),
        cell=st.sampled_from(["prim", "prim", "conv", "double0", "double2"])))


def sample_pairs(n, seed, limit=2500):
    if n * n <= limit:
        return None
    rng = np.random.default_rng(seed)
    return [tuple(x) for x in rng.integers(0, n, (limit, 2))]


def run(case, note):
    from irrep.spacegroup import SpaceGroup
    crys = Crystal(case["crystal"])
    crys.require_number()
    ops = reference_ops(crys)
    c = crys
    if case["cell"] != "prim":
        if case["crystal"].get("digits"):
            raise Skip("rounded coordinates only in primitive cells")
        if case["cell"] == "conv":
            M = np.round(np.linalg.inv(crys.P)).astype(int)
        else:
            M = np.eye(3, dtype=int)
            M[int(case["cell"][-1]), int(case["cell"][-1])] = 2
        if abs(np.linalg.det(M)) < 1.5:
            note("conventional cell is primitive")
        c = Cell(crys, M)
        ops = c.ops
        if len(ops) > 200:
            raise Skip("too many operations")
    sg = SpaceGroup(c.cell, spinor=case["spinor"])
    syms = sg.symmetries
    tol = 1e-4 if case["crystal"].get("digits") else 1e-6
    check_set(syms, ops)
    check_geometry(syms, c.Lattice, tol)
    check_closure(syms, pairs=sample_pairs(len(syms), case["crystal"]["xseed"]), rounded=bool(case["crystal"].get("digits")))
    note("cell " + case["cell"])
    note.nontrivial(len(syms) > 2)


def matched_st():
    return st.fixed_dictionaries(dict(crystal=crystal_st(), how=st.sampled_from(["search", "given", "given-nosearch"])))


def run_matched(case, note):
    """signs make the spin rotations multiply like, and be equivalent to, the tabulated ones"""
    from irrep.spacegroup import SpaceGroup
    crys = Crystal(case["crystal"])
    crys.require_number()
    T = table(crys.n, True)
    kw = {}
    if case["how"] != "search":
        inv = np.linalg.inv(crys.A)
        kw = dict(refUC=inv.T, shiftUC=-inv @ crys.s)
    sg = SpaceGroup(crys.cell, spinor=True, search_cell=case["how"] != "given-nosearch", **kw)
    syms = sg.symmetries
    check_set(syms, reference_ops(crys))
    check_geometry(syms, crys.Lattice, 1e-6)
    inv = np.linalg.inv(sg.refUC)
    for i, s in enumerate(syms):
        close(inv @ s.rotation @ sg.refUC, T.R[i], 1e-5, f"rotation of operation {i+1} in the reference cell")
    mult = check_closure(syms)
    for s in syms:
        check(s.sign in (1, -1), "sign {} of operation {}", s.sign, s.ind)
    for (i, j), (k, c) in mult.items():
        ct = np.trace(T.S[i] @ T.S[j] @ T.S[k].conj().T).real / 2
        # the tabulated product (up to lattice translations) has the same rotational part
        check((T.R[i] @ T.R[j] == T.R[k]).all(), "multiplication table differs: {} x {} = {}", i + 1, j + 1, k + 1)
        c = c * syms[i].sign * syms[j].sign * syms[k].sign
        check(abs(ct - c) < 1e-3, "signs of operations {} x {} = {}: {} instead of {}", i + 1, j + 1, k + 1, c, ct)
    U = table_spin_frame(crys.n, sg.refUC, crys.Lattice)
    for i, s in enumerate(syms):
        close(s.sign * s.spinor_rotation, U @ T.S[i] @ U.conj().T, 2e-3,
              f"signed spin rotation of operation {i+1} of SG {crys.n} and the tabulated one in the axes of the tables")
    note.nontrivial(len(syms) > 2)
    note(case["how"])
    note("some sign -1" if any(s.sign < 0 for s in syms) else "all signs +1")
    if any(case["crystal"]["rot"]):
        note("rotated crystal")


def exhaustive(tier):
    out = []
    for rep in range(1 if tier == "quick" else 6):
        for n in range(1, 231):
            h = (n * 7919 + rep * 5555557 + 77) % 10 ** 6
            out.append(dict(crystal=dict(sg=n, metric=[((h >> i) % 100) / 100 for i in range(6)],
                                         U=[h % 10, (h // 10) % 10][:rep % 3], shift=[h % 24 / 24, 0, 0],
                                         rot=[0, 0, 0] if h % 2 else [.3 * (1 + h % 7), -.7, 1.1], xseed=h, shuffle=False),
                            how=["search", "given"][h % 2]))
    return out


TARGETS = [
    Target("all-groups-signs", run_matched, enumerate_=exhaustive),
    Target("operations", run, case_st, quick=900, thorough=30000),
    Target("signs", run_matched, matched_st, quick=500, thorough=15000),
]
