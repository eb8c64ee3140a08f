"""Generated crystals of every space group, described in any primitive cell.

The operations used as a reference come from the published tables (text files), not
from the code under test."""
import functools
import numpy as np
import spglib
from .core import Skip, REPO

PRIM = {
    'P': np.eye(3),
    'C': np.array([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]]),
    'A': np.array([[1, 0, 0], [0, .5, -.5], [0, .5, .5]]),
    'I': np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
    'F': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    'R': np.array([[2 / 3, 1 / 3, 1 / 3], [-1 / 3, 1 / 3, 1 / 3], [-1 / 3, -2 / 3, 1 / 3]]),
}
CENT = {
    'P': [[0, 0, 0]], 'C': [[0, 0, 0], [.5, .5, 0]], 'A': [[0, 0, 0], [0, .5, .5]],
    'I': [[0, 0, 0], [.5, .5, .5]],
    'F': [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
    'R': [[0, 0, 0], [2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]],
}


class RawTable:
    """Own parser of a table file (oracle side)."""

    def __init__(self, n, spinor, text=None):
        if text is None:
            path = f"{REPO}/irreptables/irreptables/tables/irreps-SG={n}-{'spin' if spinor else 'scal'}.dat"
            text = open(path).read()
        L = text.split("\n")
        self.head = {}
        i = 0
        while not L[i].strip().lower().startswith("symmetries"):
            if "=" in L[i]:
                k, v = L[i].split("=", 1)
                self.head[k.strip()] = v.strip()
            i += 1
        i += 1
        self.R, self.t, self.S = [], [], []
        nsym = int(self.head["nsym"])
        while len(self.R) < nsym:
            x = L[i].split()
            i += 1
            if not x:
                continue
            self.R.append(np.array([int(y) for y in x[:9]]).reshape(3, 3))
            self.t.append(np.array([float(y) for y in x[9:12]]))
            if len(x) > 12:
                a = np.array([float(y) for y in x[12:20]])
                self.S.append((a[:4] * np.exp(1j * np.pi * a[4:])).reshape(2, 2))
            else:
                self.S.append(np.eye(2))
        self.kpoints = []      # (name, k, isym, [(irrep, dim, chars)])
        for l in L[i:]:
            if not l.strip():
                continue
            if l.strip().startswith("kpoint"):
                a, b, c = l.split(":")
                isym = []
                for w in c.split():
                    if "-" in w:
                        p, q = w.split("-")
                        isym += list(range(int(p), int(q) + 1))
                    else:
                        isym.append(int(w))
                self.kpoints.append((a.split()[1], np.array([float(y) for y in b.split()]), isym, []))
            else:
                w = l.split()
                ns = len(self.kpoints[-1][2])
                x = np.array([float(y) for y in w[2:]])
                if len(x) == ns:
                    ch = x.astype(complex)
                elif len(x) == 2 * ns:
                    ch = x[:ns] * np.exp(1j * np.pi * x[ns:])
                else:
                    raise ValueError("bad irrep line " + l)
                self.kpoints[-1][3].append((w[0], int(w[1]), ch))
        self.name = self.head.get("name", "")
        self.nsym = nsym
        # exact translations / k points (files carry few digits)
        self.tx = [np.round(t * 24) / 24 for t in self.t]
        self.kx = [np.round(k[1] * 12) / 12 for k in self.kpoints]


@functools.lru_cache(maxsize=64)
def table(n, spinor):
    return RawTable(n, spinor)


def conv_lattice(n, m):
    """m: six numbers in [0,1] -> conventional lattice of the crystal system"""
    a, b, c = 3.6 + 3.0 * m[0], 3.7 + 3.0 * m[1], 3.8 + 3.0 * m[2]
    al, be, ga = 80 + 30 * m[3], 76 + 35 * m[4], 78 + 30 * m[5]
    if n <= 2:
        pass
    elif n <= 15:
        al = ga = 90
        be = 93 + 25 * m[4]
    elif n <= 74:
        al = be = ga = 90
    elif n <= 142:
        b, al, be, ga = a, 90, 90, 90
    elif n <= 194:
        b, al, be, ga = a, 90, 90, 120
    else:
        b, c, al, be, ga = a, a, 90, 90, 90
    al, be, ga = np.radians([al, be, ga])
    v = np.zeros((3, 3))
    v[0] = [a, 0, 0]
    v[1] = [b * np.cos(ga), b * np.sin(ga), 0]
    cx = c * np.cos(be)
    cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    v[2] = [cx, cy, np.sqrt(c * c - cx * cx - cy * cy)]
    v[np.abs(v) < 1e-12] = 0
    return v


def rotation_matrix(rv):
    from scipy.spatial.transform import Rotation
    return Rotation.from_rotvec(np.array(rv, float)).as_matrix()


UNI = [np.eye(3, dtype=int),
       np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
       np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
       np.array([[1, 0, 0], [-1, 1, 0], [0, 1, 1]]),
       np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]]),
       np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]),      # left-handed
       np.array([[-1, 0, 0], [0, -1, 0], [0, 0, -1]]),   # left-handed
       np.array([[1, 0, 1], [0, 1, -1], [0, 0, 1]]),
       np.array([[2, 1, 0], [1, 1, 0], [0, 1, 1]]),
       np.array([[1, 0, 0], [0, 0, 1], [0, 1, 0]])]      # left-handed


def unimodular(ilist):
    U = np.eye(3, dtype=int)
    for i in ilist:
        U = UNI[i % len(UNI)] @ U
    return U


class Crystal:
    """Lattice (rows), positions, typat and the operations {W|w} in the basis of the cell,
    in the order of the tables, with the conv = A x + s transformation."""

    def __init__(self, case, norb=None):
        n = self.n = case["sg"]
        T = table(n, False)
        self.table = T
        rng = np.random.default_rng(case.get("xseed", 0))
        L = conv_lattice(n, case["metric"])
        L = L @ rotation_matrix(case.get("rot", [0, 0, 0])).T
        P = unimodular(case.get("U", [])) @ PRIM[T.name[0]]
        self.P = P
        self.conv = L
        self.Lattice = P @ L
        self.A = P.T
        self.s = np.array(case.get("shift", [0, 0, 0]), float)
        Ai = np.linalg.inv(self.A)
        self.W, self.w = [], []
        for R, t in zip(T.R, T.tx):
            W = Ai @ R @ self.A
            Wi = np.round(W).astype(int)
            assert abs(W - Wi).max() < 1e-9
            self.W.append(Wi)
            self.w.append(Ai @ (R @ self.s + t - self.s))
        pos, typ = [], []
        norb = norb or case.get("norb", 2)
        for io in range(norb):
            x = rng.random(3)
            orb = []
            for W, w in zip(self.W, self.w):
                y = (W @ x + w) % 1
                if not any(np.abs((y - z + .5) % 1 - .5).max() < 1e-6 for z in orb):
                    orb.append(y)
            pos += orb
            typ += [io + 1] * len(orb)
        if case.get("super") is not None:
            pos, typ = self._repeat(case["super"], pos, typ)
        order = np.arange(len(pos))
        if case.get("shuffle"):
            order = rng.permutation(len(pos))
        self.positions = np.array(pos)[order]
        self.typat = [typ[i] for i in order]
        if case.get("digits"):           # as read from a file with few digits
            self.Lattice = np.round(self.Lattice, case["digits"])
            self.positions = np.round(self.positions, case["digits"])

    def _repeat(self, H, pos, typ):
        """describe the crystal in a cell with several primitive cells: rows of H times the vectors of
        the primitive cell ("conv": the conventional cell)"""
        H = np.round(np.linalg.inv(self.P)).astype(int) if isinstance(H, str) else np.array(H).reshape(3, 3)
        n = abs(round(np.linalg.det(H)))
        if not 1 <= n <= 4:
            raise Skip("supercell singular or large")
        self.P = H @ self.P
        self.Lattice = H @ self.Lattice
        self.A = self.P.T
        M = np.linalg.inv(H.T)              # x of the cell = M x of the primitive cell
        tr = []
        r = range(-6, 7)
        for m in np.array(np.meshgrid(r, r, r)).reshape(3, -1).T:
            y = (M @ m + 1e-9) % 1 - 1e-9
            if not any(np.abs((y - z + .5) % 1 - .5).max() < 1e-6 for z in tr):
                tr.append(y)
        if len(tr) != n:
            raise Skip("supercell with long vectors")
        tr.sort(key=lambda y: np.abs(y).max() > 1e-6)       # no translation first
        self.ncell = n
        W_, w_ = [], []
        for y in tr:
            for W, w in zip(self.W, self.w):
                X = M @ W @ H.T
                Xi = np.round(X).astype(int)
                if np.abs(X - Xi).max() < 1e-9:
                    W_.append(Xi)
                    w_.append(M @ w + y)
        self.W, self.w = W_, w_
        return [(M @ x + y) % 1 for x in pos for y in tr], [t for t in typ for y in tr]

    @property
    def cell(self):
        return (self.Lattice, self.positions, self.typat)

    def require_number(self):
        ds = spglib.get_symmetry_dataset((self.Lattice, self.positions, self.typat))
        if ds is None or ds.number != self.n or len(ds.rotations) != len(self.W):
            raise Skip("accidental symmetry of the generated atoms")
        return ds

    def k_dft(self, k_conv):
        """direct coordinates in the reciprocal basis of the cell"""
        return self.A.T @ np.array(k_conv, float)


def reciprocal(Lattice):
    return 2 * np.pi * np.linalg.inv(Lattice).T


def little_group(k, W, tol=1e-6):
    out = []
    for i, Wi in enumerate(W):
        kr = np.linalg.inv(Wi).T @ k
        d = kr - k
        if np.abs(d - np.round(d)).max() < tol:
            out.append(i)
    return out


SIGMA = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])


def cart(Lattice, W):
    return Lattice.T @ W @ np.linalg.inv(Lattice.T)


def su2(Rc):
    """One SU(2) lift of the proper part of a Cartesian rotation (via quaternions)"""
    R = Rc * np.sign(np.linalg.det(Rc))
    from scipy.spatial.transform import Rotation
    x, y, z, w = Rotation.from_matrix(R).as_quat()
    return w * np.eye(2) - 1j * (x * SIGMA[0] + y * SIGMA[1] + z * SIGMA[2])


def table_spin_frame(number, refUC, Lattice):
    """SU(2) matrix U with S_cartesian = U S_table U^dagger.

    Tables refer spinors to x along a and z along c* of the reference cell, and in
    trigonal and hexagonal groups to the axes F below (fixed once, from the tabulated
    matrices of all groups)."""
    v = np.asarray(refUC).T @ np.asarray(Lattice)
    if np.linalg.det(v) < 0:
        v = -v
    z = np.cross(v[0], v[1])
    z = z / np.linalg.norm(z)
    x = v[0] / np.linalg.norm(v[0])
    frame = np.array([x, np.cross(z, x), z])
    if 143 <= number <= 194:
        frame = np.array([[0, -1, 0], [-1, 0, 0], [0, 0, -1]]) @ frame
    return su2(frame.T)


def given_cell(crys, T, g=0):
    """Reference cell (columns) and origin a user may give: the one the crystal was made with, or the same followed by an
    operation of the group (g > 0) or the inversion of all vectors (g < 0), which also carry the operations onto those of
    the tables, in another order. Half of them are left-handed."""
    inv = np.linalg.inv(crys.A)
    R, t = np.eye(3), np.zeros(3)
    if g > 0:
        j = g % len(T.R)
        R, t = np.asarray(T.R[j], float), np.asarray(T.tx[j], float)
    elif g < 0:
        d = 2 * np.asarray(T.tx, float) @ inv.T
        if np.abs(d - np.round(d)).max() < 1e-3:
            R = -R
    return inv @ R, inv @ (t - crys.s)


def table_ops_in_cell(number, spinor, refUC, shiftUC, Lattice):
    """The operations exactly as tabulated, in the basis of the calculated cell:
    lists of W, w (not reduced modulo 1) and spin matrices in Cartesian axes"""
    T = table(number, spinor)
    refUC = np.asarray(refUC, float)
    shiftUC = np.asarray(shiftUC, float)
    inv = np.linalg.inv(refUC)
    W, w, S = [], [], []
    U = table_spin_frame(number, refUC, Lattice)
    for R, t, s in zip(T.R, T.tx, T.S):
        Wf = refUC @ R @ inv
        Wi = np.round(Wf).astype(int)
        W.append(Wi)
        w.append(refUC @ t + shiftUC - Wi @ shiftUC)
        x = U @ s @ U.conj().T
        # files carry 5 digits: use the exact matrix next to the tabulated one
        y = su2(cart(Lattice, Wi))
        y = y * np.sign(np.trace(y.conj().T @ x).real)
        S.append(y if np.abs(y - x).max() < 1e-3 else x)
    return W, w, S
