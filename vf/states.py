"""Plane waves, symmetric and arbitrary states, and the reference action of operations."""
import numpy as np
from .crystal import reciprocal, cart, su2, little_group
from .core import Skip

H2M = 1 / 0.262465831       # hbar^2/2m in eV A^2 (value of VASP; codes differ by < 1e-6)


def box_planewaves(k, Lattice, Ecut):
    Rec = reciprocal(Lattice)
    kc = np.sqrt(Ecut / H2M)
    # |G_i + k_i| <= |a_i| kc / 2pi
    m = np.linalg.norm(Lattice, axis=1) * kc / (2 * np.pi)
    rng = [np.arange(int(np.floor(-m[i] - k[i])) - 1, int(np.ceil(m[i] - k[i])) + 2) for i in range(3)]
    G = np.stack(np.meshgrid(*rng, indexing="ij"), axis=-1).reshape(-1, 3)
    E = H2M * (((G + k) @ Rec) ** 2).sum(axis=1)
    sel = E < Ecut
    return G[sel], E[sel]


def pick_cutoff(kpts, Lattice, npw, rel=2e-3, maxg=45):
    """cutoff near the one giving npw plane waves, away from the energy of any plane wave"""
    V = abs(np.linalg.det(Lattice))
    kc = (npw * 6 * np.pi ** 2 / V) ** (1 / 3)
    E0 = H2M * kc ** 2
    # files of a few plane waves only, also if their vectors are long
    gmax = kc * np.linalg.norm(Lattice, axis=1) / (2 * np.pi)
    if sum(gmax) > maxg:
        raise Skip("plane waves with large vectors")
    Es = np.sort(np.concatenate([box_planewaves(np.array(k), Lattice, 2.2 * E0)[1] for k in kpts]))
    i0 = np.searchsorted(Es, E0)
    for d in range(0, len(Es)):
        for i in (i0 + d, i0 - d):
            if 1 <= i < len(Es) and Es[i] - Es[i - 1] > rel * E0:
                return 0.5 * (Es[i] + Es[i - 1])
    raise Skip("no gap between plane-wave shells")


class Action:
    """Reference action of {W|w} (and spin rotation S) on the plane waves of k."""

    def __init__(self, k, G, W, w):
        self.n = len(G)
        Wit = np.linalg.inv(W).T
        Kp = (Wit @ (np.asarray(G) + k).T).T
        Gp = Kp - k
        Gi = np.round(Gp).astype(int)
        if np.abs(Gp - Gi).max() > 1e-5:
            raise ValueError("operation not in the little group")
        idx = {tuple(g): i for i, g in enumerate(np.asarray(G).tolist())}
        self.target = np.array([idx[tuple(g)] for g in Gi.tolist()])
        self.phase = np.exp(-2j * np.pi * (Kp @ w))

    def apply(self, C, S=None):
        """rows of C: states [up | down]"""
        C = np.atleast_2d(C)
        out = np.zeros_like(C)
        n = self.n
        if S is None:
            out[:, self.target] = C * self.phase
        else:
            up, dn = C[:, :n] * self.phase, C[:, n:] * self.phase
            out[:, self.target] = S[0, 0] * up + S[0, 1] * dn
            out[:, n + self.target] = S[1, 0] * up + S[1, 1] * dn
        return out


def time_reversal(k, G, spinor):
    """matrix U of the time reversal U conj(.) at a k point equivalent to -k"""
    m = np.round(2 * np.asarray(k)).astype(int)
    assert np.abs(2 * np.asarray(k) - m).max() < 1e-9
    idx = {tuple(g): i for i, g in enumerate(np.asarray(G).tolist())}
    n = len(G)
    P = np.zeros((n, n))
    for i, g in enumerate(np.asarray(G)):
        P[idx[tuple((-g - m).tolist())], i] = 1
    if not spinor:
        return P
    Z = np.zeros((n, n))
    return np.block([[Z, P], [-P, Z]])


def symmetric_states(crys, k, G, spinor, rng, tr=False):
    """Eigenstates of a random Hermitian matrix invariant under the little group of k.
    -> list of arrays (deg, n) : one per eigenvalue, each an irrep of the little group"""
    n = len(G) * (2 if spinor else 1)
    H0 = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    H0 = H0 + H0.conj().T
    H = np.zeros((n, n), complex)
    lg = little_group(k, crys.W)
    for i in lg:
        a = Action(k, G, crys.W[i], crys.w[i])
        S = su2(cart(crys.Lattice, crys.W[i])) if spinor else None
        # D^T H0 D* with D = a.apply(1), the rows of which are the images of the basis vectors
        H += a.apply(a.apply(H0.T, S).T.conj(), S).conj()
    H /= len(lg)
    if tr and np.abs(2 * np.asarray(k) - np.round(2 * np.asarray(k))).max() < 1e-9:
        U = time_reversal(k, G, spinor)
        H = (H + U @ H.conj() @ U.T) / 2
    e, v = np.linalg.eigh(H)
    scale = max(abs(e[0]), abs(e[-1]))
    gaps = np.diff(e)
    if np.any((gaps > 1e-9 * scale) & (gaps < 1e-6 * scale)):
        raise Skip("ambiguous degeneracy of generated states")
    cuts = np.where(gaps > 1e-7 * scale)[0] + 1
    return [v[:, idx].T for idx in np.split(np.arange(n), cuts)]


def random_states(n, nb, rng):
    X = rng.standard_normal((n, nb)) + 1j * rng.standard_normal((n, nb))
    Q, _ = np.linalg.qr(X)
    return Q.T[:nb]


def reference_trace(k, G, C, W, w, S=None):
    """sum_n <psi_n|g|psi_n> over normalised rows of C, per row"""
    C = C / np.linalg.norm(C, axis=1)[:, None]
    gC = Action(k, G, W, w).apply(C, S)
    return np.einsum("ij,ij->i", C.conj(), gC)


class Potential:
    """A lattice-periodic potential (with a spin-dependent part), for smooth bands along paths."""

    def __init__(self, rng, R=2, strength=4.0):
        self.V = {}
        d = [(a, b, c) for a in range(-R, R + 1) for b in range(-R, R + 1) for c in range(-R, R + 1)]
        for x in d:
            m = (-x[0], -x[1], -x[2])
            if m in self.V:
                self.V[x] = self.V[m].conj()
            else:
                v = rng.standard_normal(4) + 1j * rng.standard_normal(4)
                if x == m:
                    v = v.real.astype(complex)
                self.V[x] = v * strength * np.exp(-0.5 * np.dot(x, x)) * np.array([1, .4, .4, .4])

    def symmetrise(self, W, w, Lattice):
        """average over the operations (the spin-dependent part is an axial vector)"""
        new = {}
        for Wi, wi in zip(W, w):
            R = cart(Lattice, Wi)
            R = R * np.linalg.det(R)
            Wt = np.linalg.inv(Wi).T
            for d, v in self.V.items():
                e = np.round(Wt @ np.array(d)).astype(int)
                x = v * np.exp(-2j * np.pi * e @ wi) / len(W)
                x = np.concatenate([x[:1], R @ x[1:]])
                e = tuple(int(y) for y in e)
                new[e] = new.get(e, 0) + x
        self.V = new
        return self

    def bands(self, k, G, Lattice, spinor):
        """energies and states (rows)"""
        from .crystal import SIGMA
        n = len(G)
        T = H2M * (((G + k) @ reciprocal(Lattice)) ** 2).sum(axis=1)
        T = T / max(1.0, T.max() / 20)
        D = G[:, None, :] - G[None, :, :]
        A = np.zeros((4, n, n), complex)
        for i in range(n):
            for j in range(n):
                v = self.V.get(tuple(D[i, j]))
                if v is not None:
                    A[:, i, j] = v
        if spinor:
            H = np.kron(np.eye(2), A[0] + np.diag(T)) + sum(np.kron(SIGMA[i], A[i + 1]) for i in range(3))
        else:
            H = A[0] + np.diag(T)
        e, v = np.linalg.eigh(H)
        return e, v.T


def random_unitary(n, rng):
    Q, R = np.linalg.qr(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))
    return Q * (np.diag(R) / abs(np.diag(R)))
