"""P17: unfolding weights and spin projections."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, SIGMA
from ..gen import *
from ..states import box_planewaves, pick_cutoff, random_states, random_unitary
from ..writers import Calc, KP

RULE = ("Calculations in cells taken as supercells of a primitive cell (any integer matrix, also with negative determinant), states "
        "spread over or belonging to single primitive k points, mixed within degenerate sets, several thresholds in one "
        "session; weights and spins compared with sums over plane waves sorted by primitive k point. "
        "Non-trivial: the supercell has at least two primitive cells.")
ASSUMPTIONS = ["the spin components are the traces of the unfolding-density operator (projector within the group of states times Pauli matrices)"]


def case_st():
    return st.fixed_dictionaries(dict(
        metric=metric_st(), sg=st.sampled_from([1, 2, 16, 75, 143, 195]), rot=rot_st(), spinor=st.booleans(),
        M=st.one_of(st.lists(ints(-2, 2), min_size=9, max_size=9), st.lists(ints(1, 3), min_size=3, max_size=3),
                     st.permutations([1, 1, 2]).flatmap(lambda p: ints(3, 16).map(lambda n: [n if i == 1 and j == p.index(1) else i for j, i in enumerate(p)]))),
        code=st.sampled_from(CODES), k=st.lists(st.one_of(st.sampled_from([0, .5, -.25, 1.5]), ints(-150, 150).map(lambda i: i / 100)), min_size=3, max_size=3),
        npw=ints(16, 60), nb=ints(1, 8), pure=st.booleans(), mix=st.booleans(), seed=ints(0, 10 ** 6),
        esteps=st.lists(st.sampled_from([0, 0, .00003, .003, .25, 1.0]), min_size=1, max_size=6),
        th=st.lists(st.sampled_from([1e-6, 1e-4, 1e-3, .1, .5]), min_size=1, max_size=3), default=st.booleans(),
        bands=st.tuples(ints(0, 3), ints(0, 3)), two=st.booleans()))


def cosets(M, k):
    """primitive k points that fold onto k of the supercell"""
    Mi = np.linalg.inv(M.T)
    out = [np.asarray(k, float) @ Mi]
    for q in out:                            # grows until it is closed under the translations of the reciprocal lattice
        for e in np.eye(3):
            x = q + e @ Mi
            if not any(np.abs((x - y + .5) % 1 - .5).max() < 1e-7 for y in out):
                out.append(x)
    return out


def run(case, note):
    crys = Crystal(dict(sg=case["sg"], metric=case["metric"], rot=case["rot"]), norb=1)
    m = case["M"]
    M = np.diag(m) if len(m) == 3 else np.array(m).reshape(3, 3)
    n = round(abs(np.linalg.det(M)))
    if not 1 <= n <= 32:
        raise Skip("supercell matrix singular or large")
    # the calculated cell, whatever its primitive cell
    L = crys.Lattice * (1 + .3 * n)
    rng = np.random.default_rng(case["seed"])
    ks = [np.array(case["k"], float)] + ([np.array(case["k"], float) + [.5, 0, .5]] if case["two"] else [])
    Ecut = pick_cutoff(ks, L, case["npw"])
    spinor = case["spinor"]
    nb = case["nb"]
    kps = []
    for k in ks:
        G, _ = box_planewaves(k, L, Ecut)
        qs = cosets(M, k)
        if len(qs) != n:
            raise Skip("cosets not enumerated")
        nn = len(G) * (2 if spinor else 1)
        if len(G) < max(nb, 4):
            raise Skip("too few plane waves")
        # primitive k point of every plane wave
        x = (G + k) @ np.linalg.inv(M.T)
        own = np.array([[j for j, q in enumerate(qs) if np.abs((y - q + .5) % 1 - .5).max() < 1e-6] for y in x])[:, 0]
        if case["pure"]:
            C = np.zeros((nb, nn), complex)
            which = rng.integers(0, n, nb)
            for j in range(n):
                idx = np.where(own == j)[0]
                idx = np.concatenate([idx, idx + len(G)]) if spinor else idx
                sel = np.where(which == j)[0]
                if len(sel) > len(idx):
                    raise Skip("too few plane waves")
                if len(sel):
                    C[np.ix_(sel, idx)] = random_states(len(idx), len(sel), rng)
        else:
            C = random_states(nn, nb, rng)
        E = -2 + np.cumsum([0] + [case["esteps"][i % len(case["esteps"])] for i in range(nb - 1)])
        if case["mix"]:
            for a, b in sets_of(E, 1e-4):
                C[a:b] = random_unitary(b - a, rng) @ C[a:b]
        kps.append((KP(k, G, C, E), qs, own))
    calc = Calc(L, crys.positions, crys.typat, Ecut, [x[0] for x in kps], spinor)
    base = write(calc, case["code"])
    b0, b1 = case["bands"]
    b1 = nb - b1
    if b1 <= b0:
        b0, b1 = 0, nb
    bs = run_bs(base, calculate_traces=False, IBstart=b0 + 1, IBend=b1)
    tol = 3e-6 if case["code"] == "vasp" else 1e-7
    ths = case["th"] + ([None] if case["default"] else [])
    for th in ths + ths[:1]:                # the first threshold again after the others
        t = 1e-4 if th is None else th
        for K, (kp, qs, own) in zip(bs.kpoints, kps):
            E, C = kp.E[b0:b1], kp.C[b0:b1]
            if len(E) > 1 and np.abs(np.diff(E) - t).min() < 1e-6:
                raise Skip("energy step at the threshold")
            sets = sets_of(E, t)
            nG = len(kp.G)
            tot = 0
            for j, q in enumerate(qs):
                sel = np.where(own == j)[0]
                qq = q + rng.integers(-2, 3, 3)
                r = K.unfold(M, qq, **({} if th is None else dict(degen_thresh=th)))
                check(r.shape == (len(sets), 5 if spinor else 2), "{} rows and columns of unfolding instead of {} groups", r.shape, len(sets))
                tot = tot + r[:, 1:]
                for row, (a, b) in zip(r, sets):
                    check(abs(row[0] - E[a:b].mean()) < 1e-6, "energy of the group {} instead of {}", row[0], E[a:b].mean())
                    X = C[a:b]
                    if spinor:
                        U, D = X[:, :nG], X[:, nG:]
                        P = U[:, sel].conj() @ U[:, sel].T + D[:, sel].conj() @ D[:, sel].T
                        Y = np.stack([U, D])
                        S = np.einsum("aig,bjg,sab->sij", Y.conj(), Y, SIGMA)
                        want = [np.trace(P).real] + [np.trace(P @ s).real for s in S]
                    else:
                        want = [(np.abs(X[:, sel]) ** 2).sum()]
                    close(row[1:], np.array(want), tol * 20 * max(1, b - a), f"weight and spin of group {a+1}-{b} at {qq}")
                    check(-1e-6 <= row[1] <= b - a + 1e-5, "weight {} of {} states", row[1], b - a)
            close(tot[:, 0], np.array([b - a for a, b in sets], float), 1e-4, "sum of weights over the primitive k points")
            if spinor:
                want = []
                for a, b in sets:
                    U, D = C[a:b, :nG], C[a:b, nG:]
                    want.append([2 * (U.conj() * D).sum().real, 2 * (U.conj() * D).sum().imag, (abs(U) ** 2 - abs(D) ** 2).sum()])
                close(tot[:, 1:], np.array(want), 2e-4, "sum of spins over the primitive k points")
            # not folding: refused
            for d in ([.5, 0, 0], [0, 1 / 3, 0], [.01, -.02, .003], [0, 0, .25]):
                q = qs[0] + np.array(d)
                x = q @ M.T - kp.k
                if np.abs((x + .5) % 1 - .5).max() < 1e-3:
                    continue
                try:
                    K.unfold(M, q, t)
                except RuntimeError:
                    note("refused")
                else:
                    raise Violation(f"unfolding onto {q}, which folds onto {q @ M.T}, not refused at {kp.k}")
    note.nontrivial(n > 1)
    note(f"det {round(np.linalg.det(M)):+d}")
    note("states of single primitive k points" if case["pure"] else "states spread over them")


TARGETS = [Target("unfold", run, case_st, quick=1200, thorough=50000)]
