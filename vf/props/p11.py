"""P11: separation by a symmetry splits the states into its eigenspaces."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, little_group, table, cart
from ..gen import *
from ..states import Action, random_unitary, symmetric_states, box_planewaves, pick_cutoff
from ..writers import Calc, KP, BOHR
from .p15 import compose

RULE = ("Complete multiplets (with accidental degeneracies and splittings below the threshold) at one to three k points invariant "
        "under the separating operations; each subspace is checked with the reference action of the operation on plane waves. "
        "Non-trivial: at least two eigenvalues.")
ASSUMPTIONS = ["different eigenvalues (or real parts) of an operation, over all k points of a case, differ by more than 0.12: the code "
               "identifies closer ones; k points along which eigenvalues change continuously are outside the generated domain"]
TH = 1e-3


def case_st(cells=False):
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(cells=True) if cells else crystal_st(), code=st.sampled_from(CODES), spinor=st.booleans(),
        kpts=st.lists(kpt_st(), min_size=1, max_size=3),
        tab=st.just(-1) if cells else st.one_of(st.just(-1), ints(0, 40)), npw=ints(14, 50), nsets=ints(1, 6), skip=ints(0, 5), jitter=st.booleans(), de=st.sampled_from([.5, .5, .004]), mix=st.booleans(),
        esteps=st.lists(ints(0, 3), min_size=1, max_size=6), cseed=ints(0, 10 ** 6), ops=st.lists(ints(0, 200), min_size=1, max_size=3),
        kramers=st.booleans(), search=st.just(False) if cells else st.booleans(), symfile=st.sampled_from([False, False, True])))


def build(case, crys, ks):
    rng = np.random.default_rng(case["cseed"])
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    kps = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 6:
            raise Skip("too few plane waves")
        G = G[rng.permutation(len(G))]
        sets = symmetric_states(crys, k, G, case["spinor"], rng)
        i0 = min(case["skip"], len(sets) - 1)
        sets = sets[i0:i0 + case["nsets"]]
        E, e = [], -2.0
        for i, s in enumerate(sets):
            e = e + case["de"] * case["esteps"][i % len(case["esteps"])] if i else e
            E += [e] * len(s)
        E = np.array(E)
        C = np.vstack(sets)
        if case["mix"]:              # states of different irreps that are degenerate by accident
            for e in np.unique(E):
                i = np.flatnonzero(E == e)
                C[i] = random_unitary(len(i), rng) @ C[i]
        if case["jitter"]:
            E = E + 1e-4 * rng.random(len(E))
            o = np.argsort(E, kind="stable")
            E, C = E[o], C[o]
        kps.append(KP(k, G, C, E))
    return Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, case["spinor"])


class Ref:
    """states of one k point as read, and matrices of operations"""

    def __init__(self, K, spinor):
        self.k, self.G, self.C = np.array(K.k), np.asarray(K.ig)[:3].T.astype(int), np.array(K.WF)
        self.spinor = spinor
        self.sets = [(int(a), int(b)) for a, b in zip(K.borders, K.borders[1:])]
        self.E, self.char, self.cref = np.array(K.Energy_mean), np.array(K.char), np.array(K.char_refUC)
        self.irreps = list(K.irreps)

    def act(self, s, C):
        return Action(self.k, self.G, s.rotation, s.translation).apply(C, s.spinor_rotation if self.spinor else None)

    def matrix(self, s):
        return self.C.conj() @ self.act(s, self.C).T


def check_sub(ref, K, conds, kramers, what):
    """states of a subspace: orthonormal, eigenspaces, data of the sets they come from"""
    n = K.num_bands
    WF = np.asarray(K.WF)
    close(WF @ WF.conj().T, np.eye(n), 2e-3, what + ": overlaps of the states")
    for s, ev in conds:
        if kramers:
            # A = (g + g^-1)/2 acts as the real part; within the span of the original states
            inv = Action(ref.k, ref.G, s.rotation, s.translation)
            gW = inv.apply(WF, s.spinor_rotation if ref.spinor else None)
            M = WF.conj() @ gW.T
            close(np.linalg.norm(M, axis=0), np.ones(n), 5e-3, what + ": the subspace is invariant")
            close((M + M.conj().T) / 2, np.real(ev) * np.eye(n), 5e-3, what + f": real part of operation {s.ind}")
        else:
            close(ref.act(s, WF), ev * WF, 5e-3, what + f": action of operation {s.ind}")
    check(len(K.Energy_mean) == len(K.degeneracies) == len(K.char) == len(K.char_refUC) == len(K.irreps),
          "{}: lengths of energies, degeneracies, characters and irreps differ", what)
    if list(K.degeneracies) == [b - a for a, b in ref.sets]:
        state_row = np.repeat(np.arange(len(ref.sets)), K.degeneracies)
    else:
        check(list(K.degeneracies) == [1] * n, "{}: degeneracies {}", what, K.degeneracies)
        state_row = np.arange(n)
    check(all(np.diff(K.Energy_mean) >= 0), "{}: energies not ordered", what)
    which = []
    for i in range(n):
        p = np.array([np.linalg.norm(ref.C[a:b].conj() @ WF[i]) for a, b in ref.sets])
        j = int(p.argmax())
        check(p[j] > 1 - 2e-3, "{}: state {} is not in a set of degenerate states (projections {})", what, i, p)
        r = state_row[i]
        close(K.Energy_mean[r], ref.E[j], 1e-9, what + ": energy of the set")
        close(np.asarray(K.char[r]), ref.char[j], 1e-9, what + ": characters of the set")
        close(np.asarray(K.char_refUC[r]), ref.cref[j], 1e-9, what + ": characters of the set in the reference cell")
        check(K.irreps[r] == ref.irreps[j], "{}: irreps {} instead of {}", what, K.irreps[r], ref.irreps[j])
        which.append(j)
    return which


def is_identity(s):
    return (np.asarray(s.rotation) == np.eye(3)).all() and np.abs((np.asarray(s.translation) + .5) % 1 - .5).max() < 1e-5


def values(kramers, refs, s):
    """eigenvalues (real parts) of the operation per k point, with multiplicities, from the reference"""
    out = []
    for r in refs:
        ev = []
        M = r.matrix(s)
        for a, b in r.sets:
            ev += list(np.linalg.eigvals(M[a:b, a:b]))
        ev = np.array(ev)
        if np.abs(np.abs(ev) - 1).max() > 1e-3:
            raise Skip("set not closed")
        out.append(ev.real if kramers else ev)
    return out


def distinct(vals):
    """distinct values, or Skip if some are close but not equal"""
    u = []
    for v in vals:
        d = [abs(v - x) for x in u]
        if d and min(d) < 2e-3:
            continue
        if d and min(d) < 0.12:
            raise Skip("eigenvalues close to each other")
        u.append(v)
    return u


def run(case, note):
    crys = Crystal(case["crystal"])
    spinor, kramers = case["spinor"], case["kramers"]
    if case["search"]:
        crys.require_number()
    ks = [crys.k_dft(k) for k in case["kpts"]]
    T = table(crys.n, spinor)
    name = None
    if case["tab"] >= 0:
        ks = [crys.k_dft(T.kx[case["tab"] % len(T.kx)])] + ks[1:]
    if case["code"] != "abinit":
        ks = ks[:1]                 # the other codes have one number of bands
    calc = build(case, crys, ks)
    kw = dict(search_cell=True) if case["search"] else {}
    if case["symfile"]:            # operations in any order
        perm = np.random.default_rng(case["cseed"]).permutation(len(crys.W))
        compose("ops.sym", [(cart(crys.Lattice, crys.W[i]), -np.asarray(crys.w[i]) @ crys.Lattice / BOHR) for i in perm], 14, 0)
        kw.update(from_sym_file="ops.sym", alat=1.0)
        note("operations from a file")
    bs = run_bs(write(calc, case["code"]), degen_thresh=TH, **kw)
    names = None
    if case["search"] and case["tab"] >= 0:
        M = np.linalg.inv(bs.spacegroup.refUC.T)
        name = [q[0] for q, x in zip(T.kpoints, T.kx) if np.abs((ks[0] - M @ x + .5) % 1 - .5).max() < 1e-6]
        if name and len(ks) == 1:
            names = name[:1]
    bs.identify_irreps(names)
    common = [s for s in bs.spacegroup.symmetries if all(s in K.little_group for K in bs.kpoints)]
    ops = []
    for o in case["ops"]:
        s = common[o % len(common)]
        if s not in ops:
            ops.append(s)
    refs = [Ref(K, spinor) for K in bs.kpoints]
    first = bs
    nodes = [((), bs)]
    done = []
    for s in ops:
        vals = values(kramers, refs, s)
        distinct(np.concatenate(vals))
        # later separations only by operations that commute with the earlier ones
        ok = True
        for p in done:
            for r in refs:
                a, b = r.matrix(s), r.matrix(p)
                ok &= np.abs(a @ b - b @ a).max() < 2e-3
        if not ok:
            note("operation that does not commute left out")
            continue
        new = []
        for key, sub in nodes:
            res = sub.Separate(s.ind, degen_thresh=TH, groupKramers=kramers)
            if is_identity(s):
                check(list(res) == [1] and res[1] is sub, "separation by the identity gives {}", list(res))
            new += [(key + (e,), x) for e, x in res.items()]
        nodes, done = new, done + [s]
        conds_all = done
        # every subspace, and all of them together
        for ik, r in enumerate(refs):
            tot = np.zeros((len(r.C), len(r.C)), complex)
            dims = 0
            inv = [x for x in first.kpoints[ik].little_group if (x.rotation == -np.eye(3)).all() and np.abs(x.translation).max() < 8e-6]
            for key, sub in nodes:
                Ks = [K for K in sub.kpoints if K.ik0 == ik + 1]
                check(len(Ks) <= 1, "k point {} appears {} times in a subspace", ik + 1, len(Ks))
                for K in Ks:
                    if K.num_bands == 0:
                        raise Violation("empty k point in a subspace")
                    conds = list(zip(conds_all, key))
                    if kramers:
                        conds = [c for c in conds if not is_identity(c[0])]
                    check_sub(r, K, conds, kramers, f"subspace {key} of operations {[x.ind for x in conds_all]} at k={r.k}")
                    P = r.C.conj() @ np.asarray(K.WF).T
                    tot += P @ P.conj().T
                    dims += K.num_bands
                    if not inv:
                        check(K.num_bandinvs is None, "{} inversion-odd states in a subspace without inversion", K.num_bandinvs)
                        continue
                    W = np.asarray(K.WF)
                    ev = W.conj() @ r.act(inv[0], W).T
                    if np.abs(ev @ ev.conj().T - np.eye(len(ev))).max() < 2e-3:         # invariant under inversion
                        n_odd = int((np.linalg.eigvalsh(ev + ev.conj().T) < 0).sum())
                        check(K.num_bandinvs == n_odd, "{} inversion-odd states in the subspace {} instead of {}", K.num_bandinvs, key, n_odd)
                        note("parities of a subspace")
            check(dims == len(r.C), "{} states in the subspaces instead of {} (k={}, operations {}, keys {})", dims, len(r.C), r.k,
                  [x.ind for x in conds_all], [k for k, _ in nodes])
            close(tot, np.eye(len(tot)), 5e-3, "sum of the projectors on the subspaces")
        # keys are the eigenvalues found by the reference
        if len(done) == 1:
            want = distinct(np.concatenate(vals))
            keys = [k[0] for k, _ in nodes]
            check(len(keys) == len(want) and all(min(abs(k - x) for x in want) < 5e-3 for k in keys),
                  "subspaces of {} instead of {}", keys, want) if not is_identity(s) else None
            note(f"{min(len(keys), 4)} subspaces")
    # the original is left as it was
    for r, K in zip(refs, first.kpoints):
        close(np.asarray(K.WF), r.C, 0, "wave functions of the original after the separation")
        close(np.asarray(K.char), r.char, 0, "characters of the original after the separation")
        check(K.num_bands == len(r.C), "bands of the original after the separation")
    note.nontrivial(len(nodes) > 1)
    note("Kramers pairs" if kramers else "single states")
    note(f"{len(done)} operations")
    if any(b - a > 1 for r in refs for a, b in r.sets):
        note("degenerate sets")


TARGETS = [Target("subspaces", run, case_st, quick=1200, thorough=50000),
           # cells with several primitive cells: separation by pure translations
           Target("subspaces-supercell", run, lambda: case_st(True), quick=250, thorough=10000)]
