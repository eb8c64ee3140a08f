"""Hypothesis strategies (JSON-able cases) and builders of calculations."""
import copy
import numpy as np
from hypothesis import strategies as st
from .crystal import Crystal, table, PRIM
from .states import pick_cutoff, box_planewaves, symmetric_states, random_states
from .writers import Calc, KP, WRITERS
from .core import Skip, Violation

CODES = ["abinit", "vasp", "espresso", "wannier90"]

# groups with many special features get extra weight
SGS = list(range(1, 231)) + [2, 4, 7, 9, 14, 15, 19, 24, 33, 36, 43, 61, 70, 73, 76, 88, 92, 96, 106, 122, 130, 135,
                              136, 138, 141, 142, 146, 148, 150, 152, 154, 160, 161, 166, 167, 169, 173, 176, 182,
                              186, 190, 193, 194, 198, 199, 205, 206, 212, 213, 214, 218, 219, 220, 222, 223, 224,
                              225, 226, 227, 228, 229, 230]


def ints(a, b):
    return st.integers(a, b)


def metric_st():
    """six numbers of conv_lattice; one of the first three may be large: layers and chains far from each other"""
    m = st.lists(ints(0, 100).map(lambda i: i / 100), min_size=6, max_size=6)
    return st.one_of(m, m, m, st.tuples(m, ints(0, 2), ints(3, 10)).map(lambda t: [x + t[2] * (i == t[1]) for i, x in enumerate(t[0])]))


def rot_st():
    return st.one_of(st.just([0, 0, 0]),
                     st.lists(ints(-30, 30).map(lambda i: i / 10), min_size=3, max_size=3))


def shift_st():
    return st.one_of(st.just([0, 0, 0]),
                     st.lists(ints(0, 23).map(lambda i: i / 24), min_size=3, max_size=3),
                     st.lists(ints(0, 999).map(lambda i: i / 1000), min_size=3, max_size=3),
                     st.lists(st.sampled_from([0, 0, .002, -.003, .011, -.02, .04]), min_size=3, max_size=3))


SUPER = ["conv", "conv", [2, 0, 0, 0, 1, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 0, 2], [1, 1, 0, -1, 1, 0, 0, 0, 1], [0, 1, 1, 1, 0, 1, 1, 1, 0],
         [1, 0, 0, 0, 3, 0, 0, 0, 1], [2, 1, 0, 0, 1, 0, 0, 0, -1], [1, 1, 0, -1, 2, 0, 0, 0, 1], [-1, 1, 1, 1, -1, 1, 1, 1, -1]]


def crystal_st(sgs=None, U=True, shift=True, rot=True, digits=False, cells=False):
    return st.fixed_dictionaries(dict(
        **({"super": st.sampled_from(SUPER)} if cells else {}),
        **(dict(digits=st.sampled_from([None, None, 6, 7, 8])) if digits else {}),
        sg=st.sampled_from(sgs or SGS), metric=metric_st(),
        U=st.lists(ints(0, 9), max_size=3) if U else st.just([]),
        shift=shift_st() if shift else st.just([0, 0, 0]),
        rot=rot_st() if rot else st.just([0, 0, 0]),
        xseed=ints(0, 10 ** 6), shuffle=st.booleans()))


KFRAC = [0, .5, 1 / 3, -1 / 3, .25, 2 / 3, .75, -.5, 1]


def kpt_st():
    """special, boundary, generic k points in the basis of the conventional cell"""
    comp = st.one_of(st.sampled_from(KFRAC), st.sampled_from([0, .5]),
                     ints(-150, 150).map(lambda i: i / 100 + 0.0037))
    return st.one_of(
        st.lists(st.sampled_from([0, .5]), min_size=3, max_size=3),
        st.lists(comp, min_size=3, max_size=3),
        st.tuples(ints(1, 49), st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1], [1, -1, 0],
                                                [0, 1, 1], [1, 0, -1], [1, 1, 2]])
                  ).map(lambda t: [t[0] / 100 * x for x in t[1]]))


def calc_st(crystals=None, codes=CODES, kpts=(1, 3), spinor=st.booleans(), kinds=("sym", "sym", "rand"),
            npw=(12, 60), sets=(1, 6), kgen=None):
    return st.fixed_dictionaries(dict(
        crystal=crystals if crystals is not None else crystal_st(),
        code=st.sampled_from(codes), spinor=spinor,
        kpts=st.lists(kgen if kgen is not None else kpt_st(), min_size=kpts[0], max_size=kpts[1]),
        npw=ints(*npw), sets=ints(*sets), kind=st.sampled_from(kinds),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), e0=ints(-40, 40).map(lambda i: i / 4 + .0012346),
        cseed=ints(0, 10 ** 6)))


def energies(nset, case, rng):
    """energy per set of states; step 0 = accidental degeneracy with the previous set"""
    E, e = [], case["e0"]
    st_ = case["esteps"]
    for i in range(nset):
        if i:
            e = e + 0.25 * st_[i % len(st_)]
        E.append(e)
    return np.array(E)


def build_calc(case, crys, kdft=None, maxbands=14, mindim=1, npw=None, EF=None):
    """-> Calc with symmetric (or arbitrary) states at the k points of the case"""
    spinor = case["spinor"]
    rng = np.random.default_rng(case["cseed"])
    ks = kdft if kdft is not None else [crys.k_dft(k) for k in case["kpts"]]
    Ecut = pick_cutoff(ks, crys.Lattice, npw or case["npw"])
    per = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 4:
            raise Skip("too few plane waves")
        G = G[rng.permutation(len(G))]
        n = len(G) * (2 if spinor else 1)
        if case["kind"] == "sym":
            sets = symmetric_states(crys, k, G, spinor, rng)
            first = rng.integers(0, max(1, len(sets) - case["sets"]))
            sets = sets[first:first + case["sets"]]
        else:
            sets = [random_states(n, 1, rng) for _ in range(case["sets"])]
            C = random_states(n, min(n, len(sets)), rng)
            sets = [c[None, :] for c in C]
        E = energies(len(sets), case, rng)
        per.append((k, G, np.vstack(sets), np.repeat(E, [len(s) for s in sets])))
    nb = min(min(len(p[3]) for p in per), maxbands)
    # keep whole sets at every k point (codes need one number of bands)
    out = []
    for k, G, C, E in per:
        out.append(KP(k, G, C[:nb], E[:nb]))
    return Calc(crys.Lattice, crys.positions, crys.typat, Ecut, out, spinor,
                EF=case.get("ef", 0.503651) if EF is None else EF)


def round_k(calc, digits):
    """the calculation as written with few digits in the coordinates of k points"""
    if digits is None:
        return calc
    c = copy.copy(calc)
    c.kpts = []
    for kp in calc.kpts:
        q = copy.copy(kp)
        q.k = np.round(kp.k, digits)
        c.kpts.append(q)
    return c


def write(calc, code, **kw):
    return WRITERS[code](calc, **kw)


def run_bs(args, **kw):
    from irrep.bandstructure import BandStructure
    a = dict(args)
    a.update(kw)
    a.setdefault("calculate_traces", True)
    return BandStructure(**a)


def whole_parity(K):
    """no multiplet is cut by the number of bands: otherwise there are no parities"""
    inv = [i for i, s in enumerate(K.little_group) if (np.asarray(s.rotation) == -np.eye(3)).all()]
    return all(abs((x + .1) % 1 - .1) < .02 for i in inv for x in [(K.num_bands - np.asarray(K.char)[:, i].sum().real) / 2])


def sets_of(E, thresh):
    """chains of levels linked by steps <= thresh -> list of (start, end)"""
    cuts = [0] + [i + 1 for i in range(len(E) - 1) if E[i + 1] - E[i] > thresh] + [len(E)]
    return list(zip(cuts, cuts[1:]))


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg.format(*a))


def close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size:
        d = np.abs(a - b)
        if not np.all(d <= tol):
            i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            raise Violation(f"{what}: {a[i]} instead of {b[i]} at {tuple(int(x) for x in i)} (difference {d[i]:.3g})")
