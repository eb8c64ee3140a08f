"""P12: Zak phases and Wannier charge centres are those of the discretised loop."""
import re, os
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal
from ..gen import *
from ..states import box_planewaves, Potential, random_unitary, random_states, pick_cutoff
from ..writers import Calc, KP
from .p09 import circ

RULE = ("Closed paths k0 -> k0+g (random direction g, 3 to 9 points) with the lowest states of random periodic potentials, in a random "
        "gauge, or with arbitrary states; overlaps, Wilson loop and Zak phases are recomputed from the coefficients written to the "
        "file. Non-trivial: at least two bands and three points.")
ASSUMPTIONS = ["paths have at least 3 points and consecutive points closer than half a reciprocal vector (the direction of a longer step is ambiguous)",
               "overlap matrices with singular values (minors, for the Zak phase of n states) above 0.02"]


def case_st(**kw):
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), code=st.sampled_from(CODES), spinor=st.booleans(), nb=ints(1, 6), first=ints(0, 3), nk=ints(3, 9), npw=ints(12, 30),
        k0=st.lists(ints(-90, 90).map(lambda i: i / 100), min_size=3, max_size=3),
        g=st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [1, 1, 0], [0, 1, -1], [1, 1, 1], [0, 0, -1]]),
        kind=st.sampled_from(["bands", "bands", "rand"]), gauge=st.booleans(), cseed=ints(0, 10 ** 6), **kw))


def loop(case, crys, sym=False, path=None):
    rng = np.random.default_rng(case["cseed"])
    V = Potential(rng)
    if sym:
        V.symmetrise(crys.W, crys.w, crys.Lattice)
    ks = path if path is not None else [np.array(case["k0"]) + np.array(case["g"]) * i / case["nk"] for i in range(case["nk"])]
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    kps = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        n = len(G) * (2 if case["spinor"] else 1)
        if n < 8:
            raise Skip("too few plane waves")
        i0 = case["first"]
        nb = min(case["nb"], n - i0)
        if case["kind"] == "bands":
            e, C = V.bands(k, G, crys.Lattice, case["spinor"])
            e, C = e[i0:i0 + nb], C[i0:i0 + nb]
        else:
            C = random_states(n, nb, rng)
            # random but overlapping: low plane waves dominate
            C = C + np.eye(nb, n) * 2
            e = np.sort(rng.uniform(-5, 5, nb))
        C = C * np.exp(2j * np.pi * rng.random(len(C)))[:, None] * 10 ** rng.uniform(-1, 1, len(C))[:, None]
        if not sym:
            o = rng.permutation(len(G))
            G, C = G[o], C[:, np.concatenate([o, o + len(o)]) if case["spinor"] else o]
        kps.append(KP(k, G, C, e))
    if len({len(k.E) for k in kps}) > 1:
        raise Skip("number of bands")
    return Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, case["spinor"])


def overlap(a, b, shift, spinor):
    """<u_m(a)|u_n(b + shift)>: plane wave G of b counts as G - shift"""
    idx = {tuple(g): i for i, g in enumerate(a.G.tolist())}
    A = a.C / np.linalg.norm(a.C, axis=1)[:, None]
    B = b.C / np.linalg.norm(b.C, axis=1)[:, None]
    pairs = [(idx[t], j) for j, t in enumerate(tuple(g) for g in (b.G - shift).tolist()) if t in idx]
    if not pairs:
        raise Skip("no common plane waves")
    i, j = np.array(pairs).T
    O = A[:, i].conj() @ B[:, j].T
    if spinor:
        O = O + A[:, i + len(a.G)].conj() @ B[:, j + len(b.G)].T
    return O


def overlaps(calc, g):
    kp = calc.kpts
    return [overlap(kp[i], kp[(i + 1) % len(kp)], np.array(g) if i == len(kp) - 1 else np.zeros(3, int), calc.spinor)
            for i in range(len(kp))]


def unitary(O):
    """unitary factor of the polar decomposition"""
    e, v = np.linalg.eigh(O.conj().T @ O)
    return O @ (v / np.sqrt(e)) @ v.conj().T


def reference(Os):
    if min(np.linalg.svd(O)[1].min() for O in Os) < .02:
        raise Skip("nearly singular overlaps")
    M = np.eye(len(Os[0]))
    for O in Os:
        M = M @ unitary(O)
    wcc = (np.angle(np.linalg.eigvals(M)) / (2 * np.pi)) % 1
    n = len(Os[0])
    dets = np.array([[np.linalg.det(O[:i, :i]) for i in range(1, n + 1)] for O in Os])
    good = np.abs(dets).min(axis=0) > .02
    return wcc, np.angle(np.prod(dets / np.maximum(abs(dets), 1e-9), axis=0)) % (2 * np.pi), good


def phase_close(a, b, tol, what):
    d = (np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi
    check(np.abs(d).max(initial=0) < tol, "{}: {} instead of {}", what, a, b)


def gaps(E):
    """E: (nk, nb)"""
    emin = np.append(E[:, 1:].min(axis=0), np.inf)
    emax = E.max(axis=0)
    loc = np.append((E[:, 1:] - E[:, :-1]).min(axis=0), np.inf)
    return emin - emax, (emin + emax) / 2, loc


def run(case, note):
    crys = Crystal(case["crystal"])
    calc = loop(case, crys)
    rng = np.random.default_rng(case["cseed"] + 1)
    if case["gauge"]:
        for kp in calc.kpts:
            kp.C = random_unitary(len(kp.C), rng) @ (kp.C / np.linalg.norm(kp.C, axis=1)[:, None])
    Os = overlaps(calc, case["g"])
    wcc, zak, good = reference(Os)
    bs = run_bs(write(calc, case["code"]), calculate_traces=False, EF="0.5")
    for i, (x, y) in enumerate(zip(bs.kpoints, bs.kpoints[1:] + bs.kpoints[:1])):
        close(x.overlap(y), Os[i], 1e-5, f"overlaps between k points {i+1} and {(i+1) % len(Os) + 1} of the loop")
    got = np.asarray(bs.wcc())
    check(got.shape == wcc.shape and np.all((got >= 0) & (got < 1)) and np.all(np.diff(got) >= 0), "centres {}", got)
    check(circ(got, wcc) < 1e-3, "Wannier charge centres {} instead of {}", got, np.sort(wcc))
    z, gw, gc, lg = bs.zakphase()
    phase_close(np.asarray(z)[good], zak[good], 5e-3, "Zak phases of the n lowest states")
    check(np.all((np.asarray(z) >= 0) & (np.asarray(z) < 2 * np.pi + 1e-9)), "Zak phases {}", z)
    phase_close(2 * np.pi * got.sum(), zak[-1], 1e-2, "sum of the centres and Zak phase of all states")
    E = np.array([k.E for k in calc.kpts]) - 0.5
    for a, b, nm in zip((gw, gc, lg), gaps(E), ("gap", "centre of the gap", "local gap")):
        check(np.isinf(a[-1]), "{} above the last band: {}", nm, a[-1])
        close(np.asarray(a)[:-1], b[:-1], 2e-5, nm + " between consecutive bands")
    note.nontrivial(case["nb"] > 1 and len(wcc) > 1)
    note(case["code"] + (" spinor" if case["spinor"] else ""))
    note(case["kind"])


# ----------------------------------------------------------- translation
def tr_st():
    return case_st(t=st.lists(ints(0, 99).map(lambda i: i / 100), min_size=3, max_size=3))


def run_translation(case, note):
    """a rigid translation shifts the centres by the translation along the path"""
    crys = Crystal(case["crystal"])
    calc = loop(case, crys)
    wcc, zak, good = reference(overlaps(calc, case["g"]))
    A = np.asarray(run_bs(write(calc, case["code"]), calculate_traces=False).wcc())
    t = np.array(case["t"])
    for kp in calc.kpts:
        ph = np.exp(-2j * np.pi * (kp.G + kp.k) @ t)
        kp.C = kp.C * (np.concatenate([ph, ph]) if calc.spinor else ph)
    B = run_bs(write(calc, case["code"]), calculate_traces=False)
    w = np.asarray(B.wcc())
    d = np.dot(case["g"], t)
    # phases are exp(-2 pi i x): centres move against the translation in the sign convention of the code
    check(circ((A - d) % 1, w) < 1e-3, "centres {} of states translated by {}; {} before", w, t, A)
    note.nontrivial(abs(d - round(d)) > .05 and len(w) > 1)


# ------------------------------------------------------------------- CLI
def cli_st():
    return case_st(what=st.sampled_from(["-ZAK", "-WCC"]), EF=st.sampled_from(["0.0", "1.5"]))


def run_cli(case, note):
    from .cli import invoke, argv
    crys = Crystal(case["crystal"])
    calc = loop(case, crys)
    wcc, zak, good = reference(overlaps(calc, case["g"]))
    out = invoke(argv(write(calc, case["code"])) + [case["what"], "-EF", case["EF"]])
    num = r"\s*([-+\d.einf]+)"
    if case["what"] == "-ZAK":
        rows = np.array(re.findall(r"^\s+(\d+)\s+([\d.]+) pi gapwidth =" + num + " gapcenter =" + num + " localgap=" + num, out, re.M), float)
        check(len(rows) == len(wcc), "{} Zak phases printed", len(rows))
        check(list(rows[:, 0]) == list(range(1, len(wcc) + 1)), "numbers of states {}", rows[:, 0])
        phase_close(rows[good, 1] * np.pi, zak[good], 1e-2, "printed Zak phases")
        E = np.array([k.E for k in calc.kpts]) - float(case["EF"])
        for c, b in zip((2, 3, 4), gaps(E)):
            close(rows[:-1, c], b[:-1], 6e-4, "printed gaps")
    else:
        m = re.search(r"WCC are : \[(.*?)\]\s*\n sumWCC=([\d.e-]+)", out, re.S)
        check(m, "no centres printed")
        got = np.array(m.group(1).split(), float)
        check(len(got) == len(wcc) and circ(got, wcc) < 1e-3, "printed centres {} instead of {}", got, np.sort(wcc))
        phase_close(2 * np.pi * float(m.group(2)), zak[-1], 1e-2, "printed sum of centres")
    note(case["what"])
    note.nontrivial(len(wcc) > 1)


# ------------------------------------------- loops separated by symmetry
def sep_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(shift=False, sgs=[2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 115, 123, 143, 147, 156, 168, 174, 175, 183, 187, 191,
                                195, 200, 207, 215, 221, 4, 11, 26, 51]),
        code=st.sampled_from(CODES), spinor=st.booleans(), nb=ints(2, 8), first=st.just(0), nk=ints(3, 7), npw=ints(14, 36),
        op=ints(0, 50), tr=ints(0, 30), cseed=ints(0, 10 ** 6), kind=st.just("bands"), cli=st.booleans()))


def run_sep(case, note):
    """centres of the eigenspaces of an operation together are those of all states"""
    crys = Crystal(case["crystal"])
    ops = [i for i in range(len(crys.W)) if (crys.W[i] != np.eye(3)).any() and np.abs(crys.w[i] - np.round(crys.w[i])).max() < 1e-9]
    if not ops:
        raise Skip("no symmorphic operation about this origin")
    W = crys.W[ops[case["op"] % len(ops)]]
    Wt = np.round(np.linalg.inv(W).T).astype(int)
    gs = [np.array([a, b, c]) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1)]
    gs = [g for g in gs if g.any() and (Wt @ g == g).all()]
    if not gs:
        raise Skip("no invariant direction")
    rng = np.random.default_rng(case["tr"])
    g = gs[rng.integers(len(gs))]
    # base point invariant under W
    k0 = rng.integers(0, 2, 3) / 2.0
    d = Wt @ k0 - k0
    if np.abs(d - np.round(d)).max() > 1e-9:
        k0 = np.zeros(3)
    path = [k0 + g * (i + .3) / case["nk"] for i in range(case["nk"])]
    calc = loop(case, crys, sym=True, path=path)
    args = write(calc, case["code"])
    bs = run_bs(args, degen_thresh=1e-4)
    bs.identify_irreps(None)
    s = [x for x in bs.spacegroup.symmetries if (x.rotation == W).all()][0]
    E = np.array([k.E for k in calc.kpts])
    from .p11 import Ref
    for K in bs.kpoints:
        M = Ref(K, case["spinor"]).matrix(s)
        if np.abs(M @ M.conj().T - np.eye(len(M))).max() > 1e-3:
            raise Skip("multiplet cut by the number of bands")
    sub = bs.Separate(s.ind, degen_thresh=1e-4, groupKramers=False)
    if len({tuple(K.num_bands for K in b.kpoints) for b in sub.values()} | {0}) != 1 + len(
            {b.kpoints[0].num_bands for b in sub.values()}) or any(
            len({K.num_bands for K in b.kpoints}) > 1 or len(b.kpoints) != len(path) for b in sub.values()):
        raise Skip("numbers of states of the eigenspaces change along the path")
    Os = overlaps(calc, g)
    wcc, zak, good = reference(Os)
    smin = min(np.linalg.svd(x.overlap(y))[1].min() for b in sub.values() for x, y in zip(b.kpoints, b.kpoints[1:] + b.kpoints[:1]))
    if smin < .02:
        raise Skip("nearly singular overlaps")
    got = np.concatenate([np.asarray(b.wcc()) for b in sub.values()])
    check(len(got) == len(wcc) and circ(got, wcc) < 1e-3, "centres of the eigenspaces {} and of all states {}", np.sort(got), np.sort(wcc))
    zs = sum(b.zakphase()[0][-1] for b in sub.values())
    phase_close(zs, zak[-1], 1e-2, "sum of the Zak phases of the eigenspaces")
    note.nontrivial(len(sub) > 1)
    note(f"{len(sub)} eigenspaces")


TARGETS = [
    Target("loop", run, case_st, quick=800, thorough=30000),
    Target("translation", run_translation, tr_st, quick=200, thorough=6000),
    Target("cli", run_cli, cli_st, quick=150, thorough=5000),
    Target("separated", run_sep, sep_st, quick=300, thorough=10000),
]
