"""P13: gaps, parities and Z2/Z4 values follow from the levels and parities."""
import contextlib, io, re
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, su2, cart
from ..gen import *
from ..states import Action, symmetric_states, box_planewaves, pick_cutoff
from ..writers import Calc, KP

RULE = ("Complete multiplets (with or without time reversal) at time-reversal invariant and other k points; a random range of bands "
        "ending between multiplets is selected. Gaps are recomputed from the energies and parities from the matrix of inversion "
        "on plane waves. Non-trivial: a k point invariant under inversion with odd states, or a band above the selection.")
ASSUMPTIONS = ["multiplets are complete (a selection that cuts one has no parity)"]

CENTRO = [2, 10, 11, 12, 13, 14, 15] + list(range(47, 75)) + list(range(83, 89)) + list(range(123, 143)) + [147, 148] + \
    list(range(162, 168)) + [175, 176, 191, 192, 193, 194] + list(range(200, 207)) + list(range(221, 231))


def case_st(cells=False):
    trim = st.lists(st.sampled_from([0, .5]), min_size=3, max_size=3)
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(sgs=CENTRO, shift=False, cells=True) if cells else st.one_of(crystal_st(sgs=CENTRO, shift=False, digits=True), crystal_st(sgs=[2, 10, 12, 47, 65, 69, 71], shift=False, digits=True), crystal_st(sgs=CENTRO, digits=True), crystal_st(digits=True)), spinor=st.booleans(), code=st.sampled_from(CODES),
        prim=st.lists(trim, min_size=1, max_size=8), other=st.lists(kpt_st(), max_size=2), npw=ints(12, 36), nsets=ints(1, 8),
        esteps=st.lists(ints(1, 6), min_size=1, max_size=8), tr=st.booleans(), cut=st.tuples(ints(0, 60), ints(0, 60)),
        EF=st.sampled_from(["0.0", "1.3", "auto"]), cseed=ints(0, 10 ** 6)))


def run(case, note):
    crys = Crystal(case["crystal"])
    rng = np.random.default_rng(case["cseed"])
    spinor = case["spinor"]
    ks = [np.array(k, float) for k in case["prim"]] + [crys.k_dft(k) for k in case["other"]]
    ks = ks[:4]
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    data = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 5:
            raise Skip("too few plane waves")
        sets = symmetric_states(crys, k, G, spinor, rng, tr=case["tr"])[:case["nsets"] + 3]
        e = rng.integers(-8, 8) / 4.0
        E = []
        for i, s in enumerate(sets):
            e += 0.25 * case["esteps"][i % len(case["esteps"])]
            E += [e] * len(s)
        data.append((k, G, np.vstack(sets), np.array(E), np.cumsum([0] + [len(s) for s in sets])))
    nb = min(len(d[3]) for d in data)
    common = sorted(set.intersection(*[set(int(x) for x in d[4] if x <= nb) for d in data]))
    if len(common) < 2:
        raise Skip("no band between complete multiplets at all k points")
    i0, i1 = case["cut"][0] % (len(common) - 1), 0
    i1 = i0 + 1 + case["cut"][1] % (len(common) - 1 - i0)
    b0, b1 = common[i0], common[i1]
    calc = Calc(crys.Lattice, crys.positions, crys.typat, Ecut, [KP(k, G, C[:nb], E[:nb]) for k, G, C, E, _ in data], spinor, EF=.403651)
    bs = run_bs(write(calc, case["code"]), IBstart=b0 + 1, IBend=b1, degen_thresh=1e-3, EF=case["EF"])
    bs.identify_irreps(None)
    ef = bs.efermi
    up = [kp.E[b1] - ef if b1 < nb else np.inf for kp in calc.kpts]
    low = [kp.E[b1 - 1] - ef for kp in calc.kpts]
    direct = min(u - l for u, l in zip(up, low))
    indirect = min(up) - max(low)
    has = b1 < nb

    def same_gap(x, ref, what):
        check(abs(x - ref) < 5e-5 if has else not (np.isfinite(x)), "{}: {} instead of {}", what, x, ref)
    same_gap(bs.gap_direct, direct, "direct gap")
    same_gap(bs.gap_indirect, indirect, "indirect gap")
    # parities: eigenvalues of an operation -1 without translation
    inv = [s for s in bs.spacegroup.symmetries if (s.rotation == -np.eye(3)).all()]
    odd = []
    for K, kp in zip(bs.kpoints, calc.kpts):
        trim = np.abs(2 * kp.k - np.round(2 * kp.k)).max() < 1e-8
        if trim and any(np.abs(s.translation - np.round(s.translation)).max() < 8e-6 for s in inv):     # rounding of the positions
            C = kp.C[b0:b1] / np.linalg.norm(kp.C[b0:b1], axis=1)[:, None]
            M = C.conj() @ Action(kp.k, kp.G, -np.eye(3, dtype=int), np.zeros(3)).apply(C, np.eye(2) if spinor else None).T
            ev = np.linalg.eigvalsh((M + M.conj().T) / 2)
            if np.abs(np.abs(ev) - 1).max() > 1e-4:
                raise Violation("oracle: multiplets are not complete")
            odd.append(int((ev < 0).sum()))
        else:
            odd.append(None)
        check(K.num_bandinvs == odd[-1], "inversion-odd states at k={}: {} instead of {}", kp.k, K.num_bandinvs, odd[-1])
    tot = sum(o for o in odd if o is not None)
    check(bs.num_bandinvs == tot, "total of odd states {} instead of {}", bs.num_bandinvs, tot)
    # JSON and printed
    js = bs.json()
    same_gap(js["indirect gap (eV)"], indirect, "indirect gap in JSON")
    same_gap(js["Minimal direct gap (eV)"], direct, "direct gap in JSON")
    if spinor:
        check(js["number of inversion-odd Kramers pairs"] == tot // 2, "Kramers pairs in JSON: {}", js["number of inversion-odd Kramers pairs"])
        z4 = js["Z4"]
        z4 = z4[0] if isinstance(z4, (tuple, list)) else z4
        check(z4 == (tot // 2) % 4, "Z4 in JSON {} for {} odd states", z4, tot)
    else:
        check(js["number of inversion-odd states"] == tot, "odd states in JSON: {}", js["number of inversion-odd states"])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        bs.write_characters()
    txt = buf.getvalue()
    blocks = re.split(r"\n k-point ", txt)[1:]
    check(len(blocks) == len(ks), "{} k points printed", len(blocks))
    for b, o, u, l in zip(blocks, odd, up, low):
        m = re.search(r"Invariant under inversion: (\w+)", b)
        check(m and m.group(1) == ("No" if o is None else "Yes"), "printed invariance under inversion: {}", m and m.group(1))
        m = re.search(r"^Number of inversions-odd (Kramers pairs|states) : (\d+)", b, re.M)
        check((m is None) == (o is None), "printed number of odd states: {}", m)
        if m:
            check(m.group(1) == ("Kramers pairs" if spinor else "states") and int(m.group(2)) == (o // 2 if spinor else o),
                  "printed number of odd {}: {} for {} states", m.group(1), m.group(2), o)
        m = re.search(r"Gap with upper bands: +(\S+)", b)
        check((m is None) == (not has), "printed gap with upper bands: {}", m)
        if m:
            close(float(m.group(1)), u - l, 5e-5, "printed gap with upper bands")
    g = lambda r: re.search(r, txt)
    m = g(r"TOTAL number of inversions-odd (Kramers pairs|states) : (\d+)")
    check(m and int(m.group(2)) == (tot // 2 if spinor else tot) and m.group(1) == ("Kramers pairs" if spinor else "states"),
          "printed total: {} for {} odd states", m and m.groups(), tot)
    m = g(r"Z2 invariant: (\d+)")
    check(m and int(m.group(1)) == (tot // 2) % 2, "printed Z2 {} for {} odd states", m and m.group(1), tot)
    m = g(r"Z4 invariant: (\d+)")
    check(m and int(m.group(1)) == (tot // 2) % 4, "printed Z4 {} for {} odd states", m and m.group(1), tot)
    m = g(r"Indirect gap: (\S+)")
    same_gap(float(m.group(1)), indirect, "printed indirect gap")
    m = g(r"Smallest direct gap in the given set of k-points: (\S+)")
    same_gap(float(m.group(1)), direct, "printed direct gap")
    note.nontrivial((tot > 0) or has)
    note("odd states" if tot else "no odd states")
    note("bands above" if has else "all bands")
    if any(o is None for o in odd) and any(o is not None for o in odd):
        note("some k points not invariant")


TARGETS = [Target("invariants", run, case_st, quick=1000, thorough=40000),
           # cells with several primitive cells: several inversions
           Target("invariants-supercell", run, lambda: case_st(True), quick=200, thorough=8000)]
