"""P14: all outputs of a run agree with the calculation."""
import json, os, re
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, reciprocal, cart, rotation_matrix
from ..gen import *
from ..states import symmetric_states, box_planewaves, pick_cutoff
from ..writers import Calc, KP
from .cli import invoke, argv
from .p02 import known_points

RULE = ("The command line is run on generated calculations (tabulated k points with names, or any k points without; optional separation, "
        "selection of printed operations, band files) and every file and the report are parsed and compared with the attributes of "
        "the same calculation made with the library, and with the generated energies. Non-trivial: more than one set of states and "
        "more than one operation in a little group.")
ASSUMPTIONS = ["attributes of the library (decided by the other properties) are the reference"]


def case_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), code=st.sampled_from(CODES), named=st.booleans(),
        ik=st.lists(ints(0, 40), min_size=1, max_size=3), kpts=st.lists(kpt_st(), min_size=1, max_size=4), npw=ints(12, 40), nsets=ints(1, 6),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), cseed=ints(0, 10 ** 6), cell=st.sampled_from(["", "search", "given"]),
        sep=st.one_of(st.none(), st.none(), ints(0, 60)), plot=st.booleans(), suffix=st.sampled_from([None, "abc"]),
        EF=st.sampled_from(["0.0", "0.7", "auto"]), syms=st.one_of(st.none(), st.lists(ints(1, 48), min_size=1, max_size=4)),
        path=st.booleans(), kramers=st.sampled_from([True, True, False]), v=ints(0, 2)))


def build(case, crys, ks):
    rng = np.random.default_rng(case["cseed"])
    Ecut = pick_cutoff(ks, crys.Lattice, case["npw"])
    data = []
    for k in ks:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 5:
            raise Skip("too few plane waves")
        sets = symmetric_states(crys, k, G, case["spinor"], rng)[:case["nsets"] + 3]
        e, E = rng.integers(-8, 8) / 4.0, []
        for i, s in enumerate(sets):
            e += 0.25 * case["esteps"][i % len(case["esteps"])] if i else 0
            E += [e] * len(s)
        data.append((k, G, np.vstack(sets), np.array(E), [int(x) for x in np.cumsum([0] + [len(s) for s in sets])]))
    # one number of bands, ending between multiplets wherever possible
    common = set.intersection(*[set(d[4]) for d in data]) - {0}
    nb = max([c for c in common] or [min(len(d[3]) for d in data)])
    return Calc(crys.Lattice, crys.positions, crys.typat, Ecut, [KP(k, G, C[:nb], E[:nb]) for k, G, C, E, _ in data],
                case["spinor"], EF=.3), bool(common)


def near(a, b, digits, what):
    close(np.asarray(a, float), np.asarray(b, float), .51 * 10 ** -digits + 1e-9, what)


def kline(ks, Lattice, br=.1, supercell=None):
    R = reciprocal(np.asarray(Lattice))
    if supercell is not None:
        R = np.asarray(supercell).T @ R
    x, out = 0.0, [0.0]
    for a, b in zip(ks, ks[1:]):
        d = np.linalg.norm((np.asarray(b) - np.asarray(a)) @ R)
        if abs(d - br) < 1e-6:
            raise Skip("distance at the threshold")
        x += d if d <= br else 0.0
        out.append(x)
    return out


def check_trace(bs, path):
    L = open(path).read().split("\n")
    it = iter(L)
    check(int(next(it)) == bs.num_bands and int(next(it)) == int(bool(bs.spinor)), "header of trace.txt: {}", L[:2])
    n = int(next(it))
    syms = bs.spacegroup.symmetries
    check(n == len(syms), "{} operations in trace.txt", n)
    for i in range(n):
        w = next(it).split()
        s = syms[i]
        check(s.ind == i + 1, "operation {} on line {} of trace.txt", s.ind, i + 1)
        check(len(w) == 20, "{} numbers describe an operation", len(w))
        close(np.array(w[:9], int).reshape(3, 3), s.rotation, 0, f"rotation {i+1} in trace.txt")
        near(w[9:12], s.translation, 6, f"translation {i+1} in trace.txt")
        S = np.array(w[12:], float)
        close((S[::2] + 1j * S[1::2]).reshape(2, 2), s.spinor_rotation, 2e-6, f"spin rotation {i+1} in trace.txt")
    nk = int(next(it))
    check(nk == len(bs.kpoints), "{} k points in trace.txt", nk)
    for K in bs.kpoints:
        near(next(it).split(), K.k, 6, "k point in trace.txt")
    for K in bs.kpoints:
        check(int(next(it)) == len(K.little_group), "order of the little group in trace.txt")
        check([int(x) for x in next(it).split()] == [s.ind for s in K.little_group], "operations of the little group in trace.txt")
        ib = 1
        for e, d, ch in zip(K.Energy_mean, K.degeneracies, K.char):
            w = next(it).split()
            check(len(w) == 3 + 2 * len(ch), "line of trace.txt: {}", w)
            check(int(w[0]) == ib and int(w[1]) == d, "band and degeneracy in trace.txt: {} instead of {} {}", w[:2], ib, d)
            near(float(w[2]), e, 4, "energy in trace.txt")
            c = np.array(w[3:], float)
            close(c[::2] + 1j * c[1::2], np.asarray(ch), 2e-6, "characters in trace.txt")
            ib += d
    check(not "".join(it).strip(), "more lines in trace.txt")


def check_irreps(bs, path):
    L = [l.split() for l in open(path).read().split("\n") if l.strip()]
    want = [(e, "".join(ir)) for K in bs.kpoints for e, ir in zip(K.Energy_mean, K.irreps)]
    check(len(L) == len(want), "{} lines in irreps.dat instead of {}", len(L), len(want))
    for l, (e, ir) in zip(L, want):
        near(float(l[0]), e, 7, "energy in irreps.dat")
        check("".join(l[1:]) == ir, "irreps.dat: {} instead of {}", l[1:], ir)


def check_template(bs, path, v):
    from irreptables import IrrepTable
    sg = bs.spacegroup
    T = IrrepTable(sg.number, sg.spinor, name=path)
    check(T.nsym == len(sg.symmetries) == len(T.symmetries), "{} operations in irreptable-template", len(T.symmetries))
    check(T.name.strip() == sg.name, "name in irreptable-template: {}", T.name)
    for i, (a, s) in enumerate(zip(T.symmetries, sg.symmetries)):
        close(a.R, s.rotation_refUC(sg.refUC), 0, f"rotation {i+1} in irreptable-template")
        t = s.translation_refUC(sg.refUC, sg.shiftUC)
        close((np.asarray(a.t) - t + .5) % 1 - .5, np.zeros(3), 2e-5, f"translation {i+1} in irreptable-template")
        if sg.spinor:
            close(a.S, s.spinor_rotation, 1e-4, f"spin rotation {i+1} in irreptable-template")


def check_json_bs(js, bs, names, what=""):
    close(np.asarray(js["kpoints line"]), np.array(kline([K.k for K in bs.kpoints], bs.Lattice)), 1e-6, what + "line of k points in JSON")
    tot = sum(K.num_bandinvs or 0 for K in bs.kpoints)
    odd = js["number of inversion-odd Kramers pairs"] if bs.spinor else js["number of inversion-odd states"]
    check(odd == (tot // 2 if bs.spinor else tot), "{}odd states in JSON: {} of {}", what, odd, tot)
    if bs.spinor:
        check(np.ravel(js["Z4"]).tolist() == [(tot // 2) % 4], "{}Z4 in JSON: {}", what, js["Z4"])
    for a, b in (("indirect gap (eV)", bs.gap_indirect), ("Minimal direct gap (eV)", bs.gap_direct)):
        check(js[a] == b or abs(js[a] - b) < 1e-6 or (np.isnan(js[a]) and np.isnan(b)), "{}{} in JSON: {} instead of {}", what, a, js[a], b)
    check(len(js["k points"]) == len(bs.kpoints), "{}{} k points in JSON", what, len(js["k points"]))
    for ik, (d, K) in enumerate(zip(js["k points"], bs.kpoints)):
        close(np.asarray(d["kp in line"]), js["kpoints line"][ik], 1e-9, what + "kp in line")
        check(d["kpname"] == (names[ik] if names is not None else None), "{}name of k point {} in JSON: {}", what, ik + 1, d["kpname"])
        check(list(d["symmetries"]) == [s.ind for s in K.little_group], "{}operations in JSON: {}", what, d["symmetries"])
        close(np.asarray(d["energies_mean"]), np.asarray(K.Energy_mean), 1e-9, what + "energies_mean in JSON")
        close(np.asarray(d["energies_raw"]), np.asarray(K.Energy_raw), 1e-9, what + "energies_raw in JSON")
        check([int(x) for x in d["dimensions"]] == [int(x) for x in K.degeneracies], "{}dimensions in JSON: {}", what, d["dimensions"])
        close(np.asarray(d["characters"]), np.asarray(K.char), 1e-9, what + "characters in JSON")
        close(np.asarray(d["characters refUC"]), np.asarray(K.char_refUC), 1e-9, what + "characters refUC in JSON")
        if "characters refUC is the same" in d:
            diff = np.abs(np.asarray(K.char) - K.char_refUC).max()
            check(.5e-4 < diff < 2e-4 or bool(d["characters refUC is the same"]) == (diff < 1e-4), "{}'characters refUC is the same' is {}", what, d["characters refUC is the same"])
        if names is None:
            check(d["irreps"] is None, "{}irreps in JSON: {}", what, d["irreps"])
        else:
            check(len(d["irreps"]) == len(K.irreps), "{}number of sets in JSON", what)
            for a, b in zip(d["irreps"], K.irreps):
                check(set(a) == set(b), "{}irreps in JSON {} instead of {}", what, a, b)
                for n in b:
                    check(abs(complex(*a[n]) - b[n]) < 1e-9, "{}multiplicity in JSON {} instead of {}", what, a[n], b[n])


def parse_report(txt):
    """blocks of k points in the printed report"""
    out, rest = [], []
    for b in re.split(r"\n k-point ", txt)[1:]:
        m = re.match(r" *(\d+) : \[(.*?)\] \(in DFT cell\)\s*\[(.*?)\] \(after cell trasformation\)\s*number of states : (\d+)", b, re.S)
        L = b[m.end():].split("\n")
        i = next(i for i, l in enumerate(L) if l.startswith("   Energy  |"))
        inds = [int(x) for x in L[i + 1].split("|")[3].split()]
        rows = []
        j = i + 2
        while j < len(L) and L[j].count("|") == 3 and L[j].split("|")[0].strip():
            p, q = L[j].split("|"), L[j + 1].split("|")
            num = lambda s: [complex(x) for x in s.split()]
            rows.append((float(p[0]), int(p[1]), p[2].strip(), num(p[3]), num(q[3])))
            j += 2
        o = re.search(r"Invariant under inversion: (Yes|No)\n(?:Number of inversions-odd (?:Kramers pairs|states) : (\d+)\n)?", b)
        g = re.search(r"Gap with upper bands: +(\S+)", b)
        rest.append((o and o.groups(), g and float(g.group(1))))
        out.append((int(m.group(1)), np.array(m.group(2).split(), float), np.array(m.group(3).split(), float), int(m.group(4)), inds, rows))
    tot = re.findall(r"(?:TOTAL number of inversions-odd (?:Kramers pairs|states) |Indirect gap|Smallest direct gap in the given set of k-points): *(\S+)", txt)
    return out, rest, [float(x) for x in tot]


def cnum(s):
    """multiplicity as printed"""
    return complex(s.replace("i", "j"))


def check_report(blocks, bs, named, what=""):
    blocks, rest, tot = blocks
    half = 2 if bs.spinor else 1
    for (o, g), K in zip(rest, bs.kpoints):
        nb = K.num_bandinvs
        check(o is not None and o[0] == ("No" if nb is None else "Yes") and (o[1] is None) == (nb is None), "{}printed parity {}", what, o)
        check(nb is None or int(o[1]) == nb // half, "{}printed number of odd states {} instead of {}", what, o[1], nb)
        check((g is None) == bool(np.isnan(K.upper)), "{}printed gap {}", what, g)
        check(g is None or abs(g - (K.upper - K.Energy_mean[-1])) < 1e-6, "{}printed gap {}", what, g)
    check(len(tot) == 3, "{}totals printed: {}", what, tot)
    check(tot[0] == sum(K.num_bandinvs or 0 for K in bs.kpoints) // half, "{}printed total of odd states {}", what, tot[0])
    for a, b in zip(tot[1:], (bs.gap_indirect, bs.gap_direct)):
        check(a == b or abs(a - b) < 1e-6 or (np.isnan(a) and np.isnan(b)), "{}printed gap {} instead of {}", what, a, b)
    check(len(blocks) == len(bs.kpoints), "{}{} k points printed instead of {}", what, len(blocks), len(bs.kpoints))
    for (ik, k, kr, n, inds, rows), K in zip(blocks, bs.kpoints):
        check(ik == K.ik0, "{}number of the k point printed: {} instead of {}", what, ik, K.ik0)
        near(k, K.k, 5, what + "printed k point")
        near(kr, K.k_refUC, 5, what + "printed k point in the reference cell")
        check(n == K.num_bands, "{}number of states printed: {} instead of {}", what, n, K.num_bands)
        check(inds == [s.ind for s in K.little_group], "{}operations printed: {}", what, inds)
        check(len(rows) == len(K.Energy_mean), "{}{} sets printed instead of {}", what, len(rows), len(K.Energy_mean))
        for (e, d, ir, c1, c2), E, D, IR, C1, C2 in zip(rows, K.Energy_mean, K.degeneracies, K.irreps, K.char, K.char_refUC):
            near(e, E, 4, what + "printed energy")
            check(d == D, "{}printed degeneracy {} instead of {}", what, d, D)
            if not named:
                check(ir == "None", "{}printed irreps {}", what, ir)
            else:
                got = {x.split("(")[0].strip(): cnum(x.split("(")[1].rstrip(")")) for x in ir.split(",")} if ir else {}
                check(list(got) == list(IR), "{}printed irreps {} instead of {}", what, ir, IR)
                for n_ in IR:
                    check(abs(got[n_] - IR[n_]) < 2e-4 * max(1, abs(IR[n_])), "{}printed multiplicity {} instead of {}", what, got[n_], IR[n_])
            for c, C in ((c1, C1), (c2, C2)):
                close(np.real(c), np.real(C), 8e-5, what + "printed characters")
                # imaginary parts below 1e-4 are not printed
                close(np.imag(c), np.imag(C), 1.1e-4, what + "printed imaginary parts of characters")


def floats(s):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", s)]


def kimage(txt):
    """'kx,-ky,kx+2kz' -> matrix"""
    M = np.zeros((3, 3))
    comps = txt.split(",")
    check(len(comps) == 3, "image of k printed: {}", txt)
    for i, c in enumerate(comps):
        c = c.strip()
        terms = re.findall(r"([-+]?)([0-9.]*(?:[eE][-+]?\d+)?)(k[xyz])", c)
        check("".join("".join(t) for t in terms) == c and c, "image of k printed: {}", txt)
        for sg, x, n in terms:
            M[i, "xyz".index(n[1])] += (-1 if sg == "-" else 1) * (float(x) if x else 1.)
    return M


def check_ops(txt, sg, printed):
    """structure and operations described in the report"""
    head = txt.split("---------- CRYSTAL STRUCTURE ----------")[1]
    L = head.split("\n")
    refUC, shift = np.asarray(sg.refUC, float), np.asarray(sg.shiftUC, float)
    inv = np.linalg.inv(refUC)
    Lat = np.asarray(sg.Lattice)
    rows = [l for l in L if re.match(r"a[012] = ", l)]
    check(len(rows) == 3, "{} vectors printed", len(rows))
    for i, l in enumerate(rows):
        a, b = [floats(x.split("=")[1]) for x in l.split("|")]
        near(a, Lat[i], 4, "printed vector of the DFT cell")
        near(b, (refUC.T @ Lat)[i], 4, "printed vector of the reference cell")
    i = next(i for i, l in enumerate(L) if l.startswith("Atom type"))
    atoms = []
    while L[i + 1].count("|") == 2:
        i += 1
        atoms.append(L[i].split("|"))
    check([int(a[0]) for a in atoms] == [int(t) for t in sg.typat], "printed types of atoms {}", [a[0] for a in atoms])
    for a, x in zip(atoms, np.asarray(sg.positions)):
        near(floats(a[1]), x, 4, "printed position")
        near(floats(a[2]), inv @ (x - shift), 4, "printed position in the reference cell")
    m = re.search(r"^Space group: (.*) \(# (\d+)\)$", head, re.M)
    check(m and m.group(1) == sg.name and int(m.group(2)) == sg.number, "printed space group {}", m and m.groups())
    m = re.search(r"^Number of symmetries: (\d+)", head, re.M)
    check(m and int(m.group(1)) == len(sg.symmetries), "printed number of operations {}", m and m.group(1))
    m = re.search(r"\n +\|([^|]*)\|\nrefUC = \|([^|]*)\| +shiftUC = (.*)\n +\|([^|]*)\|\n", head)
    check(m, "transformation to the reference cell is not printed")
    near([floats(m.group(i)) for i in (1, 2, 4)], refUC.T, 4, "printed refUC")
    near(floats(m.group(3)), shift, 5, "printed shiftUC")
    same = np.abs(refUC - np.eye(3)).max() + np.abs(shift).max()
    if 1e-10 < same < 1e-4:
        raise Skip("reference cell too close to the calculated one")
    same = same > 1e-4      # two cells are described
    parts = re.split(r"^ ### (\d+) *$", head, flags=re.M)[1:]
    ops = dict(zip([int(x) for x in parts[::2]], parts[1::2]))
    bys = {s.ind: s for s in sg.symmetries}
    check(set(ops) == set(printed), "operations printed {}", sorted(ops))
    for ind, b in ops.items():
        s = bys[ind]
        L = b.split("\n")
        i = next(i for i, l in enumerate(L) if l.startswith("rotation : |"))
        cols = [[floats(x) for x in l.split("|")[1::2]] for l in L[i:i + 3]]
        check(len(cols[0]) == (2 if same else 1), "{} cells described for operation {} with refUC {} shiftUC {}", len(cols[0]), ind, refUC.tolist(), shift)
        W = np.asarray(s.rotation, float)
        close(np.array([c[0] for c in cols]), W, 0, f"printed rotation {ind}")
        WR = inv @ W @ refUC
        if same:
            close(np.array([c[1] for c in cols]), WR, 1e-5, f"printed rotation {ind} in the reference cell")
        g = re.findall(r"gk = \[([^\]]*)\]", b)
        check(len(g) == len(cols[0]), "images of k printed for operation {}", ind)
        close(kimage(g[0]), np.linalg.inv(W).T, 1e-5, f"printed image of k under operation {ind}")
        if same:
            close(kimage(g[1]), np.linalg.inv(WR).T, 1e-5, f"printed image of k under operation {ind} in the reference cell")
        sp = re.findall(r"^spinor rot\. *(\(refUC\))? *: \|([^|]*)\|\n *\|([^|]*)\|", b, re.M)
        check([bool(x[0]) for x in sp] == ([] if not sg.spinor else [False, True] if same else [False]), "spin matrices printed for operation {}", ind)
        for ref, r1, r2 in sp:
            num = r"[-+]?\d+\.\d+ *[-+]\d+\.\d+j"
            check(not re.sub(num, "", r1 + r2).strip(), "spin matrix printed: {} {}", r1, r2)
            S = np.array([[complex(x.replace(" ", "")) for x in re.findall(num, r)] for r in (r1, r2)])
            close(S, s.spinor_rotation * (s.sign if ref else 1), 8e-4, f"printed spin matrix {ind}")
        t = re.findall(r"^translation *(\(refUC\))? *: +\[([^\]]*)\]", b, re.M)
        check([bool(x[0]) for x in t] == ([False, True] if same else [False]), "translations printed for operation {}", ind)
        for ref, x in t:
            want = inv @ (s.translation + W @ shift - shift) if ref else np.asarray(s.translation)
            x = np.array(floats(x))
            check(x.min() >= 0 and x.max() <= 1, "translation printed: {}", x)
            close((x - want + .5) % 1 - .5, np.zeros(3), 6e-5, f"printed translation {ind}")
        m = re.search(r"^axis: \[(.*?)\] ; angle = (.*?), inversion : (\w+)", b, re.M | re.S)
        check(m, "axis of operation {} is not printed", ind)
        near(floats(m.group(1)), s.axis, 6, "printed axis")
        check(m.group(2).strip() == s.angle_str.strip() and m.group(3) == str(bool(s.inversion)), "printed angle and inversion {}", m.groups())
        # geometry of the operation
        axis = np.array(floats(m.group(1)))
        a = m.group(2).replace("pi", "").split("/")
        ang = np.pi * float(a[0] or 1) / (float(a[1]) if len(a) > 1 else 1)
        sign = -1 if m.group(3) == "True" else 1
        close(rotation_matrix(axis * ang / max(np.linalg.norm(axis), 1e-9)) * sign, cart(Lat, W), 2e-4, f"axis and angle printed for operation {ind}")
    return same


def check_plot(bs, path):
    L = open(path).read().split("\n")
    blocks = [b for b in "\n".join(L[1:]).split("\n\n")]
    rows = [np.array([l.split() for l in b.split("\n") if l.strip()], float) for b in blocks if b.strip()]
    check(len(rows) == bs.num_bands, "{} bands in {} instead of {}", len(rows), path, bs.num_bands)
    x = kline([K.k for K in bs.kpoints], bs.Lattice)
    for ib, r in enumerate(rows):
        near(r[:, 0], x, 4, "abscissa in " + path)
        want = [np.repeat(K.Energy_mean, K.degeneracies)[ib] for K in bs.kpoints]
        near(r[:, 1], want, 4, "energies in " + path)


def match_eigenvalues(evs, keys, kramers):
    """eigenvalues in JSON (real parts of a pair, or real and imaginary parts) -> key of the subspace"""
    check(all(isinstance(x, (list, tuple)) != kramers for x in evs), "eigenvalues in JSON: {}", evs)
    evs = [complex(x) if kramers else complex(*x) for x in evs]
    check(all(len(k) == len(evs) for k in keys), "eigenvalues in JSON: {}", evs)
    key = min(keys, key=lambda k: max(abs(a - b) for a, b in zip(k, evs)))
    check(max(abs(a - b) for a, b in zip(key, evs)) < 1e-9, "subspace of eigenvalues {}", evs)
    return key


def printed_complex(txt):
    """'+0.500', '-1.000j' or '+0.500-0.866j'"""
    num = r"[-+]\d+\.\d{3}"
    m = re.fullmatch(f"(?:({num}))?(?:({num})j)?", txt)
    check(m and txt, "eigenvalue printed as {}", txt)
    return complex(float(m.group(1) or 0), float(m.group(2) or 0))


def check_bandfiles(files, suffix, sep, subs):
    """one file for each subspace, named after its eigenvalues; subs: eigenvalues -> band structure"""
    check(len(files) == len(subs), "band files {} for the subspaces {}", files, list(subs))
    left = dict(subs)
    for f in files:
        check(f.startswith(f"bands-{suffix}") and f.endswith(".dat"), "band file {}", f)
        rest = f[len(f"bands-{suffix}"):-len(".dat")]
        parts = re.findall(r"-(\d+):([-+]\d[^:]*?)(?=-\d+:|$)", rest)
        check([int(i) for i, _ in parts] == list(sep) and "".join(f"-{i}:{e}" for i, e in parts) == rest, "band file {} for operations {}", f, sep)
        evs = [printed_complex(e) for _, e in parts]
        key = [k for k in left if all(abs(a - b) < 8e-4 for a, b in zip(k, evs))]
        check(len(key) == 1, "band file {} for the subspaces {}", f, list(left))
        check_plot(left.pop(key[0]), f)


def run(case, note):
    from monty.serialization import loadfn
    crys = Crystal(case["crystal"])
    spinor = case["spinor"]
    cell = case["cell"]
    T = table(crys.n, spinor)
    if case["named"] or cell:
        crys.require_number()
    if case["named"]:
        cell = cell or "search"
        idx = sorted({i % len(T.kx) for i in case["ik"]})
    kw, args = {}, []
    inv = np.linalg.inv(crys.A)
    if cell == "given":
        kw = dict(refUC=inv.T, shiftUC=-inv @ crys.s)
        args = ["-refUC=" + ",".join(repr(float(x)) for x in inv.T.reshape(-1)),
                "-shiftUC=" + ",".join(repr(float(x)) for x in (-inv @ crys.s))]
        refUC = inv
    elif case["named"]:
        from irrep.spacegroup import SpaceGroup
        refUC = np.array(SpaceGroup(crys.cell, spinor=spinor, search_cell=True).refUC, float)
    names = None
    if case["named"]:
        ks = [np.linalg.inv(refUC.T) @ T.kx[i] for i in idx]
        names = [T.kpoints[i][0] for i in idx]
        args += ["-kpnames", ",".join(names)]
    else:
        ks = [crys.k_dft(k) for k in case["kpts"]]
        if case["path"]:
            ks = [ks[0] + (ks[-1] - ks[0] + .02) * i / 40 for i in range(len(ks) + 1)]
    if cell == "search":
        args += ["-searchcell"]
    search = cell == "search" or case["named"]
    calc, whole = build(case, crys, ks)
    base = write(calc, case["code"])
    bs = run_bs(base, EF=case["EF"], degen_thresh=1e-4, search_cell=search, **kw)
    bs.identify_irreps(names)
    sep = None
    if case["sep"] is not None and whole:
        common = [s for s in bs.spacegroup.symmetries if all(s in K.little_group for K in bs.kpoints)]
        sep = common[case["sep"] % len(common)].ind
        args += ["-isymsep", str(sep)]
    if case["plot"]:
        args += ["-plotbands"]
    if case["suffix"]:
        args += ["-suffix", case["suffix"]]
    printed = None
    if case["syms"]:
        args += ["-symmetries", ",".join(str(x) for x in case["syms"])]
        printed = [s.ind for s in bs.spacegroup.symmetries if s.ind in case["syms"]]
    kramers = case["kramers"]
    if not kramers:              # only possible in a configuration file
        with open("conf.json", "w") as f:
            json.dump(dict(groupKramers=False), f)
        args += ["-config", "conf.json"]
    before = set(os.listdir("."))
    subs = bs.Separate(sep, degen_thresh=1e-4, groupKramers=kramers) if sep is not None else None
    if subs is not None and case["plot"] and any(len({K.num_bands for K in b.kpoints}) > 1 for b in subs.values()):
        raise Skip("numbers of bands of a subspace differ (no band file)")
    out = invoke(argv({**base, "EF": case["EF"]}) + args + ["-v"] * case["v"])
    suffix = case["suffix"] or "tognuplot"
    new = set(os.listdir(".")) - before
    check_trace(bs, "trace.txt")
    check_template(bs, "irreptable-template", case["v"])
    if names is not None:
        check_irreps(bs, "irreps.dat")
    else:
        check("irreps.dat" not in new, "irreps.dat written without names of k points")
    js = loadfn("irrep-output.json")
    d = js["spacegroup"]
    sg = bs.spacegroup
    check(d["name"] == sg.name and d["number"] == sg.number and d["num symmetries"] == sg.order and bool(d["spinor"]) == bool(sg.spinor),
          "space group in JSON: {}", d)
    check(sorted(int(i) for i in d["symmetries"]) == (sorted(s.ind for s in sg.symmetries) if printed is None else sorted(printed)),
          "operations in JSON: {}", sorted(d["symmetries"]))
    match = np.allclose(sg.refUC, np.eye(3)) and np.allclose(sg.shiftUC, 0)
    check(bool(d["cells match"]) == match, "'cells match' is {}", d["cells match"])
    for i, o in d["symmetries"].items():
        s = next(s for s in sg.symmetries if s.ind == int(i))
        close(np.asarray(o["axis"]), np.asarray(s.axis), 1e-9, "axis in JSON")
        check(o["angle str"] == s.angle_str and abs(o["angle pi"] * np.pi - s.angle) < 1e-9, "angle in JSON: {} {}", o["angle str"], o["angle pi"])
        check(bool(o["inversion"]) == bool(s.inversion) and o["sign"] == s.sign, "inversion and sign in JSON: {}", o)
        close(np.asarray(o["rotation matrix"]), s.rotation, 0, "rotation in JSON")
        close(np.asarray(o["translation"]), s.translation, 1e-9, "translation in JSON")
        iR = np.linalg.inv(np.asarray(sg.refUC, float))
        close(np.asarray(o["rotation matrix refUC"]), iR @ s.rotation @ sg.refUC, 1e-5, "rotation matrix refUC in JSON")
        close(np.asarray(o["translation refUC"]), iR @ (s.translation + s.rotation @ sg.shiftUC - sg.shiftUC), 1e-6, "translation refUC in JSON")
    # which operations are described in the report
    heads = [int(x) for x in re.findall(r"^ ### (\d+) *$", out.split("-------- SEPARATING")[0], re.M)]
    check(heads == (printed if printed is not None else [s.ind for s in sg.symmetries]), "operations printed: {}", heads)
    if check_ops(re.split(r"\n k-point ", out)[0], sg, heads):
        note("two cells described")
    parts = out.split("NEXT SUBSPACE:")
    blocks = parse_report(parts[0])
    check_report(blocks, bs, names is not None)
    check(js["separated by symmetry"] == (sep is not None), "'separated by symmetry' is {}", js["separated by symmetry"])
    if sep is None:
        check(len(js["characters and irreps"]) == 1, "{} subspaces", len(js["characters and irreps"]))
        check_json_bs(js["characters and irreps"][0]["subspace"], bs, names)
        check(len(parts) == 1, "subspaces printed without separation")
    else:
        check([int(x) for x in js["separating symmetries"]] == [sep], "separating symmetries {}", js["separating symmetries"])
        got = js["characters and irreps"]
        check(len(got) == len(subs) == len(parts) - 1, "{} subspaces in JSON, {} printed, instead of {}", len(got), len(parts) - 1, len(subs))
        byk = {K.ik0: i for i, K in enumerate(bs.kpoints)}
        used = set()
        for g, txt in zip(got, parts[1:]):
            key, = match_eigenvalues(g["symmetry eigenvalues"], [(k,) for k in subs], kramers)
            check(key not in used, "two subspaces of eigenvalue {}", key)
            used.add(key)
            m = re.match(r" *sym # (\d+) -> eigenvalue (\S+) *\n", txt)
            check(m and int(m.group(1)) == sep and abs(printed_complex(m.group(2)) - key) < 8e-4, "header of the subspace {}: {}", key, txt[:60])
            b = subs[key]
            nm = None if names is None else [names[byk[K.ik0]] for K in b.kpoints]
            check_json_bs(g["subspace"], b, nm, f"subspace {key}: ")
            check_report(parse_report(txt), b, names is not None, f"subspace {key}: ")
        note("separated" + ("" if kramers else ", single states"))
    files = sorted(f for f in new if f.startswith("bands-"))
    if case["plot"]:
        check_bandfiles(files, suffix, [] if sep is None else [sep], {(): bs} if sep is None else {(k,): b for k, b in subs.items()})
        note("band file")
    else:
        check(not files, "band files {} not asked for", files)
    # the generated energies
    ef = bs.efermi
    for (ik, k, kr, n, inds, rows), kp in zip(blocks[0], calc.kpts):
        E = np.repeat([r[0] for r in rows], [r[1] for r in rows])
        close(E, kp.E - ef, 1e-4, "printed energies")
    note.nontrivial(any(len(K.Energy_mean) > 1 and len(K.little_group) > 1 for K in bs.kpoints))
    note("named" if names is not None else "not named")
    note(f"{min(len(ks), 4)} k points")


# ----------------------------------------------------- line of k points
def real_st():
    """little groups of few operations, where characters can be real in one cell and complex in the other"""
    return st.tuples(case_st(), crystal_st(sgs=list(range(3, 75)), shift=False), st.lists(st.lists(st.sampled_from(
        [0, .5, .5, .25]), min_size=3, max_size=3), min_size=1, max_size=2), st.sampled_from(["search", "given"])).map(
        lambda t: {**t[0], "crystal": t[1], "kpts": t[2], "named": False, "sep": None, "cell": t[3]})


def many_st():
    """more than nine k points, or more than ninety-nine bands"""
    k = st.tuples(case_st(), st.lists(kpt_st(), min_size=10, max_size=13), ints(1, 3), st.lists(ints(0, 40), min_size=10, max_size=12)).map(
        lambda t: {**t[0], "kpts": t[1], "nsets": t[2], "ik": t[3], "npw": 12})
    b = st.tuples(case_st(), ints(110, 160)).map(lambda t: {**t[0], "npw": t[1], "nsets": 130, "kpts": t[0]["kpts"][:1], "ik": t[0]["ik"][:1]})
    return st.one_of(k, k, b)


def line_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), ks=st.lists(st.lists(ints(-50, 50), min_size=3, max_size=3), min_size=1, max_size=9), fine=st.sampled_from([10, 100, 1000]),
        br=st.sampled_from([None, .03, .1, .5, 100.]), kpred=st.booleans(),
        sc=st.one_of(st.none(), st.sampled_from([[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]]]))))


def run_line(case, note):
    """accumulated Cartesian length, jumps longer than the threshold counted as zero"""
    crys = Crystal(case["crystal"])
    ks = [np.array(k) / case["fine"] for k in case["ks"]]
    from ..states import random_states
    k0 = ks if not case["kpred"] else [np.zeros(3)]
    Ecut = pick_cutoff(k0, crys.Lattice, 14)
    kps = []
    for k in k0:
        G, _ = box_planewaves(k, crys.Lattice, Ecut)
        if len(G) < 2:
            raise Skip("too few plane waves")
        kps.append(KP(k, G, random_states(len(G), 1, np.random.default_rng(0)), [0.]))
    bs = run_bs(write(Calc(crys.Lattice, crys.positions, crys.typat, Ecut, kps, False), "abinit"), calculate_traces=False)
    kw = {}
    if case["br"] is not None:
        kw["breakTHRESH"] = case["br"]
    sc = None if case["sc"] is None else np.array(case["sc"])
    if sc is not None:
        kw["supercell"] = sc
    if case["kpred"]:
        kw["kpred"] = ks
    want = kline(ks, crys.Lattice, case["br"] or .1, sc)
    close(np.asarray(bs.KPOINTSline(**kw)), np.array(want), 1e-6, "position along the path")
    d = np.diff(want)
    note.nontrivial(len(ks) > 1 and d.any())
    if (d == 0).any() and d.any():
        note("path with a jump")


TARGETS = [
    Target("outputs", run, case_st, quick=500, thorough=20000),
    Target("outputs-real", run, real_st, quick=700, thorough=8000),
    Target("outputs-many", run, many_st, quick=60, thorough=2000),
    Target("line", run_line, line_st, quick=300, thorough=10000),
]
