"""P05: shipped tables hold groups and complete sets of irreps, parsed and written faithfully."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import RawTable, table, CENT
from ..gen import *

RULE = ("All 460 tables (enumerated): operations, k points and irreps in memory against an independent parser, group axioms, "
        "orthonormality, completeness, multiplication of projective characters; plus generated operations, k points, irreps and "
        "whole table files written in varied format and parsed again. Non-trivial: more than one operation.")
ASSUMPTIONS = ["translations of the files are multiples of 1/24 and k points multiples of 1/12 rounded to 5-6 digits",
               "characters of the tables refer to translations as exp(+ik.t)"]


def load(n, spinor, name=None, v=0):
    from irreptables import IrrepTable
    return IrrepTable(n, spinor, name=name, v=v)


def compare(tab, T, n, spinor, tol=1e-9):
    """table in memory against own parsing of the text"""
    check(tab.number == n and bool(tab.spinor) == spinor, "number/spinor {} {}", tab.number, tab.spinor)
    check(tab.name == T.name, "name {!r} instead of {!r}", tab.name, T.name)
    check(tab.nsym == T.nsym == len(tab.symmetries), "{} operations instead of {}", len(tab.symmetries), T.nsym)
    for i, s in enumerate(tab.symmetries):
        close(s.R, T.R[i], 0, f"rotation of operation {i+1}")
        close(s.t, T.t[i], tol, f"translation of operation {i+1}")
        close(s.S, T.S[i], tol, f"spin rotation of operation {i+1}")
    want = [(kn, k, isym, x) for kn, k, isym, irr in T.kpoints for x in irr]
    check(len(tab.irreps) == len(want), "{} irreps instead of {}", len(tab.irreps), len(want))
    for irr, (kn, k, isym, (name, dim, ch)) in zip(tab.irreps, want):
        check(irr.kpname == kn and irr.name == name and irr.dim == dim, "irrep {} {} {} instead of {} {} {}",
              irr.kpname, irr.name, irr.dim, kn, name, dim)
        close(irr.k, k, tol, f"k point of {name}")
        check(sorted(irr.characters) == sorted(isym) and irr.nsym == len(isym),
              "operations of {}: {} instead of {}", name, sorted(irr.characters), isym)
        close([irr.characters[i] for i in isym], ch, tol, f"characters of {name}")
        real = bool(np.all(np.isreal(ch)))
        if not irr.reality:
            continue
        check(real, "irrep {} with complex characters reported as real", name)


def check_group(T, n, spinor):
    cent = [np.array(c) for c in CENT[T.name[0]]]
    idx = {R.tobytes(): i for i, R in enumerate(T.R)}
    check(len(idx) == T.nsym, "repeated rotations in the table of SG {}", n)
    sg = np.ones((T.nsym, T.nsym))
    tab = np.zeros((T.nsym, T.nsym), int)
    for i in range(T.nsym):
        det = round(np.linalg.det(T.R[i]))
        check(abs(det) == 1, "determinant {}", det)
        close(T.t[i], T.tx[i], 1e-5, f"translation of operation {i+1} of SG {n}, against multiples of 1/24")
        if spinor:
            S = T.S[i]
            close(S @ S.conj().T, np.eye(2), 1e-3, f"unitarity of the spin rotation of operation {i+1} of SG {n}")
            close(np.linalg.det(S), 1, 1e-3, "determinant of the spin rotation")
            # angle of the rotation from its trace
            close(np.trace(S).real ** 2, 1 + det * np.trace(T.R[i]), 1e-3, f"angle of the spin rotation {i+1} of SG {n}")
        for j in range(T.nsym):
            k = idx.get((T.R[i] @ T.R[j]).tobytes())
            check(k is not None, "product of operations {} and {} of SG {} is missing", i + 1, j + 1, n)
            tab[i, j] = k
            d = T.R[i] @ T.tx[j] + T.tx[i] - T.tx[k]
            check(any(np.abs(d - c - np.round(d - c)).max() < 1e-3 for c in cent),
                  "operations {} x {} = {} of SG {}: translations differ by {}", i + 1, j + 1, k + 1, n, d)
            if spinor:
                c = np.trace(T.S[i] @ T.S[j] @ T.S[k].conj().T) / 2
                check(abs(abs(c) - 1) < 1e-3 and abs(c.imag) < 1e-3, "spin rotations {} x {} of SG {}", i + 1, j + 1, n)
                sg[i, j] = np.sign(c.real)
    return tab, sg


def check_irreps(T, n, spinor, tab, sg, pairs_seed=None):
    cent = [np.array(c) for c in CENT[T.name[0]]]
    names = set()
    check(len({k[0] for k in T.kpoints}) == len(T.kpoints), "repeated k points in SG {}", n)
    for (kn, kraw, isym, irr), k in zip(T.kpoints, T.kx):
        close(kraw, k, 2e-5, f"k point {kn} of SG {n}, against multiples of 1/12")
        lg = []
        for i in range(T.nsym):
            d = np.linalg.inv(T.R[i]).T @ k - k
            if all(abs(d @ c - round(d @ c)) < 1e-6 for c in cent) and np.abs(d - np.round(d)).max() < 1e-6:
                lg.append(i)
        check([i + 1 for i in lg] == sorted(isym), "little group of {} in SG {}: {} instead of {}", kn, n,
              sorted(isym), [i + 1 for i in lg])
        lg = [i - 1 for i in isym]
        N = len(lg)
        X = np.array([ch for _, _, ch in irr])
        close(X.conj() @ X.T / N, np.eye(len(irr)), 2e-3, f"orthonormality of the irreps at {kn} of SG {n}")
        check(sum(d * d for _, d, _ in irr) == N, "dimensions at {} of SG {}: {} for order {}", kn, n,
              [d for _, d, _ in irr], N)
        one = [a for a, i in enumerate(lg) if (T.R[i] == np.eye(3)).all()][0]
        close(X[:, one], [d for _, d, _ in irr], 1e-4, f"characters of the identity at {kn} of SG {n}")
        inv = [a for a, i in enumerate(lg) if (T.R[i] == -np.eye(3)).all()]
        if inv:
            par = {(1 if nm.endswith("+") else -1) * round((ch[inv[0]] / d).real)
                   for nm, d, ch in irr if nm[-1] in "+-"}
            check(len(par) <= 1, "parities of irreps at {} of SG {} contradict their names", kn, n)
        for nm, d, ch in irr:
            check(nm not in names, "repeated irrep {} in SG {}", nm, n)
            names.add(nm)
            check(nm.startswith("-") == spinor and nm.lstrip("-").startswith(kn), "irrep {} of {} (spinor={})", nm, kn, spinor)
        if kn == "GM" and not spinor:
            close(irr[0][2], np.ones(N), 1e-4, f"first irrep of GM of SG {n}")
        # irreducible (projective) characters: chi(g)chi(h) = d/|G| sum_x chi(g x h x^-1)
        pos = {i: a for a, i in enumerate(lg)}
        invr = {i: [j for j in lg if (T.R[tab[i, j]] == np.eye(3)).all()][0] for i in lg}
        D = np.array([d for _, d, _ in irr])

        def mul(x, y):            # ({i|t+T}, sign) products, kept as (index, lattice translation, sign)
            (i, Ti, si), (j, Tj, sj) = x, y
            kk = tab[i, j]
            Tn = T.R[i] @ (T.tx[j] + Tj) + T.tx[i] + Ti - T.tx[kk]
            return kk, Tn, si * sj * (sg[i, j] if spinor else 1)

        def inverse(x):
            i = x[0]
            j = invr[i]
            e = mul(x, (j, np.zeros(3), 1))
            # x * j = {E|e} with sign: inverse = j {E|-R_j e..}
            return j, -T.R[j] @ e[1], e[2]

        z = np.zeros(3)
        pairs = [(g, h) for g in lg for h in lg]
        if pairs_seed is not None and len(pairs) > 24:
            rng = np.random.default_rng(pairs_seed + len(names))
            pairs = [pairs[q] for q in rng.choice(len(pairs), 24, replace=False)]
        xs = [((x, z, 1), inverse((x, z, 1))) for x in lg]
        for g, h in pairs:
            tot = 0
            for x, xi in xs:
                kk, Tn, s = mul(mul((g, z, 1), mul(x, (h, z, 1))), xi)
                tot = tot + X[:, pos[kk]] * s * np.exp(2j * np.pi * k @ Tn)
            close(X[:, pos[g]] * X[:, pos[h]], tot * D / N, 5e-3,
                  f"multiplication of characters of operations {g+1} and {h+1} at {kn} of SG {n}")


def run_table(case, note):
    n, spinor = case["sg"], case["spinor"]
    T = RawTable(n, spinor)
    check(int(T.head["SG"]) == n, "table of SG {} has the header of {}", n, T.head["SG"])
    other = RawTable(n, not spinor)
    for a, b in zip(T.R, other.R):
        close(a, b, 0, "operations of the single and double group")
    for a, b in zip(T.tx, other.tx):
        close(a, b, 1e-9, "translations of the single and double group")
    check([(k[0], tuple(k[2])) for k in T.kpoints] == [(k[0], tuple(k[2])) for k in other.kpoints],
          "k points of the single and double group")
    compare(load(n, spinor), T, n, spinor)
    tab, sg = check_group(T, n, spinor)
    check_irreps(T, n, spinor, tab, sg, case["pairs"])
    note.nontrivial(T.nsym > 1)
    note("double" if spinor else "single")


def all_tables(tier):
    return [dict(sg=n, spinor=sp, pairs=(1 if tier == "quick" else None)) for n in range(1, 231) for sp in (False, True)]


# -------------------------------------------------------------- written and parsed again
def st_op():
    return st.fixed_dictionaries(dict(
        R=st.lists(ints(-1, 1), min_size=9, max_size=9), t=st.lists(ints(-48, 48).map(lambda i: i / 24), min_size=3, max_size=3),
        S=st.one_of(st.none(), st.lists(ints(-100, 100).map(lambda i: i / 100), min_size=4, max_size=4)),
        k=st.lists(ints(-24, 24).map(lambda i: i / 24), min_size=3, max_size=3),
        isym=st.lists(ints(1, 48), min_size=1, max_size=48, unique=True),
        ch=st.lists(st.tuples(st.sampled_from([0, 1, 2, -1, 3, .5, 1.41421, 6]), ints(-12, 12)), min_size=48, max_size=48),
        real=st.booleans(), name=st.sampled_from(["GM", "X", "LD", "WA", "P'"]), ir=st.sampled_from(["GM1+", "-X5", "P2P3", "A1"])))


def run_objects(case, note):
    from irreptables import SymopTable, KPoint, Irrep
    R = np.array(case["R"]).reshape(3, 3)
    t = np.array(case["t"])
    if case["S"] is None or np.linalg.norm(case["S"]) < 1e-3:
        S = None
    else:
        a, b, c, d = np.array(case["S"]) / np.linalg.norm(case["S"])
        S = np.array([[a + 1j * b, c + 1j * d], [-c + 1j * d, a - 1j * b]])
    line = " ".join(str(x) for x in case["R"]) + "   " + " ".join(repr(x) for x in t)
    if S is not None:
        line += "   " + " ".join(repr(float(abs(x))) for x in S.reshape(-1)) + "  " + \
            " ".join(repr(float(np.angle(x) / np.pi)) for x in S.reshape(-1))
    op = SymopTable(line)
    close(op.R, R, 0, "rotation")
    close(op.t, t, 1e-12, "translation")
    close(op.S, np.eye(2) if S is None else S, 1e-9, "spin rotation")
    op2 = SymopTable(op.str(spinor=True))
    close(op2.R, op.R, 0, "rotation written and parsed")
    close(op2.t, op.t, 1.1e-5, "translation written and parsed")
    close(op2.S, op.S, 5e-5, "spin rotation written and parsed")
    if S is None:
        op3 = SymopTable(op.str(spinor=False))
        close(op3.R, op.R, 0, "rotation written (scalar) and parsed")
        close(op3.t, op.t, 1.1e-5, "translation written (scalar) and parsed")
    isym = sorted(case["isym"])
    k = np.array(case["k"])
    ranges = " ".join(f"{a}-{b}" if b > a else str(a) for a, b in runs(isym))
    kps = [KPoint(line=f"kpoint {case['name']} : {' '.join(map(str, k))} : {x}") for x in (" ".join(map(str, isym)), ranges)]
    kps.append(KPoint(name=case["name"], k=k, isym=isym))
    for kp in kps:
        check(kp.name == case["name"] and list(kp.isym) == isym, "k point {} with operations {}, instead of {} {}",
              kp.name, list(kp.isym), case["name"], isym)
        close(kp.k, k, 1e-12, "coordinates")
        kp2 = KPoint(line=kp.str())
        check(kp == kp2 and kp2 == kp, "k point written and parsed differs from the original")
        check(kp2.name == kp.name and list(kp2.isym) == isym, "k point written and parsed: {} {}", kp2.name, kp2.isym)
        close(kp2.k, kp.k, 1e-12, "coordinates written and parsed")
    for other in (KPoint(name=case["name"] + "x", k=k, isym=isym), KPoint(name=case["name"], k=k + [0, .25, 0], isym=isym),
                  KPoint(name=case["name"], k=k, isym=isym[:-1] + [isym[-1] + 1]), KPoint(name=case["name"], k=k, isym=isym + [isym[-1] + 1])):
        check(not kps[0] == other and not kps[2] == other, "different k points compare equal: {} {}", kps[0].str(), other.str())
    n = len(isym)
    ab = [c[0] for c in case["ch"][:n]]
    ph = [c[1] for c in case["ch"][:n]]
    if case["real"]:
        ch = np.array(ab, float) * np.where(np.array(ph) < 0, -1, 1)
        l = " ".join(map(repr, ch.tolist()))
    else:
        ch = np.array(ab) * np.exp(1j * np.pi * np.array(ph) / 12)
        l = " ".join(map(repr, map(float, ab))) + "  " + " ".join(repr(p / 12) for p in ph)
    irr = Irrep(line=f"{case['ir']} {case['ch'][0][0]:.0f} {l}", k_point=kps[0])
    irr2 = Irrep(line=irr.str(), k_point=kps[1])
    for x in (irr, irr2):
        check(x.name == case["ir"] and x.kpname == case["name"] and x.dim == int(float(f"{case['ch'][0][0]:.0f}")),
              "irrep {} at {} of dimension {}", x.name, x.kpname, x.dim)
        close([x.characters[i] for i in isym], ch, 1e-4, "characters")
        check(x.nsym == n, "number of operations")
    note.nontrivial(n > 1)


def runs(l):
    out = []
    for x in l:
        if out and x == out[-1][1] + 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def st_file():
    return st.fixed_dictionaries(dict(
        sg=st.sampled_from(SGS), spinor=st.booleans(), ranges=st.booleans(), blank=st.lists(ints(0, 60), max_size=5),
        rewrite=st.booleans(), comment=st.booleans(), cut=ints(0, 3), wrong=st.booleans(), sep=st.sampled_from([" ", "  ", "\t"])))


def run_file(case, note):
    """a table file of the user (shipped content in another layout) is parsed faithfully"""
    n, spinor = case["sg"], case["spinor"]
    tab = load(n, spinor)
    T = RawTable(n, spinor)
    L = [f"SG={n}", f" name={T.name} ", f" nsym= {T.nsym}", f" spinor={spinor}"]
    if case["comment"]:
        L.insert(1, "# written by hand")
    L.append("symmetries=")
    sep = case["sep"]
    for i in range(T.nsym):
        if case["rewrite"]:
            L.append(tab.symmetries[i].str(spinor=spinor))
        else:
            w = [str(x) for x in T.R[i].reshape(-1)] + [repr(float(x)) for x in T.t[i]]
            if spinor:
                w += [repr(float(x)) for x in np.abs(T.S[i]).reshape(-1)] + [repr(float(x)) for x in (np.angle(T.S[i]) / np.pi).reshape(-1)]
            L.append(sep.join(w))
        if i in case["blank"]:
            L.append("")
    L.append("")
    keep = T.kpoints[case["cut"]:] if len(T.kpoints) > case["cut"] else T.kpoints
    irr_obj = {(x.kpname, x.name): x for x in tab.irreps}
    for q, (kn, k, isym, irr) in enumerate(keep):
        s = " ".join(f"{a}-{b}" if b > a else str(a) for a, b in runs(isym)) if case["ranges"] else " ".join(map(str, isym))
        L.append(f" kpoint  {kn} : {' '.join(repr(float(x)) for x in k)}  : {s}")
        for nm, d, ch in irr:
            if case["rewrite"]:
                L.append(irr_obj[kn, nm].str())
            else:
                w = [nm, str(d)] + [repr(float(abs(x))) for x in ch] + [repr(float(np.angle(x) / np.pi)) for x in ch]
                L.append(sep.join(w))
        if q in case["blank"]:
            L.append("")
    text = "\n".join(L) + "\n"
    open("table.dat", "w").write(text)
    new = load(n, spinor, name="table.dat")
    T2 = RawTable(n, spinor, text)
    compare(new, T2, n, spinor)
    T.kpoints = keep
    for a, b in zip(new.irreps, [(kn, x) for kn, k, isym, irr in keep for x in irr]):
        close([a.characters[i] for i in sorted(a.characters)], b[1][2], 1e-4, f"characters of {b[1][0]} rewritten")
    if case["wrong"]:
        for num, sp in ((n % 230 + 1, spinor), (n, not spinor)):
            try:
                load(num, sp, name="table.dat")
            except Exception:
                continue
            raise Violation(f"table of SG {n}, spinor={spinor} accepted as one of SG {num}, spinor={sp}")
    note.nontrivial(T.nsym > 1)


TARGETS = [
    Target("tables", run_table, enumerate_=all_tables),
    Target("objects", run_objects, st_op, quick=2000, thorough=60000),
    Target("files", run_file, st_file, quick=300, thorough=8000),
]
