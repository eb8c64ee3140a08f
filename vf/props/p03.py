"""P03: the reference cell found (or given) carries the operations onto the tabulated ones."""
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table, CENT, given_cell
from ..gen import *

RULE = ("Space group, metric, primitive cell (products of up to three unimodular matrices, left-handed ones included), origin "
        "and orientation are drawn; atoms are orbits of random points (the group is verified with spglib). Non-trivial: "
        "the cell or origin differs from the tabulated one, so that a transformation has to be found.")
ASSUMPTIONS = ["spglib identifies the space group number of the generated cell (cases where its number differs from the "
               "group the cell was generated with are skipped and counted)"]


def space_group(crys, spinor, **kw):
    from irrep.spacegroup import SpaceGroup
    return SpaceGroup(crys.cell, spinor=spinor, **kw)


def check_matched(sg, crys, T, spinor, cell=True):
    """operations transformed to the reference cell are the tabulated ones, in their order"""
    check(sg.number == crys.n, "space group {} instead of {}", sg.number, crys.n)
    check(len(sg.symmetries) == len(T.R) == sg.order, "{} operations instead of {}", len(sg.symmetries), len(T.R))
    refUC, shift = np.asarray(sg.refUC, float), np.asarray(sg.shiftUC, float)
    inv = np.linalg.inv(refUC)
    for i, sym in enumerate(sg.symmetries):
        check(sym.ind == i + 1, "operation number {} is listed at position {}", sym.ind, i + 1)
        R = inv @ sym.rotation @ refUC
        close(R, T.R[i], 1e-5, f"rotation of operation {i+1} of SG {crys.n} in the reference cell")
        t = inv @ (sym.translation + sym.rotation @ shift - shift)
        d = refUC @ (t - T.tx[i])
        close(d, np.round(d), 2e-3, f"translation of operation {i+1} of SG {crys.n} in the reference cell, minus the "
              "tabulated one, in lattice vectors")
        # what the operation itself reports
        close(sym.rotation_refUC(refUC), R, 1e-5, "rotation_refUC")
        close(sym.translation_refUC(refUC, shift), t, 1e-6, "translation_refUC")
    if not cell:
        return
    # the reference cell has the tabulated centring
    cent = CENT[T.name[0]]
    close(abs(np.linalg.det(refUC)), len(cent), 1e-4, f"volume of the reference cell of SG {crys.n}")
    close(refUC, np.round(refUC), 1e-4, "reference vectors are lattice vectors")
    for c in cent:
        x = refUC @ np.array(c)
        close(x, np.round(x), 1e-4, "centring of the reference cell")


def case_st():
    return st.fixed_dictionaries(dict(crystal=crystal_st(digits=True), spinor=st.booleans()))


def exhaustive(tier):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for n in range(1, 231):
            for sp in (False, True):
                h = (n * 7919 + sp * 1299709 + rep * 5555557 + 31) % 10 ** 6
                out.append(dict(crystal=dict(sg=n, metric=[((h >> i) % 100) / 100 for i in range(6)],
                                             U=[h % 10, (h // 10) % 10][:rep % 3 + h % 2],
                                             shift=[h % 24 / 24, (h // 24) % 24 / 24, (h // 576) % 24 / 24] if h % 3 else [0, 0, 0],
                                             rot=[0, 0, 0] if h % 2 else [.3, -.7, 1.1], xseed=h, shuffle=bool(h % 5 == 0)),
                                spinor=sp))
    return out


def run(case, note):
    crys = Crystal(case["crystal"])
    crys.require_number()
    T = table(crys.n, case["spinor"])
    sg = space_group(crys, case["spinor"], search_cell=True)
    check_matched(sg, crys, T, case["spinor"])
    check(sg.name.replace(" ", "")[0] == T.name[0], "lattice type of {} for SG {}", sg.name, crys.n)
    note.nontrivial(any(case["crystal"]["U"]) or any(case["crystal"]["shift"]) or T.name[0] != "P")
    note("centring " + T.name[0])
    note("left-handed cell" if np.linalg.det(crys.Lattice) < 0 else "right-handed cell")
    note("centrosymmetric" if any((W == -np.eye(3)).all() for W in crys.W) else "no inversion")
    if any(case["crystal"]["shift"]):
        note("shifted origin")


def given_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), search=st.booleans(),
        what=st.sampled_from(["both", "both", "ref", "shift", "none", "other"]),
        lat=st.lists(ints(-2, 2), min_size=3, max_size=3), code=st.sampled_from(["sg", "bs"]), gop=ints(-8, 47)))


def run_given(case, note):
    """cell and origin given by the user are used as given (rows of refUC: reference vectors)"""
    c = dict(case["crystal"])
    what = case["what"]
    if what == "ref":
        c["shift"] = [0, 0, 0]
    if what == "shift":
        c["U"] = []
    crys = Crystal(c)
    crys.require_number()
    T = table(crys.n, case["spinor"])
    if what == "shift" and T.name[0] != "P":
        raise Skip("primitive cell differs from the conventional one")
    # columns: conventional vectors in the basis of the cell
    A_inv, shift = given_cell(crys, T, case["gop"] if what in ("both", "other") else 0)
    shift = shift + (np.linalg.inv(crys.A) @ np.array(case["lat"], float))
    kw, want = {}, [np.eye(3), np.zeros(3)]
    if what in ("both", "ref", "other"):
        want[0] = A_inv if what != "other" else A_inv @ np.diag([1, 1, 2.])
        kw["refUC"] = want[0].T
    if what in ("both", "shift", "other"):
        want[1] = shift
        kw["shiftUC"] = shift
    given = {k: v.copy() for k, v in kw.items()}
    search = case["search"]
    if what == "none":
        search = False
    if what == "other":
        search = False
    if case["code"] == "sg":
        sg = space_group(crys, case["spinor"], search_cell=search, **kw)
    else:
        k = [0.1, 0.2, 0.3]
        calc = build_calc(dict(spinor=case["spinor"], cseed=1, npw=15, kind="rand", sets=1, esteps=[1], e0=0.),
                          crys, kdft=[np.array(k)])
        bs = run_bs(write(calc, "abinit"), search_cell=search, **kw)
        sg = bs.spacegroup
        check(sg.number == crys.n, "space group {} instead of {}", sg.number, crys.n)
    close(sg.refUC, want[0], 1e-9, "reference cell (columns: reference vectors)")
    close(sg.shiftUC, want[1], 1e-9, "origin of the reference cell")
    for k, v in kw.items():
        close(v, given[k], 0, "argument " + k + " modified")
    if what in ("both", "ref", "shift"):
        check_matched(sg, crys, T, case["spinor"], cell=False)
    note("given: " + what)
    note.nontrivial(what != "none")


TARGETS = [
    Target("all-groups", run, enumerate_=exhaustive),
    Target("search", run, case_st, quick=1500, thorough=60000),
    Target("given", run_given, given_st, quick=500, thorough=15000),
]
