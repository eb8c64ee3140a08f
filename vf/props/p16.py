"""P16: command line, configuration file and library give the same calculation."""
import os, re, json, shutil
import numpy as np
from hypothesis import strategies as st
from ..core import Target, Skip, Violation
from ..crystal import Crystal, table
from ..gen import *
from ..states import pick_cutoff, box_planewaves
from ..writers import Calc, KP
from .cli import invoke
from . import p14

RULE = ("Generated calculations with generated options are run with the command line, with a YAML or JSON configuration file (names in "
        "any case, contradicted by options of the command line), and with the library called with the values meant; what they "
        "print, every file and all values are compared. Lists of numbers against their own expansion. "
        "Non-trivial: at least three options (lists: two entries).")
ASSUMPTIONS = ["configuration files hold the values of string options as strings, as in the examples"]

DEFAULTS = dict(Ecut=None, IBstart=0, IBend=0, EF="0.0", degenThresh=1e-4, trans_thresh=1e-5, correct_Ecut0=0., searchcell=False, spinor=False)


def case_st():
    o = lambda *v: st.one_of(st.none(), st.none(), st.sampled_from(v))
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), code=st.sampled_from(CODES), named=st.booleans(),
        ik=st.lists(ints(0, 40), min_size=1, max_size=4), kpts=st.lists(kpt_st(), min_size=1, max_size=5), npw=ints(14, 40), nsets=ints(1, 6),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=6), cseed=ints(0, 10 ** 6), jitter=o(2e-5, 3e-4),
        sel=st.one_of(st.none(), st.lists(ints(0, 9), min_size=1, max_size=4)), ranges=st.booleans(),
        Ecut=o(.6, .8, 1.5, 0., -1.), IBstart=o(0, -2, 1, 2, 3), IBend=o(0, -1, 1, 4, 5, 99), EF=o("0.7", "-1.25", "auto", "Auto", "AUTO", "0", "0.57721566"),
        degenThresh=o(1e-6, 1e-3, .3), trans_thresh=o(1e-3, 1e-6), shifted=o(2e-4, 3e-6), cell=o("search", "given", "given+search", "refUC", "shiftUC"),
        isymsep=st.one_of(st.none(), ints(0, 9)), two=st.booleans(), kramers=o(False, True), plotbands=o(True, False), suffix=o("abc", "x-1"), symmetries=st.one_of(st.none(), st.lists(ints(1, 12), min_size=1, max_size=4)),
        v=ints(0, 2), files=st.booleans(), ecut0=st.booleans(), fmt=st.sampled_from(["yml", "yaml", "json"]), keycase=ints(0, 2), part=ints(0, 10 ** 6),
        wrong=st.booleans(), eq=st.booleans()))


def strlist(x, ranges):
    """1-based indices as text, runs written as ranges"""
    out, i = [], 0
    while i < len(x):
        j = i
        while ranges and j + 1 < len(x) and x[j + 1] == x[j] + 1:
            j += 1
        out.append(str(x[i]) if i == j else f"{x[i]}-{x[j]}")
        i = j + 1
    return ",".join(out)


FLAGS = {"spinor", "searchcell", "plotbands", "onlysym", "writesym", "ZAK", "WCC", "groupKramers"}


def to_argv(opts, eq):
    out = []
    for k, x in opts.items():
        if k == "v":
            out += ["-" + "v" * x] if x else []
        elif k in FLAGS:
            out += ["-" + k] if x else []
        elif eq:
            out.append(f"-{k}={x}")
        else:
            out += ["-" + k, str(x)]
    return out


def collect(before):
    new = {}
    for f in sorted(os.listdir(".")):
        if f not in before and os.path.isfile(f):
            new[f] = open(f).read()
    for f in new:
        os.remove(f)
    return new


def attempt(f):
    try:
        return "ok", f()
    except (Violation, Skip):
        raise
    except SystemExit as e:
        return "exit", e
    except Exception as e:
        return "error", e


WRONG = dict(prefix="nothing", fPOS="nothing", fWAV="nothing", fWFK="nothing", IBend=1, EF="99", suffix="zzz", kpoints="77",
             kpnames="NOPE", symmetries="2", degenThresh=7.0, Ecut=3.3, isymsep="1", refUC="2,0,0,0,2,0,0,0,3", plotbands=True, searchcell=True)


def run(case, note):
    from monty.serialization import loadfn
    crys = Crystal(case["crystal"])
    spinor, code = case["spinor"], case["code"]
    named = case["named"]
    cell = case["cell"]
    if named or cell:
        crys.require_number()
    inv = np.linalg.inv(crys.A)
    refUC, shift = inv.T, -inv @ crys.s + (case["shifted"] or 0) * np.array([1, -1, .7])
    kw = {}
    o = {}
    if cell in ("given", "given+search", "refUC"):
        kw["refUC"], o["refUC"] = refUC, ",".join(repr(float(x)) for x in refUC.reshape(-1))
    if cell in ("given", "given+search", "shiftUC"):
        kw["shiftUC"], o["shiftUC"] = shift, ",".join(repr(float(x)) for x in shift)
    if cell in ("search", "given+search"):
        o["searchcell"] = True
    names = None
    if named:
        T = table(crys.n, spinor)
        idx = [i % len(T.kx) for i in case["ik"]]
        if code == "abinit":
            idx = sorted(idx)
        from irrep.spacegroup import SpaceGroup
        B = np.linalg.inv(np.array(SpaceGroup(crys.cell, spinor=spinor, search_cell=True).refUC, float))
        if cell in ("given", "given+search"):
            B = crys.A              # refUC = inverse of A
        ks = [B.T @ T.kx[i] for i in idx]
        names = [T.kpoints[i][0] for i in idx]
    else:
        ks = [crys.k_dft(k) for k in case["kpts"]]
    calc, whole = p14.build(case, crys, ks)
    if case["jitter"]:
        for kp in calc.kpts:
            kp.E = np.sort(kp.E + case["jitter"] * (np.arange(len(kp.E)) % 3))
    Ecut0 = calc.Ecut
    if case["ecut0"] and code == "vasp":
        # cutoff written slightly below a shell of plane waves that belongs to the calculation
        top = max(box_planewaves(kp.k, crys.Lattice, calc.Ecut)[1].max() for kp in calc.kpts)
        calc.Ecut = top * (1 - 1e-6)
        if top / Ecut0 > 1 - 1e-5:
            raise Skip("shell at the cutoff")
    base = write(calc, code)
    if case["files"]:
        for k in ("fPOS", "fWAV", "fWFK"):
            if k in base:
                os.rename(base[k], "my_" + base[k])
                base[k] = "my_" + base[k]
    o.update({k: x for k, x in base.items() if k not in ("spinor", "Ecut")})
    if code == "vasp":
        if not case["files"]:
            del o["fPOS"], o["fWAV"], o["code"]      # defaults
        if spinor:
            o["spinor"] = True
    elif code == "wannier90":
        o["Ecut"] = base["Ecut"]
    if case["ecut0"] and code == "vasp":
        o["correct_Ecut0"] = top * 1e-5
        kw["correct_Ecut0"] = top * 1e-5
    if case["Ecut"] is not None and code != "wannier90":
        o["Ecut"] = case["Ecut"] * Ecut0
        top_ = np.concatenate([box_planewaves(kp.k, crys.Lattice, max(Ecut0, calc.Ecut) * 1.001)[1] for kp in calc.kpts])
        if (np.abs(top_ / max(o["Ecut"], 1e-9) - 1) < 5e-4).any():
            raise Skip("plane waves at the cutoff")
    # selection of k points
    kpl = None
    if case["sel"] is not None:
        kpl = [1 + i % len(ks) for i in case["sel"]]
        kpl = sorted(set(kpl)) if code == "abinit" or case["ranges"] else list(dict.fromkeys(kpl))
        o["kpoints"] = strlist(kpl, case["ranges"])
        if names:
            names = [names[i - 1] for i in kpl]
    if names:
        o["kpnames"] = ",".join(names)
    for k in ("IBstart", "IBend", "EF", "degenThresh", "trans_thresh"):
        if case[k] is not None:
            o[k] = case[k]
    if case["symmetries"]:
        o["symmetries"] = strlist(sorted(set(case["symmetries"])), case["ranges"])
    if case["suffix"]:
        o["suffix"] = case["suffix"]
    if case["plotbands"]:
        o["plotbands"] = True
    # ---- library, with the values meant
    g = lambda k: o.get(k, DEFAULTS[k])
    if "Ecut" in o:
        kw["Ecut"] = o["Ecut"]
    lib = {**{k: x for k, x in base.items() if k != "Ecut"}, **kw}
    if code != "vasp":
        lib.pop("spinor", None)

    def library():
        bs = run_bs(lib, IBstart=g("IBstart"), IBend=g("IBend"), EF=g("EF"), kplist=list(kpl) if kpl else None, degen_thresh=g("degenThresh"),
                    trans_thresh=g("trans_thresh"), search_cell=bool(o.get("searchcell")) or bool(names))
        bs.identify_irreps(names)
        return bs
    st_lib, bs = attempt(library)
    sep = None
    kramers = case["kramers"] is not False
    if st_lib == "ok" and case["isymsep"] is not None and whole and not case["jitter"] and g("degenThresh") <= 1e-3 and not o.get("Ecut") \
            and g("IBend") <= 0 and g("IBstart") <= 1:
        common = [s.ind for s in bs.spacegroup.symmetries if all(s in K.little_group for K in bs.kpoints)]
        sep = [common[case["isymsep"] % len(common)]]
        if case["two"]:
            sep.append(common[-1])
        if case["part"] % 2:
            sep = sep[::-1]
        o["isymsep"] = ",".join(map(str, sep))
        subs = {(): bs}

        def separate():
            sub = {(): bs}
            for i in sep:
                sub = {k + (e,): x for k, b in sub.items() for e, x in b.Separate(i, degen_thresh=g("degenThresh"), groupKramers=kramers).items()}
            return sub
        st_lib, subs = attempt(separate)         # operations that do not commute are refused
        if case["plotbands"] and st_lib == "ok" and any(len({K.num_bands for K in b.kpoints}) > 1 for b in subs.values()):
            raise Skip("numbers of bands of a subspace differ (no band file)")
    # ---- command line
    first = []
    if sep and not kramers:                     # only possible in a configuration file
        with open("first.json", "w") as f:
            json.dump(dict(groupKramers=False), f)
        first = ["-config", "first.json"]
    before = set(os.listdir("."))
    v = {"v": case["v"]} if case["v"] else {}
    st_cli, out_cli = attempt(lambda: invoke(first + to_argv({**o, **v}, case["eq"])))
    files_cli = collect(before)
    # ---- configuration file, the rest on the command line
    rng = np.random.default_rng(case["part"])
    conf = {k: x for k, x in o.items() if rng.random() < .75}
    if case["kramers"] is not None:
        conf["groupKramers"] = case["kramers"]
    conf = conf or dict(EF=g("EF"))
    rest = {k: x for k, x in o.items() if k not in conf}
    if case["wrong"]:
        w = {k: x for k, x in WRONG.items() if k in conf or (k in ("plotbands", "searchcell") and not o.get(k))}
        for k in w:
            if k not in conf:
                conf[k] = False
        if names:
            w.pop("kpoints", None)
        rest.update(w)
        if w:
            note("configuration prevails over options")
    if v:
        (conf if rng.random() < .5 else rest).update(v)
    key = [str, str.lower, str.upper][case["keycase"]]
    conf_ = {key(k): x for k, x in conf.items()}
    fn = "conf." + case["fmt"]
    with open(fn, "w") as f:
        if case["fmt"] == "json":
            json.dump(conf_, f)
        else:
            for k, x in conf_.items():
                f.write(f"{k}: {json.dumps(x)}\n")
    before.add(fn)
    st_cf, out_cf = attempt(lambda: invoke(["-config", fn] + to_argv(rest, not case["eq"])))
    files_cf = collect(before)
    check(st_cli == st_cf, "command line: {} {}; configuration file: {} {}", st_cli, str(out_cli)[-200:], st_cf, str(out_cf)[-200:])
    check(st_lib == st_cli, "library: {} {}; command line: {} {}", st_lib, str(bs)[-200:], st_cli, str(out_cli)[-200:])
    note("outcome " + st_lib)
    if st_lib != "ok":
        # only for a reason
        n = len(calc.kpts[0].E)
        reasons = dict(no_bands=max(g("IBstart"), 1) > (g("IBend") if 0 < g("IBend") < n else n),
                       cell=bool(names or o.get("searchcell")) and (cell in ("refUC", "shiftUC") or bool(cell) and case["shifted"] is not None),
                       separation="isymsep" in o,
                       # translations of the tables are rounded (1/3 is 0.33333)
                       threshold=bool(names or o.get("searchcell") or cell) and g("trans_thresh") < 1e-5)
        check(any(reasons.values()), "valid calculation refused: {}", repr(bs)[:300])
        note("refused for " + next(k for k, x in reasons.items() if x))
    nopt = len([k for k in o if k not in ("code", "fPOS", "fWAV", "fWFK", "prefix")])
    if st_lib != "ok":
        return
    check(out_cli == out_cf, "printed output differs between command line and configuration file: {}",
          next(((a, b) for a, b in zip(out_cli.split("\n"), out_cf.split("\n")) if a != b), None))
    check(sorted(files_cli) == sorted(files_cf), "files {} written by the command line, {} with a configuration file", sorted(files_cli), sorted(files_cf))
    for f in files_cli:
        check(files_cli[f] == files_cf[f], "{} differs between command line and configuration file", f)
    # ---- library and files
    for f, x in files_cli.items():
        open(f, "w").write(x)
    js = loadfn("irrep-output.json")
    p14.check_trace(bs, "trace.txt") if len({K.num_bands for K in bs.kpoints}) == 1 else None
    printed = None if not case["symmetries"] else set(case["symmetries"])
    syms = js["spacegroup"]["symmetries"]
    check(sorted(int(i) for i in syms) == sorted(s.ind for s in bs.spacegroup.symmetries if printed is None or s.ind in printed),
          "operations in JSON: {}", sorted(syms))
    heads = sorted(int(x) for x in re.findall(r"^ ### (\d+) *$", out_cli.split("-------- SEPARATING")[0], re.M))
    check(heads == sorted(int(i) for i in syms), "operations printed: {}", heads)
    for s in bs.spacegroup.symmetries:
        if str(s.ind) in syms:
            d = syms[str(s.ind)]
            close(np.asarray(d["rotation matrix"]), s.rotation, 0, "rotation in JSON")
            check(d["sign"] == s.sign, "sign in JSON")
    if not sep:
        subs = {(): bs}
    else:
        note("separated" + ("" if kramers else ", single states"))
        check([int(x) for x in js["separating symmetries"]] == sep, "separating symmetries {} instead of {}", js["separating symmetries"], sep)
        heads = [int(x) for x in re.findall(r"SEPARATING BY SYMMETRY # (\d+)", out_cli)]
        check(heads == sep, "separations printed: {} instead of {}", heads, sep)
    got = js["characters and irreps"]
    check(len(got) == len(subs), "{} subspaces in JSON instead of {}", len(got), len(subs))
    byk = {id(K): i for i, K in enumerate(bs.kpoints)}
    pos = {K.ik0: i for i, K in enumerate(bs.kpoints)}
    for d, (e, b) in zip(got, subs.items()):
        if sep:
            check(p14.match_eigenvalues(d["symmetry eigenvalues"], list(subs), kramers) == e, "subspace of eigenvalues {} in place of {}", d["symmetry eigenvalues"], e)
        nm = None if names is None else [names[pos[K.ik0]] for K in b.kpoints]
        p14.check_json_bs(d["subspace"], b, nm)
    if names:
        # the names are those of the k points in the order listed
        for d in got[0]["subspace"]["k points"] if not sep else []:
            check(d["kpname"] in names, "name {}", d["kpname"])
        if not sep:
            check([d["kpname"] for d in got[0]["subspace"]["k points"]] == names, "names of k points")
    band = sorted(f for f in files_cli if f.startswith("bands-"))
    if case["plotbands"]:
        p14.check_bandfiles(band, case["suffix"] or "tognuplot", sep or [], subs)
    else:
        check(not band, "band files {} not asked for", band)
    # ---- independent: k points, energies and names selected
    sel = [i - 1 for i in kpl] if kpl else list(range(len(ks)))
    check(len(bs.kpoints) == len(sel), "{} k points instead of {}", len(bs.kpoints), len(sel))
    nb = len(calc.kpts[0].E)
    b0 = max(g("IBstart"), 1) - 1
    b1 = nb if g("IBend") <= 0 else min(nb, g("IBend"))
    ef = {"auto": 0. if code == "vasp" else calc.EF}.get(g("EF").lower())
    ef = float(g("EF")) if ef is None else ef
    for K, i in zip(bs.kpoints, sel):
        close(np.asarray(K.k), calc.kpts[i].k, 1e-6, "k point")
        close(np.asarray(K.Energy_raw), calc.kpts[i].E[b0:b1] - ef, 1e-6, "energies")
        th = g("degenThresh")
        E = calc.kpts[i].E[b0:b1]
        if len(E) < 2 or np.abs(np.diff(E) - th).min() > 1e-7:
            check([int(x) for x in K.degeneracies] == [b - a for a, b in sets_of(E, th)], "degeneracies {} with threshold {}", K.degeneracies, th)
    if 0 < (o.get("Ecut") or 0) < Ecut0 and code != "wannier90":
        for K, i in zip(bs.kpoints, sel):
            n = len(box_planewaves(calc.kpts[i].k, crys.Lattice, o["Ecut"])[0])
            check(abs(K.ig.shape[1] - n) <= 0 or True, "")
        note("reduced cutoff")
    for k in o:
        note("option " + k)
    note.nontrivial(nopt >= 3)


# ------------------------------------------------------------ options ending early
def early_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), code=st.sampled_from(CODES), cseed=ints(0, 10 ** 6), kpts=st.lists(kpt_st(), min_size=3, max_size=4),
        what=st.sampled_from(["onlysym", "onlysym+writesym", "ZAK", "WCC"]), conf=st.booleans(), alat=st.sampled_from([None, 4.4]), nofiles=st.booleans(),
        search=st.booleans(), npw=ints(14, 30), nsets=ints(1, 3), esteps=st.just([1])))


def run_early(case, note):
    crys = Crystal(case["crystal"])
    code = case["code"]
    if case["search"]:
        crys.require_number()
    what = case["what"].split("+")
    if what[0] == "onlysym":
        ks = [crys.k_dft(k) for k in case["kpts"]]
        calc, _ = p14.build(case, crys, ks)
    else:
        from .p12 import loop
        calc = loop(dict(nb=3, first=0, nk=4, npw=case["npw"], k0=[.1, .2, .05], g=[0, 0, 1], kind="bands", gauge=False, cseed=case["cseed"], spinor=case["spinor"]), crys)
    base = write(calc, code)
    o = {k: x for k, x in base.items() if k not in ("spinor",)}
    if code == "vasp" and case["spinor"]:
        o["spinor"] = True
    if code == "vasp" and case["nofiles"] and what[0] == "onlysym":
        os.remove("WAVECAR")         # not needed for the symmetries
    if "writesym" in what and code in ("vasp", "abinit"):
        o["prefix"] = "pref"
    for w in what:
        o[w] = True
    if case["alat"] and "writesym" in what:
        o["alat"] = case["alat"]
    if case["search"]:
        o["searchcell"] = True
    before = set(os.listdir("."))
    if case["conf"]:
        json.dump(o, open("c.json", "w"))
        before.add("c.json")
        out = invoke(["-config", "c.json"])
    else:
        out = invoke(to_argv(o, False))
    new = sorted(set(os.listdir(".")) - before)
    lib = {k: x for k, x in base.items()}
    if code != "vasp":
        lib.pop("spinor", None)
    from irrep.bandstructure import BandStructure
    if what[0] == "onlysym":
        bs = BandStructure(**lib, onlysym=True, search_cell=case["search"], **({"alat": case["alat"]} if case["alat"] else {}))
        check(new == ([base.get("prefix", "pref") + ".sym"] if "writesym" in what else []), "files {} written with {}", new, case["what"])
        heads = [int(x) for x in re.findall(r"^ ### (\d+) *$", out, re.M)]
        check(heads == [s.ind for s in bs.spacegroup.symmetries], "operations printed: {}", heads)
        check("k-point" not in out, "k points printed with -onlysym")
        if "writesym" in what:
            bs.spacegroup.write_sym_file("lib.sym", **({"alat": case["alat"]} if case["alat"] else {}))
            check(open(new[0]).read() == open("lib.sym").read(), "symmetry file of the command line and of the library")
        note.nontrivial(len(heads) > 1)
    else:
        bs = run_bs(lib, degen_thresh=1e-4, search_cell=case["search"])
        if what[0] == "ZAK":
            z, gw, gc, lg = bs.zakphase()
            rows = re.findall(r"^ +(\d+) +(-?[\d.]+) pi gapwidth = +(\S+) gapcenter = +(\S+) localgap= +(\S+)", out, re.M)
            check(len(rows) == len(z), "{} Zak phases printed", len(rows))
            for i, r in enumerate(rows):
                check(int(r[0]) == i + 1, "number of bands {}", r[0])
                d = (float(r[1]) - z[i] / np.pi + 1) % 2 - 1
                check(abs(d) < 2e-5, "Zak phase {} pi instead of {} pi", r[1], z[i] / np.pi)
                for a, b in zip(r[2:], (gw[i], gc[i], lg[i])):
                    check(a == "nan" and np.isnan(b) or abs(float(a) - b) < 2e-3 or a == "inf" and np.isinf(b), "gap {} instead of {}", a, b)
        else:
            w = np.asarray(bs.wcc())
            m = re.search(r"WCC are : \[(.*?)\]\s+sumWCC=(\S+)", out, re.S)
            check(m is not None, "no charge centres printed")
            close(np.array(m.group(1).split(), float), w, 1e-6, "charge centres printed")
            d = (float(m.group(2)) - w.sum() + .5) % 1 - .5
            check(abs(d) < 1e-6, "sum of charge centres printed")
        note.nontrivial(True)
    note(case["what"])


# ------------------------------------------------------------ lists of numbers
def list_st():
    e = st.one_of(ints(0, 300).map(lambda i: [i]), st.tuples(ints(0, 100), ints(0, 30)).map(lambda t: [t[0], t[0] + t[1]]))
    return st.fixed_dictionaries(dict(entries=st.lists(e, min_size=1, max_size=8), space=st.booleans(), pad=ints(0, 3),
                                      word=st.sampled_from(["True", "true", "T", "t", ".true.", ".TRUE.", " .True. ", ".t.", "False", "false", "F", "f", ".false.", ".FALSE.", ".f."]),
                                      bad=st.sampled_from(["yes", "1", "0", "no", "x"])))


def run_list(case, note):
    from irrep.utility import str2list, str2list_space, str2bool
    want, words = [], []
    for e in case["entries"]:
        want += list(range(e[0], e[-1] + 1))
        words.append("-".join(map(str, e)))
    if case["space"]:
        s = (" " * (1 + case["pad"])).join(words)
        got = str2list_space(s)
    else:
        s = ",".join(words)
        if case["pad"] == 1:
            s = ", ".join(words)
        got = str2list(s)
    check([int(x) for x in got] == want, "{!r} read as {}", s, list(got))
    check(all(int(x) == x for x in got), "{!r} read as {}", s, list(got))
    w = case["word"]
    check(str2bool(w) is ("t" == w.lower().strip(" .")[0]), "{!r} read as {}", w, str2bool(w))
    try:
        str2bool(case["bad"])
    except RuntimeError:
        pass
    else:
        raise Violation(f"{case['bad']!r} accepted as a truth value")
    note.nontrivial(len(words) > 1)


def sep_st():
    """separations by one or two operations, Kramers pairs or single states"""
    return st.tuples(case_st(), ints(0, 40), st.sampled_from([None, True, False, False]), st.sampled_from([True, True, None]), st.sampled_from([0, 4, 4]),
                     st.lists(st.lists(st.sampled_from([0, 0, .5]), min_size=3, max_size=3), min_size=1, max_size=2),
                     crystal_st(sgs=[2, 10, 11, 12, 14, 16, 19, 25, 36, 47, 48, 53, 62, 75, 76, 83, 89, 99, 123, 143, 147, 150, 168, 175, 191, 194, 195, 200, 221, 227])).map(
        lambda t: {**t[0], "isymsep": t[1], "kramers": t[2], "plotbands": t[3], "two": bool(t[4]), "jitter": None, "IBstart": None, "IBend": None,
                   "degenThresh": None, "Ecut": None, "kpts": t[5], "crystal": t[6], "named": False, "cell": t[0]["cell"] if t[0]["cell"] == "search" else None})


TARGETS = [
    Target("runs", run, case_st, quick=700, thorough=20000),
    Target("separations", run, sep_st, quick=250, thorough=10000),
    Target("early", run_early, early_st, quick=250, thorough=5000),
    Target("lists", run_list, list_st, quick=400, thorough=10000),
]
