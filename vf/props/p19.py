"""P19: runs are repeatable and independent of verbosity and memory options."""
import os, sys, re, json, hashlib, subprocess
import numpy as np
from ..core import Target, Skip, Violation, quiet
from hypothesis import strategies as st
from ..crystal import Crystal, table
from ..gen import *
from .cli import invoke, argv
from . import p14

RULE = ("Histories of runs of generated calculations (library and command line; any verbosity, wave functions kept or dropped, k points "
        "permuted, options permuted, state of random generators changed, methods called again, arguments reused) in one process; each "
        "result is compared with the first one of the same calculation, inputs are hashed and files listed. Batches of calculations "
        "are also computed in another process, in another order, with another hash seed. "
        "Non-trivial: at least four runs (histories), two calculations (processes).")
ASSUMPTIONS = ["values are compared to 1e-8, printed numbers to the last printed digit (rounding of linear algebra)"]


# ---- everything a calculation gives
def num(x):
    x = np.asarray(x)
    return ["num", list(x.shape), [float(y) for y in x.real.reshape(-1)], [float(y) for y in x.imag.reshape(-1)] if np.iscomplexobj(x) else None]


def digest_k(K, wf):
    d = dict(ik0=K.ik0, k=num(K.k), kref=num(K.k_refUC), E=num(K.Energy_raw), Em=num(K.Energy_mean), deg=num(K.degeneracies),
             lg=[s.ind for s in K.little_group], char=num(K.char), charref=num(K.char_refUC), inv=K.num_bandinvs if whole_parity(K) else None,
             upper=None if np.isnan(K.upper) else num(K.upper), nb=K.num_bands, irreps=[{n: num(x) for n, x in i.items()} if i is not None and i != "None" and hasattr(i, "items") else str(i) for i in (K.irreps if hasattr(K, "irreps") and K.irreps is not None else [])])
    if wf:
        d["WF"] = num(np.asarray(K.WF))
        d["ig"] = num(K.ig[:3])
    return d


def digest(bs, wf=False):
    sg = bs.spacegroup
    return dict(
        name=sg.name, number=sg.number, order=sg.order, refUC=num(sg.refUC), shiftUC=num(sg.shiftUC), ef=num(bs.efermi),
        Lattice=num(bs.Lattice), Ecut=num(bs.Ecut),
        syms=[dict(ind=s.ind, R=num(s.rotation), t=num(s.translation), S=num(s.spinor_rotation), sign=num(s.sign), axis=num(s.axis),
                   angle=num(s.angle), inv=bool(s.inversion)) for s in sg.symmetries],
        gaps=[None if np.isnan(x) else num(x) for x in (bs.gap_direct, bs.gap_indirect)], inv=bs.num_bandinvs if all(whole_parity(K) for K in bs.kpoints) else None,
        kpoints={str(K.ik0): digest_k(K, wf) for K in bs.kpoints})


def same(a, b, what, path=""):
    if isinstance(a, list) and a and a[0] == "num":
        if not (isinstance(b, list) and b and b[0] == "num" and a[1] == b[1]):
            raise Violation(f"{what}: {path} changes from {str(a)[:80]} to {str(b)[:80]}")
        for i in (2, 3):
            if a[i] is None and b[i] is None:
                continue
            x = np.array(a[i] if a[i] is not None else np.zeros(len(a[2])))
            y = np.array(b[i] if b[i] is not None else np.zeros(len(b[2])))
            if x.size and not np.all((np.abs(x - y) <= 1e-8 * np.maximum(1, np.abs(x))) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                raise Violation(f"{what}: {path} changes from {x[:9]} to {y[:9]}")
        return
    if isinstance(a, dict):
        if set(a) != set(b):
            raise Violation(f"{what}: {path} has {sorted(a)}, then {sorted(b)}")
        for k in a:
            same(a[k], b[k], what, path + "/" + k)
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            raise Violation(f"{what}: {path} changes from {str(a)[:80]} to {str(b)[:80]}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, what, f"{path}[{i}]")
    elif a != b:
        raise Violation(f"{what}: {path} changes from {str(a)[:80]} to {str(b)[:80]}")


NUM = re.compile(r"[-+]?\d+\.\d+(?:[eE][-+]?\d+)?")


def same_line(a, b):
    if a == b:
        return True
    if NUM.sub("#", a).split() != NUM.sub("#", b).split():
        return False
    for x, y in zip(NUM.findall(a), NUM.findall(b)):
        d = min(len(z.split("e")[0].split(".")[1]) for z in (x, y))
        if abs(float(x) - float(y)) > 1.01 * 10.0 ** -min(d, 8):
            return False
    return True


def same_text(a, b, what):
    A, B = a.split("\n"), b.split("\n")
    if len(A) != len(B):
        raise Violation(f"{what}: {len(A)} lines, then {len(B)}")
    for x, y in zip(A, B):
        if not same_line(x, y):
            raise Violation(f"{what}: {x!r}, then {y!r}")


def subsequence(a, b, what):
    """lines of the less verbose output appear, in order, in the more verbose one"""
    it = iter([l for l in b.split("\n") if l.strip()])
    for x in (l for l in a.split("\n") if l.strip()):
        if not any(same_line(x, y) for y in it):
            raise Violation(f"{what}: line {x!r} is missing or out of order")


def hashes():
    out = {}
    for r, _, fs in os.walk("."):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


# ---- calculations
def one_st():
    return st.fixed_dictionaries(dict(
        crystal=crystal_st(), spinor=st.booleans(), code=st.sampled_from(CODES), named=st.booleans(),
        ik=st.lists(ints(0, 40), min_size=1, max_size=3), kpts=st.lists(kpt_st(), min_size=1, max_size=3), npw=ints(12, 30), nsets=ints(1, 5),
        esteps=st.lists(ints(0, 4), min_size=1, max_size=5), cseed=ints(0, 10 ** 6), search=st.booleans()))


def related_st(least=0, most=2):
    """calculations that share part of their description, so that anything remembered by too little of it is found"""
    pieces = st.sampled_from([["spinor"], ["spinor", "cseed"], ["search", "named"], ["cseed"], ["metric"], ["metric", "cseed"], ["U"], ["shift"], ["rot"],
                              ["xseed"], ["shuffle"], ["sg"], ["sg", "spinor"], ["code"], ["kpts", "ik"], ["npw"], ["nsets"], ["esteps"], ["all"]])

    def derive(x):
        first, rest = x
        out = [first]
        for keys, o in rest:
            c = dict(out[-1], crystal=dict(out[-1]["crystal"]))
            for k in keys:
                if k in ("spinor", "named", "search"):
                    c[k] = not c[k]
                elif k in c:
                    c[k] = o[k]
                elif k in c["crystal"]:
                    c["crystal"][k] = o["crystal"][k]
            out.append(o if keys == ["all"] else c)
        return out
    return st.tuples(one_st(), st.lists(st.tuples(pieces, one_st()), min_size=least, max_size=most)).map(derive)


class One:
    def __init__(self, case, name):
        self.case, self.name = case, name
        crys = self.crys = Crystal(case["crystal"])
        self.named, self.spinor = case["named"], case["spinor"]
        self.search = case["named"] or case["search"]
        if self.search:
            crys.require_number()
        self.names = None
        if self.named:
            from irrep.spacegroup import SpaceGroup
            T = table(crys.n, self.spinor)
            idx = sorted({i % len(T.kx) for i in case["ik"]})
            B = np.linalg.inv(np.array(SpaceGroup(crys.cell, spinor=self.spinor, search_cell=True).refUC, float))
            ks = [B.T @ T.kx[i] for i in idx]
            self.names = [T.kpoints[i][0] for i in idx]
        else:
            ks = [crys.k_dft(k) for k in case["kpts"]]
        self.calc, _ = p14.build(case, crys, ks)
        os.mkdir(name)
        os.chdir(name)
        try:
            self.base = write(self.calc, case["code"])
            self.inputs = hashes()
        finally:
            os.chdir("..")
        self.nk = len(self.calc.kpts)
        self.first = {}

    def lib(self, v=0, save_wf=True, order=None, bs_out=None):
        """-> digest; runs inside the directory of the calculation"""
        kl = None if order is None else list(order)
        names = None if self.names is None else [self.names[i - 1] for i in (order or range(1, self.nk + 1))]
        kw = dict(self.base, v=v, search_cell=self.search, kplist=kl, save_wf=save_wf)
        before = json.dumps({k: str(x) for k, x in kw.items()}, sort_keys=True)
        n0 = None if names is None else list(names)
        bs = run_bs(kw)
        bs.identify_irreps(names, v=v)
        if json.dumps({k: str(x) for k, x in kw.items()}, sort_keys=True) != before or names != n0:
            raise Violation("arguments of the caller are modified")
        if bs_out is not None:
            bs_out.append((bs, names))
        return digest(bs, wf=save_wf)


def inside(one, f):
    os.chdir(one.name)
    try:
        r = f()
        h = hashes()
    finally:
        os.chdir("..")
    return r, h


def history_st():
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.just("lib"), i=ints(0, 2), v=ints(0, 2), wf=st.booleans(), perm=st.one_of(st.none(), ints(0, 20)))),
        st.fixed_dictionaries(dict(op=st.just("cli"), i=ints(0, 2), v=ints(0, 2), perm=ints(0, 50))),
        st.fixed_dictionaries(dict(op=st.just("again"), i=ints(0, 2), what=st.lists(ints(0, 8), min_size=1, max_size=4))),
        st.fixed_dictionaries(dict(op=st.just("seed"), n=ints(0, 10 ** 6))))
    return st.fixed_dictionaries(dict(calcs=related_st(), ops=st.lists(op, min_size=3, max_size=9)))


DOCUMENTED = {"trace.txt", "irreps.dat", "irreptable-template", "irrep-output.json"}


def history(case, note):
    import random
    ones = [One(c, f"c{i}") for i, c in enumerate(case["calcs"])]
    runs = 0
    kept = {}
    for o in case["ops"]:
        if o["op"] == "seed":
            np.random.seed(o["n"])
            random.seed(o["n"])
            continue
        i = o["i"] % len(ones)
        one = ones[i]
        runs += 1
        if o["op"] == "lib":
            order = None
            if o["perm"] is not None:
                order = [int(x) + 1 for x in np.random.RandomState(o["perm"]).permutation(one.nk)]
                if one.case["code"] == "abinit":
                    order = sorted(order)
            out = []
            d, h = inside(one, lambda: one.lib(o["v"], o["wf"], order, out))
            if h != one.inputs:
                raise Violation(f"files changed or left by the library: {sorted(set(h) ^ set(one.inputs)) or 'contents of input'}")
            what = f"run {runs} (v={o['v']}, save_wf={o['wf']}, k points {order})"
            note("permuted" if order and order != sorted(order) else "same order")
            if not o["wf"]:
                d0 = one.first.get("lib")
                if d0 is None:
                    one.first["lib"] = d0 = inside(one, lambda: one.lib())[0]
                d0 = dict(d0, kpoints={k: {a: b for a, b in x.items() if a not in ("WF", "ig")} for k, x in d0["kpoints"].items()})
            else:
                d0 = one.first.setdefault("lib", d)
                kept.setdefault(i, (out[0], order))
            same(d0, d, what)
            if o["wf"] is False:
                check(all(not hasattr(K, "WF") or K.WF is None for K in out[0][0].kpoints), "wave functions kept with save_wf=False")
        elif o["op"] == "again":
            if i not in kept:
                out = []
                d, _ = inside(one, lambda: one.lib(0, True, None, out))
                one.first.setdefault("lib", d)
                same(one.first["lib"], d, "first run for repeated calls")
                kept[i] = (out[0], None)
            (bs, names), order = kept[i]
            for w in o["what"]:
                def call(w=w):
                    if w == 0:
                        bs.identify_irreps(names)
                    elif w == 1:
                        with quiet() as b:
                            bs.write_characters()
                        return b.getvalue()
                    elif w == 2:
                        return json.dumps(bs.json(names), default=lambda x: x.tolist() if hasattr(x, "tolist") else [x.real, x.imag], sort_keys=True)
                    elif w == 3:
                        with quiet() as b:
                            bs.spacegroup.show()
                        return b.getvalue()
                    elif w == 4:
                        # operations that do not change the k points
                        com = [s.ind for s in bs.spacegroup.symmetries if all(s in K.little_group for K in bs.kpoints)]
                        try:
                            subs = bs.Separate(com[o["i"] % len(com)], degen_thresh=1e-4, groupKramers=True)
                        except RuntimeError:
                            return "error"
                        return {str(np.round(complex(k), 6) + 0): {x: y for x, y in digest(b).items() if x != "gaps"} for k, b in subs.items()}
                    elif w == 5:
                        if bs.num_k > 1:
                            return num(np.asarray([K.overlap(bs.kpoints[0]) for K in bs.kpoints[1:]][0]))
                    elif w == 6:
                        return [[[float(e), num(a)] if not isinstance(a, (list, tuple)) else [float(e)] for e, a, *_ in K.get_rho_spin()] for K in bs.kpoints] if bs.spinor else None
                    elif w == 7:
                        return num(bs.KPOINTSline())
                    else:
                        return digest(bs, True)
                try:
                    r, h = inside(one, call)
                except RuntimeError as e:
                    r, h = "error " + str(e), one.inputs
                note(f"call {w}")
                if h != one.inputs:
                    raise Violation(f"files changed or left by method {w}")
                key = ("again", w, o["i"] if w == 4 else 0, None if order is None else tuple(order))
                r0 = one.first.setdefault(key, r)
                if isinstance(r, str) and isinstance(r0, str) and w != 2:
                    same_text(r0, r, f"method {w} called again")
                elif w == 2:
                    same_text(r0.replace(",", ",\n"), r.replace(",", ",\n"), "json() called again")
                else:
                    same(r0, r, f"method {w} called again")
                same(one.first["lib"], digest(bs, True), f"values after method {w}")
        else:
            args = argv(dict(one.base))
            if one.names:
                args += ["-kpnames", ",".join(one.names)]
            if one.search:
                args += ["-searchcell"]
            args += ["-plotbands"]
            groups, j = [], 0
            while j < len(args):
                two = j + 1 < len(args) and args[j] not in ("-spinor", "-searchcell", "-plotbands")
                groups.append(args[j:j + 1 + two])
                j += 1 + two
            groups += [["-v"]] * o["v"]
            order = np.random.RandomState(o["perm"]).permutation(len(groups))
            av = [x for g in order for x in groups[g]]
            stdout, h = inside(one, lambda: invoke(av))
            files = {}
            os.chdir(one.name)
            for f in sorted(set(h) - set(one.inputs)):
                files[os.path.basename(f)] = open(f).read()
                os.remove(f)
            left = hashes()
            os.chdir("..")
            want = (DOCUMENTED if one.names else DOCUMENTED - {"irreps.dat"}) | {"bands-tognuplot.dat"}
            check(set(files) == want, "files written: {} instead of {}", sorted(files), sorted(want))
            check(left == one.inputs, "input files changed by the command line")
            what = f"run {runs} (command line {av})"
            f0 = one.first.setdefault("files", files)
            for f in f0:
                same_text(f0[f], files[f], f"{what}: {f}")
            o0 = one.first.setdefault(("out", o["v"]), stdout)
            same_text(o0, stdout, what + ": report")
            for v in range(3):
                other = one.first.get(("out", v))
                if other is not None and v < o["v"]:
                    subsequence(other, stdout, f"report with verbosity {o['v']} and {v}")
                elif other is not None and v > o["v"]:
                    subsequence(stdout, other, f"report with verbosity {o['v']} and {v}")
            note("command line")
    note.nontrivial(runs >= 4)


# ---- another process
def proc_st():
    return st.fixed_dictionaries(dict(calcs=related_st(1, 5), order=ints(0, 10 ** 6), hashseed=ints(1, 10 ** 6),
                                      nseed=ints(0, 10 ** 6), v=ints(0, 2)))


def batch(cases, order, v):
    out = {}
    for i in order:
        try:
            one = One(cases[i], f"c{i}-{v}")
        except Skip:
            out[i] = None
            continue
        out[i], _ = inside(one, lambda: one.lib(v=v))
        files = {}
        os.chdir(one.name)
        a = argv(dict(one.base)) + (["-kpnames", ",".join(one.names)] if one.names else []) + (["-searchcell"] if one.search else [])
        txt = invoke(a)
        for f in sorted(DOCUMENTED):
            if os.path.exists(f):
                files[f] = open(f).read()
        os.chdir("..")
        out[i]["files"] = files
        out[i]["text"] = txt
    return out


def processes(case, note):
    n = len(case["calcs"])
    here = batch(case["calcs"], range(n), 0)
    if sum(x is not None for x in here.values()) < 1:
        raise Skip("no calculation in the domain")
    order = [int(x) for x in np.random.RandomState(case["order"]).permutation(n)] if case["order"] % 2 else list(range(n))[::-1]
    os.mkdir("child")
    json.dump(dict(cases=case["calcs"], order=order, v=case["v"], nseed=case["nseed"]), open("child/in.json", "w"))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.props.p19", "in.json"], cwd="child", env=env, capture_output=True, text=True)
    if r.returncode:
        last = (r.stderr.strip().split("\n") or ["?"])[-1]
        if "/irrep/" in r.stderr:
            raise Violation("fails in another process: " + last)
        raise RuntimeError(r.stderr[-2000:])
    there = json.load(open("child/out.json"))
    for i in range(n):
        a, b = here[i], there[str(i)]
        check((a is None) == (b is None), "calculation {} in one process only", i)
        if a is None:
            continue
        a = json.loads(json.dumps(a))
        what = f"calculation {i} in another process (hash seed {case['hashseed']})"
        for f in set(a["files"]) | set(b["files"]):
            same_text(a["files"].get(f, ""), b["files"].get(f, ""), what + ": " + f)
        same_text(a["text"], b["text"], what + ": report")
        for x in (a, b):
            del x["files"], x["text"]
        same(a, b, what)
    note.nontrivial(n >= 2)


def child():
    import random
    d = json.load(open(sys.argv[1]))
    np.random.seed(d["nseed"])
    random.seed(d["nseed"])
    with quiet():
        out = batch(d["cases"], d["order"], d["v"])
    json.dump({str(i): x for i, x in out.items()}, open("out.json", "w"))


TARGETS = [Target("histories", history, history_st, quick=500, thorough=20000),
           Target("processes", processes, proc_st, quick=104, thorough=3000)]

if __name__ == "__main__":
    child()
