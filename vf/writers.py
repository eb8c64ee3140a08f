"""Writers of the input files of the four codes, written from the format descriptions."""
import os
import struct
import numpy as np

BOHR = 0.529177210903
HARTREE = 2 * 13.605693


class KP:
    def __init__(self, k, G, C, E):
        self.k, self.G, self.C, self.E = np.array(k, float), np.array(G, int), np.array(C, complex), np.array(E, float)


class Calc:
    """lattice, atoms, cutoff (eV), k points; one description for all codes"""

    def __init__(self, Lattice, positions, typat, Ecut, kpts, spinor, EF=0.0):
        self.Lattice, self.positions, self.typat = np.array(Lattice), np.array(positions), list(typat)
        self.Ecut, self.kpts, self.spinor, self.EF = Ecut, kpts, spinor, EF


def fftorder(G):
    """order of plane waves in WAVECAR: third index slowest, 0,1,..,-2,-1 in each"""
    G = np.asarray(G)
    key = np.where(G >= 0, G, G + 10 ** 6)
    return np.lexsort((key[:, 0], key[:, 1], key[:, 2]))


# ---------------------------------------------------------------- VASP
def write_poscar(path, Lattice, positions, typat, scale=1.0, cartesian=False, selective=False,
                 names=True, comment=False, velocities=False, case=0, digits=16):
    order = np.argsort(np.array(typat), kind="stable")
    types = sorted(set(typat))
    f = "{:.%df}" % digits
    lines = ["generated"]
    if scale < 0:                    # minus the volume; vectors in arbitrary units
        unit = 0.37
        lines.append(repr(-float(abs(np.linalg.det(Lattice)))))
    else:
        unit = scale
        lines.append(repr(float(scale)))
    for v in np.array(Lattice) / unit:
        lines.append("  ".join(f.format(x) for x in v))
    if names:
        lines.append("  ".join(["Na", "Cl", "Bi", "Se", "O"][(t - 1) % 5] for t in types))
    lines.append("  ".join(str(list(typat).count(t)) for t in types))
    if selective:
        lines.append(["Selective dynamics", "selective", "S"][case % 3])
    lines.append((["Cartesian", "cartesian", "C"] if cartesian else ["Direct", "direct", "D"])[case % 3])
    X = np.array(positions)[order]
    if cartesian:
        X = X @ np.array(Lattice) / unit
    for x in X:
        l = "  ".join(f.format(y) for y in x)
        if selective:
            l += "  T F T"
        if comment:
            l += "  ! atom"
        lines.append(("  " if case % 2 else "") + l)
    if velocities:
        lines.append("")
        for x in X:
            lines.append("  0.0 0.0 0.0")
    open(path, "w").write("\n".join(lines) + "\n")
    return [list(typat)[i] for i in order], np.array(positions)[order]


def write_wavecar(path, calc, ispin=1, prec=45200, lattice=None, pad=0, shuffle=None):
    nk = len(calc.kpts)
    nb = len(calc.kpts[0].E)
    mx = max(kp.C.shape[1] for kp in calc.kpts)
    rl = max(8 * mx, 8 * (4 + 3 * nb), 8 * 13) + 8 * pad
    L = np.array(calc.Lattice if lattice is None else lattice)

    def rec(data):
        b = data.tobytes()
        assert len(b) <= rl
        return b + b"\0" * (rl - len(b))

    with open(path, "wb") as f:
        f.write(rec(np.array([rl, ispin, prec], float)))
        f.write(rec(np.concatenate([[nk, nb, calc.Ecut], L.reshape(-1), [calc.EF]])))
        for kp in calc.kpts:
            o = fftorder(kp.G)
            n = len(kp.G)
            sel = np.concatenate([o, o + n]) if calc.spinor else o
            head = [kp.C.shape[1], *kp.k]
            for e in kp.E:
                head += [e, 0.0, 1.0]
            f.write(rec(np.array(head, float)))
            for c in kp.C[:, sel]:
                f.write(rec(c.astype(np.complex64)))


def vasp(calc, **kw):
    typ, pos = write_poscar("POSCAR", calc.Lattice, calc.positions, calc.typat, **kw)
    write_wavecar("WAVECAR", calc)
    return dict(code="vasp", fPOS="POSCAR", fWAV="WAVECAR", spinor=calc.spinor)


# ---------------------------------------------------------------- Fortran records
def frec(f, *parts, endian="<"):
    b = b"".join(p if isinstance(p, bytes) else
                 np.ascontiguousarray(p).astype(np.asarray(p).dtype.newbyteorder(endian)).tobytes() for p in parts)
    m = struct.pack(endian + "i", len(b))
    f.write(m + b + m)


def i4(*x):
    return np.array(x, dtype=np.int32)


def f8(x):
    return np.array(x, dtype=np.float64).reshape(-1)


def cplx(c):
    out = np.empty(2 * len(c))
    out[0::2], out[1::2] = c.real, c.imag
    return out


# ---------------------------------------------------------------- Abinit
def write_wfk(path, calc, version="8.10.3", order=None, headform=80, nsppol=1, istwfk=None,
              occopt=1, usepaw=0, nsym=1, endian="<", npsp=None, nshiftk=1):
    """order: per-k permutation of plane waves (callable n -> indices)"""
    nk, nat = len(calc.kpts), len(calc.typat)
    ntyp = len(set(calc.typat))
    npsp = npsp or ntyp
    nband = [len(kp.E) for kp in calc.kpts] * nsppol
    npw = [len(kp.G) for kp in calc.kpts]
    nsp = 2 if calc.spinor else 1
    istwfk = istwfk or [1] * nk
    rpr = np.array(calc.Lattice) / BOHR
    with open(path, "wb") as f:
        r = lambda *p: frec(f, *p, endian=endian)
        w = 6 if int(version.split(".")[0]) < 9 else 8
        r(version.ljust(w).encode()[:w], i4(headform, 2))
        r(i4(sum(nband), 20240101, 0, 1, nat, 8, 8, 8, nk, 1, nsp, nsppol, nsym, npsp, ntyp, occopt, 0, usepaw),
          f8([calc.Ecut / HARTREE, 0, 0, calc.Ecut / HARTREE, 0, 0, 0]), f8(rpr), f8([0, 0, 0]),
          i4(0, 1, nshiftk, max(nband)))
        r(i4(*istwfk), i4(*nband), i4(*npw), i4(*([0] * npsp)), i4(*([1] * nsym)),
          i4(*(list(np.eye(3, dtype=int).reshape(-1)) * nsym)), i4(*calc.typat),
          f8([kp.k for kp in calc.kpts]), f8(np.ones(sum(nband))), f8(np.zeros(3 * nsym)),
          f8(np.arange(1, ntyp + 1)), f8(np.ones(nk) / nk))
        r(f8([1e-8]), f8(calc.positions), f8([-1.0, calc.EF / HARTREE]), f8(np.ones(ntyp)))
        r(i4(1, 0), f8([8.0, 0.0]), i4(0), i4(*([1] + [0] * 17)), f8(np.zeros(3)), f8(np.zeros(3 * nshiftk)))
        for _ in range(npsp):
            r(b"title".ljust(132), f8([1.0, 1.0]), i4(0, 0, 0, 0, 0), b"md5".ljust(32))
        if usepaw:
            r(i4(1))
            r(i4(1))
        for kp in calc.kpts * nsppol:
            n = len(kp.G)
            o = np.arange(n) if order is None else order(n)
            sel = np.concatenate([o, o + n]) if calc.spinor else o
            r(i4(n, nsp, len(kp.E)))
            r(i4(*kp.G[o].reshape(-1)))
            r(f8(np.concatenate([kp.E / HARTREE, np.ones(len(kp.E))])))
            for c in kp.C[:, sel]:
                r(cplx(c))


def abinit(calc, **kw):
    write_wfk("gen_WFK", calc, **kw)
    return dict(code="abinit", fWFK="gen_WFK")


# ---------------------------------------------------------------- Quantum Espresso
def write_qe(prefix, calc, alat=None, channels=None, order=None, upper=False, fermi=True, species=None, full=True, initial=None):
    """channels: None or (calc_up, calc_dw); full: with the rest of the file as written by the code;
    initial: (lattice, positions) given in the input, that changed before the wave functions were written"""
    d = prefix + ".save"
    os.makedirs(d, exist_ok=True)
    Lb = np.array(calc.Lattice) / BOHR
    alat = alat or float(np.linalg.norm(Lb[0]))
    ntyp = len(set(calc.typat))
    names = species or ["X%d" % (i + 1) for i in range(max(calc.typat))]
    x = ['<?xml version="1.0" encoding="UTF-8"?>', '<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0">',
         '<input>', f'<atomic_species ntyp="{len(names)}">']
    spec = [f'<species name="{n}"><mass>1.0</mass><pseudo_file>{n}.upf</pseudo_file></species>' for n in names] + ['</atomic_species>']
    x += spec

    def structure(Lb, pos, alat):
        s = [f'<atomic_structure nat="{len(calc.typat)}" alat="{alat!r}">', '<atomic_positions>']
        for i, (t, p) in enumerate(zip(calc.typat, np.array(pos) @ Lb)):
            s.append(f'<atom name="{names[t-1]}" index="{i+1}">' + " ".join(f"{y:.16e}" for y in p) + '</atom>')
        s += ['</atomic_positions>', '<cell>']
        for i in range(3):
            s.append(f'<a{i+1}>' + " ".join(f"{y:.16e}" for y in Lb[i]) + f'</a{i+1}>')
        return s + ['</cell>', '</atomic_structure>']
    x += structure(Lb, calc.positions, alat) if initial is None else structure(np.array(initial[0]) / BOHR, initial[1], alat)
    tf = "true" if calc.spinor else "false"
    lsda = "false" if channels is None else "true"
    basis = f'<gamma_only>false</gamma_only><ecutwfc>{calc.Ecut / HARTREE:.15e}</ecutwfc><ecutrho>{4.5 * calc.Ecut / HARTREE:.15e}</ecutrho>'
    if full:
        x += [f'<spin><lsda>{lsda}</lsda><noncolin>{tf}</noncolin><spinorbit>{tf}</spinorbit></spin>',
              '<bands><nbnd>77</nbnd><smearing degauss="1.0e-4">mv</smearing><tot_charge>0.0e0</tot_charge></bands>']
    x += [f'<basis>{basis}</basis>']
    if full:
        x += ['<k_points_IBZ><nk>3</nk>', '<k_point weight="1.0">0.3e0 0.2e0 0.1e0</k_point>' * 3, '</k_points_IBZ>']
    x += ['</input>', '<output>']
    if full or initial is not None:
        x += [f'<atomic_species ntyp="{len(names)}" pseudo_dir="pseudo/">'] + spec + structure(Lb, calc.positions, 1.889726132886)
    if full:
        x += [f'<basis_set>{basis}<npwx>999</npwx></basis_set>',
              f'<magnetization><lsda>{lsda}</lsda><noncolin>{tf}</noncolin><spinorbit>{tf}</spinorbit></magnetization>',
              '<total_energy><etot>-1.0e0</etot></total_energy>']
    x += ['<band_structure>', f'<lsda>{lsda}</lsda>' if full else '', f'<noncolin>{tf}</noncolin>']
    chans = [("", calc)] if channels is None else [("up", channels[0]), ("dw", channels[1])]
    nb = [max(len(kp.E) for kp in c.kpts) for _, c in chans]
    if channels is None:
        x.append(f'<nbnd>{nb[0]}</nbnd>')
    else:
        x += ['' if full else '<lsda>true</lsda>', f'<nbnd_up>{nb[0]}</nbnd_up>', f'<nbnd_dw>{nb[1]}</nbnd_dw>']
    if fermi:
        x.append(f'<fermi_energy>{calc.EF / HARTREE:.15e}</fermi_energy>')
    Rec = 2 * np.pi * np.linalg.inv(Lb).T
    if full:
        x += ['<starting_k_points><nk>2</nk>', '<k_point weight="1.0">0.3e0 0.2e0 0.1e0</k_point>' * 2, '</starting_k_points>',
              f'<nks>{len(calc.kpts)}</nks>', '<occupations_kind>smearing</occupations_kind>']
    for ik, kp in enumerate(calc.kpts):
        E = np.concatenate([c.kpts[ik].E for _, c in chans])
        kc = kp.k @ Rec
        x += ['<ks_energies>', '<k_point weight="1.0">' + " ".join(f"{y*alat/2/np.pi:.15e}" for y in kc) + '</k_point>',
              f'<npw>{len(kp.G)}</npw>', f'<eigenvalues size="{len(E)}">' +
              "\n".join(f"{e / HARTREE:.15e}" for e in E) + '</eigenvalues>',
              f'<occupations size="{len(E)}">' + " ".join(["1.0e0"] * len(E)) + '</occupations>' if full else '', '</ks_energies>']
    x += ['</band_structure>', '</output>', '</qes:espresso>']
    open(d + "/data-file-schema.xml", "w").write("\n".join(x) + "\n")
    for tag, c in chans:
        for ik, kp in enumerate(c.kpts):
            n = len(kp.G)
            o = np.arange(n) if order is None else order(n)
            sel = np.concatenate([o, o + n]) if calc.spinor else o
            name = f"wfc{tag}{ik+1}"
            name = name.upper() if upper else name
            with open(f"{d}/{name}.dat", "wb") as f:
                frec(f, i4(ik + 1), f8(kp.k @ Rec), i4(1, 0), f8([1.0]))
                frec(f, i4(n, n, 2 if calc.spinor else 1, len(kp.E)))
                frec(f, f8(Rec))
                frec(f, i4(*kp.G[o].reshape(-1)))
                for cc in kp.C[:, sel]:
                    frec(f, cplx(cc))


def espresso(calc, **kw):
    write_qe("gen", calc, **kw)
    return dict(code="espresso", prefix="gen")


# ---------------------------------------------------------------- Wannier90
def w90_grid(calc, extra=0):
    m = np.max([np.abs(kp.G).max(axis=0) for kp in calc.kpts], axis=0)
    return 2 * m + 1 + extra


def write_win(seed, calc, cart_atoms=False, cell_units="ang", atom_units=None, assign="=", fermi=True,
              comments=False, block_order=(0, 1, 2), mp=None, names=None, upper=False, inline=False,
              head_last=False, weights=False, extras=0):
    """extras: other blocks and parameters of Wannier90, in different places"""
    L = np.array(calc.Lattice) / (BOHR if cell_units == "bohr" else 1)
    cell = ["begin unit_cell_cart"]
    if cell_units is not None and cell_units != "none":
        cell.append(cell_units)
    cell += ["  ".join(f"{x:.16f}" for x in v) for v in L] + ["end unit_cell_cart"]
    names = names or ["Zn", "As", "Bi", "C", "O"]
    kind = "atoms_cart" if cart_atoms else "atoms_frac"
    at = [f"begin {kind}"]
    X = np.array(calc.positions)
    if cart_atoms:
        X = X @ np.array(calc.Lattice)
        if atom_units:
            at.append(atom_units)
            if atom_units == "bohr":
                X = X / BOHR
    at += [f"{names[t-1]}  " + "  ".join(f"{y:.16f}" for y in p) for t, p in zip(calc.typat, X)]
    at.append(f"end {kind}")
    kp = ["begin kpoints"] + ["  ".join(f"{y:.16f}" for y in q.k) + ("  0.25" if weights else "") for q in calc.kpts] + ["end kpoints"]
    mp = mp or (len(calc.kpts), 1, 1)
    a = {"=": " = ", ":": " : ", " ": "  "}[assign]
    head = [f"num_bands{a}{len(calc.kpts[0].E)}", f"spinors{a}{'.true.' if calc.spinor else '.false.'}",
            f"mp_grid{a}{mp[0]} {mp[1]} {mp[2]}", f"num_wann{a}4"]
    if fermi:
        head.append(f"fermi_energy{a}{calc.EF:.12f}")
    if inline:
        head = [h + ("  ! comment 1 = 2" if i % 2 else "   # note") for i, h in enumerate(head)]
    if comments:
        head.insert(1, "! comment = 3")
        head.insert(0, "# comment")
        head.append("")
    other = [["begin projections", f"{names[0]}: s;p:z=0,0,1", "f=0.25,0.25,0.25 : sp3-1", "end projections"],
             ["begin kpoint_path", "G 0.0 0.0 0.0  X 0.5 0.0 0.0", "X 0.5 0.0 0.0  M 0.5 0.5 0.0", "end kpoint_path"],
             ["bands_plot = true", "dis_win_max = 17.5d0", "exclude_bands = 1-4, 7", "num_iter = 300"]]
    blocks = [cell, at, kp]
    lines = [] if head_last else head[:]
    for n, i in enumerate(block_order):
        if extras:
            lines += ["", *other[(n + extras) % 3]]
        lines += ["", *blocks[i]]
    if head_last:
        lines += head
    text = "\n".join(lines) + "\n"
    if upper:
        text = text.upper()
    open(seed + ".win", "w").write(text)


def write_w90(seed, calc, grid=None, extra=0, win=None):
    grid = np.array(grid if grid is not None else w90_grid(calc, extra))
    write_win(seed, calc, **(win or {}))
    with open(seed + ".eig", "w") as f:
        for ik, kp in enumerate(calc.kpts):
            for ib, e in enumerate(kp.E):
                f.write(f"{ib+1:6d} {ik+1:6d} {e:22.14f}\n")
    for ik, kp in enumerate(calc.kpts):
        n = len(kp.G)
        with open("UNK%05d.%s" % (ik + 1, "NC" if calc.spinor else "1"), "wb") as f:
            frec(f, i4(*grid, ik + 1, len(kp.E)))
            for c in kp.C:
                for s in range(2 if calc.spinor else 1):
                    a = np.zeros(grid, complex)
                    a[tuple((kp.G % grid).T)] = c[s * n:(s + 1) * n]
                    u = np.fft.ifftn(a) * np.prod(grid)
                    frec(f, cplx(u.reshape(-1, order="F")))


def wannier90(calc, **kw):
    write_w90("gen", calc, **kw)
    return dict(code="wannier90", prefix="gen", Ecut=calc.Ecut)


WRITERS = dict(vasp=vasp, abinit=abinit, espresso=espresso, wannier90=wannier90)
