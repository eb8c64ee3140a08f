import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
B="irrep/bandstructure.py";K="irrep/kpoint.py";G="irrep/gvectors.py";S="irrep/spacegroup.py";R="irrep/readfiles.py";U="irrep/utility.py";C="irrep/cli.py";T="irreptables/irreptables/__init__.py"
EX="The stable tests compare three example runs (one Abinit scalar, one Quantum Espresso spinor, one VASP spinor crystal) with stored output; "

p("P01","Characters are expectation values of the symmetry operations",
"For every k point, every set of degenerate states and every operation of the space group that leaves the k point invariant up to a reciprocal lattice vector, the reported character equals the sum over the set of <psi|g|psi>, where g acts on the plane waves with the reported rotation, translation and spin rotation, nonsymmorphic phases included. The operations reported for a k point are exactly the ones of its little group. This holds for scalar and spinor states, at any k point, and for files of VASP, Abinit, Quantum Espresso and Wannier90.",
["inputs"],"all crystals, origins, orientations and cells, k points (special, boundary, generic, outside the first zone), states (symmetric or not), degeneracies, scalar/spinor, codes",
EX+"they see three crystals and a few k points, and stored numbers would hide an error present when they were stored.",
[K,G,B],[("characters of a k point",K+": Kpoint.calculate_traces"),("action of an operation on plane waves",G+": symm_eigenvalues, transformed_g"),("little group",K+": Kpoint.__init__")],
[("characters","trace per set of degenerate states and operation","Kpoint.char")],["Kpoint.char","Kpoint.little_group","trace.txt","irrep-output.json"])

p("P02","Identified irreps are the decomposition of the states",
"For any crystal of any of the 230 space groups, in any choice of primitive cell, origin and orientation, and any tabulated maximal k point given by its name, the multiplicities reported for a set of degenerate states that spans an invariant subspace are those of its decomposition into the tabulated irreps: non-negative integers whose dimensions add up to the degeneracy, zero multiplicities left out. States built to transform as one given irrep of the table are labelled with exactly that irrep.",
["inputs"],"all space groups, single and double, all tabulated k points and irreps, all (also non-primitive, left-handed) cells, origins, rotations, equivalent k points",
EX+"irreps are identified in them for two space groups out of 230 and one cell of each.",
[B,K,S,T],[("projection on tabulated characters",K+": Kpoint.identify_irreps"),("transfer of the table to the calculated cell",S+": SpaceGroup.get_irreps_from_table")],
None,["Kpoint.irreps","irreps.dat","irrep-output.json"])

p("P03","The search of the conventional cell matches the tables",
"When the search of the reference cell succeeds, the reported space group number is that of the crystal and the reported cell and origin transform the operations of the crystal one-to-one onto the tabulated ones: equal rotations, translations equal up to a lattice translation, and numbered in the order of the tables. The search succeeds for every crystal of every space group whichever primitive cell, origin and orientation describes it, and a cell and origin given by the user are used as given.",
["inputs","configurations"],"all 230 space groups x primitive cells (unimodular changes, left-handed) x origins x orientations, with and without user-given cell and origin",
EX+"three crystals, one cell each.",
[S],[("search of cell and origin",S+": SpaceGroup.determine_basis_transf"),("matching with tables",S+": SpaceGroup.match_symmetries"),("sorting",S+": SpaceGroup.__init__")],
[("refUC, shiftUC","reference cell and origin","SpaceGroup")],["SpaceGroup.refUC","SpaceGroup.shiftUC","SpaceGroup.symmetries"])

p("P04","Symmetry operations are complete, geometric, and a (double) group",
"The reported operations are exactly the symmetry operations of the crystal modulo lattice translations. Axis, angle and inversion reported for each describe its Cartesian rotation; its spin rotation is the unitary matrix of determinant one of that axis and angle, and products of operations close up to lattice translations and signs of spin rotations. When the operations have been matched with the tables, the reported signs make the spin rotations multiply exactly like the tabulated ones, in every orientation of the crystal.",
["inputs"],"all crystals in all cells and orientations, scalar and spinor",
EX+"axes and angles are not compared at all, and signs only through characters of two crystals.",
[S],[("axis and angle",S+": SymmetryOperation._get_operation_type"),("spin rotation",S+": SymmetryOperation.__init__"),("sign with respect to tables",S+": SpaceGroup match of spinor rotations")],
None,["SymmetryOperation attributes","stdout description","irrep-output.json"])

p("P05","Shipped tables hold groups and complete sets of irreps, parsed faithfully",
"For every space group, single and double, the operations in memory form a group modulo lattice translations and signs, and the irreps of every maximal k point, of its complete little group, have orthonormal characters (translation phases included) with the tabulated dimensions, whose squares add up to the order of the little group. The tables in memory hold exactly the operations, k points and irreps of the files, and an operation, k point or irrep written out and parsed again is the same one.",
["inputs","configurations"],"230 space groups x single/double x operations x k points x irreps; user-defined table files",
EX+"six of 460 tables are opened and only a few irreps of them used.",
[T,"irreptables/irreptables/tables"],[("parser of tables",T+": IrrepTable, SymopTable, KPoint, Irrep")],None,["IrrepTable attributes"])

p("P06","The plane waves kept are exactly those below the cutoff, with their coefficients",
"At every k point the plane waves kept are exactly those with kinetic energy below the smaller of the cutoff of the calculation and the one requested, each once and sorted by energy. Each kept coefficient belongs to its own plane wave (both spin components), and states are normalised over the kept plane waves. A requested cutoff that is absent, not positive or above that of the calculation means the cutoff of the calculation.",
["inputs","configurations"],"all lattices (skewed, anisotropic, left-handed), cutoffs, k points, codes, scalar/spinor, order of plane waves in the file",
EX+"one cutoff per example, no check of the coefficients.",
[G,B,R],[("generation of plane waves",G+": calc_gvectors"),("selection and sorting",G+": sortIG"),("choice of the cutoff",B+": BandStructure.__init__")],
[("ig, WF","plane waves and coefficients of a k point","Kpoint")],["Kpoint.ig","Kpoint.WF"])

p("P07","Readers return what the files of each code contain",
"For VASP, Abinit, Quantum Espresso (including both spin channels) and Wannier90, the lattice, atoms, number and coordinates of k points, energies, Fermi level, cutoff, spinor character and wave functions obtained are those written in the files, in the documented units. All documented variants of the text formats (scaling factor, direct or Cartesian coordinates, units, selective dynamics, comments, order of blocks) describing the same crystal give the same result, and the same calculation written in the format of any of the codes gives the same energies, irreps and characters.",
["inputs","configurations"],"all crystals, k lists, numbers of bands and plane waves, per-k band counts, spin, byte layouts of the four codes and variants of their text formats",
EX+"one file per code, Wannier90 none.",
[R,U,B],[("readers",R+": ParserVasp, ParserAbinit, ParserEspresso, ParserW90")],None,["BandStructure attributes","Kpoint.WF","Kpoint.Energy_raw"])

p("P08","Selections act as restrictions of the full calculation",
"A calculation limited to a range of bands, to a list of k points (in any order the code can read them), or with a shifted Fermi level gives exactly the corresponding part of the full calculation, energies shifted by the Fermi level. States are grouped as degenerate exactly when they are linked by energy steps not larger than the threshold, and sets cover the selected bands once and in order. Values that are absent or out of range select all bands, and no selection changes the inputs passed by the caller.",
["inputs","configurations"],"all band ranges, k lists, thresholds, Fermi levels (number, auto), spectra incl. steps near the threshold, codes",
EX+"one selection per example.",
[B,K,C],[("band range and k list",B+": BandStructure.__init__"),("grouping",K+": Kpoint.__init__")],None,["Kpoint.borders","Kpoint.degeneracies","Kpoint.Energy_mean","BandStructure.kpoints"])

p("P09","Results do not depend on arbitrary choices in the description of the states",
"Characters, irreps, parities, unfolding weights, Wilson-loop spectra and phases are unchanged when each state is multiplied by a nonzero complex number, when degenerate states are mixed by a unitary matrix, when the order of plane waves in the file changes, or when a k point is replaced by an equivalent one with shifted plane waves. With the reference cell and origin given, irreps and reference-cell characters do not change with the primitive cell, origin or orientation that describes the same physical states.",
["inputs"],"all phases, norms, unitary mixings, plane-wave permutations, reciprocal lattice shifts, unimodular cell changes, origin shifts, rotations",
EX+"each describes its crystal in one way only.",
[B,K,G,S],[("normalisation",K+": Kpoint.__init__"),("traces over degenerate sets",K+": Kpoint.calculate_traces")],None,["Kpoint.char","Kpoint.irreps"])

p("P10","Characters in the reference cell are those of the tabulated operations",
"When a reference cell or origin other than the calculated ones matches the tables, the character reported for the reference cell is the trace, over the same states, of the operation exactly as tabulated: its rotation, its translation (not only up to a lattice translation) and its spin rotation. When both cells and origins coincide it is the character reported for the calculated cell. Coordinates of k points, operations, lattice vectors and atoms reported for the reference cell are the transformed ones.",
["inputs","configurations"],"all space groups, cells, origins, k points, scalar/spinor, given or searched reference cell",
EX+"the reference cell is used in two examples.",
[K,S],[("transfer of characters",K+": Kpoint.calculate_traces"),("transfer of operations",S+": SymmetryOperation.rotation_refUC, translation_refUC")],
[("char_refUC, k_refUC","characters and k point in the reference cell","Kpoint")],["Kpoint.char_refUC","Kpoint.k_refUC","irrep-output.json","stdout"])

p("P11","Separation by a symmetry splits the states into its eigenspaces",
"Separating by an operation yields, for each of its eigenvalues (or real parts of eigenvalues, when Kramers pairs are grouped), orthonormal states on which the operation acts with that eigenvalue; together they span the original states, and each appears in one subspace only, with the energy, characters and irreps of the degenerate set it comes from. Separating again by operations that commute gives the common eigenspaces, the parities reported for a subspace are those of its states, and the identity leaves the states as they are.",
["inputs","histories","configurations"],"all operations, k points invariant under them, degeneracies, sequences of separations, with and without Kramers grouping, k points with different eigenvalues",
EX+"one separation of one crystal with Kramers pairs grouped.",
[K,B,G,C],[("separation of a k point",K+": Kpoint.Separate, copy_sub"),("separation of bands",B+": BandStructure.Separate"),("matrix of an operation",G+": symm_matrix")],None,["keys and values of the result","irrep-output.json"])

p("P12","Zak phases and Wannier charge centres are those of the discretised loop",
"The Wilson-loop spectrum of a closed path is that of the ordered product of the unitary parts of the overlaps between consecutive k points, closing the loop with the plane waves shifted by the reciprocal vector between its ends, and the Zak phase of the n lowest states is the phase of the product of determinants of their overlaps. Both are independent of the gauge of the states, the centres add up to the Zak phase of all states, a rigid translation shifts them by the translation along the path, and the reported gaps are those of the energies along the path.",
["inputs"],"all closed paths (across zone boundaries, along combinations of reciprocal vectors), numbers of bands, gauges, scalar/spinor, codes",
"No test computes any Zak phase or Wannier charge centre.",
[B,K,C],[("overlaps",K+": Kpoint.overlap"),("Zak phase",B+": BandStructure.zakphase"),("Wilson loop",B+": BandStructure.wcc")],None,["return values","stdout with -ZAK / -WCC"])

p("P13","Gaps, parities and Z2/Z4 invariants follow from levels and parities",
"The direct gap is the smallest difference between the first state above the selected bands and the highest selected level over the k points, and the indirect gap that between the extremes over all of them. At k points invariant under an inversion without translation, the number of odd states is the number of -1 eigenvalues of inversion among the selected states; elsewhere none is reported. Totals, Kramers pairs and Z2 and Z4 values are the sum over those k points and its remainders, equal in printed and JSON output.",
["inputs","configurations"],"all spectra, band ranges (with or without a state above), crystals with and without inversion, scalar/spinor",
EX+"one value per example.",
[B,K],[("gaps",B+": gap_direct, gap_indirect"),("parities",K+": Kpoint.__init__; "+B+": num_bandinvs")],None,["BandStructure.gap_direct","BandStructure.gap_indirect","Kpoint.num_bandinvs","stdout","irrep-output.json"])

p("P14","Output files and printed output agree with the calculation",
"The trace file, list of irreps, table template, band-plot file, JSON file and printed report of one run each contain all and only the k points, levels, degeneracies, operations, characters and irreps of the calculation, in order, with the values to the precision of their format. The template file can be read back as a table with the operations of the reference cell, and the position along the k path printed with the bands is the accumulated Cartesian length, jumps longer than the threshold counted as zero.",
["inputs","configurations"],"all calculations: numbers of k points, levels, operations, real or complex characters, several irreps per level, scalar/spinor",
EX+"only the JSON file is compared, and only for those runs.",
[B,K,S,C],[("writers",B+": write_trace, write_irrepsfile, write_plotfile, write_characters, json"),("blocks of a k point",K+": write_trace, write_characters, json"),("operations",S+": write_trace, str, show, json")],None,["trace.txt","irreps.dat","irreptable-template","bands-*.dat","irrep-output.json","stdout"])

p("P15","Symmetry files are written and read back without loss",
"A symmetry file written for a crystal holds every operation as its Cartesian rotation and translation in units of the lattice parameter, with the convention that a point r goes to rR-t. Reading it back in the same crystal gives the same operations, in any order of the file, and calculations with them give the same characters and irreps as with the operations found by the code.",
["inputs","configurations"],"all crystals, orientations, lattice parameters, permutations of the operations, fractional translations, scalar/spinor",
EX+"one symmorphic crystal is written and read; all its translations are zero.",
[S,C],[("writer",S+": SpaceGroup.write_sym_file, SymmetryOperation.str_sym"),("reader",S+": read_sym_file, cart_to_crystal")],None,["prefix.sym","SpaceGroup.symmetries"])

p("P16","Command line, configuration file and library give the same calculation",
"Options given on the command line, in a YAML or JSON configuration file (which prevails, names in any case), or as arguments of the library lead to the same results; every option reaches the calculation with the given value and omitted ones take the documented defaults. Lists of numbers accept single values, commas and inclusive ranges, and k point names are assigned to k points in the order listed.",
["configurations","inputs"],"all combinations of options and their values, in the three ways of giving them",
EX+"each with one fixed set of options.",
[C,U,B],[("options",C+": cli, LoadContextFromConfig"),("lists",U+": str2list, str2list_space, str2bool")],None,["irrep-output.json","files written","stdout"])

p("P17","Unfolding weights and spin projections are those of the states",
"The weight of a group of states at a primitive k point is their squared norm on the plane waves of that k point, so weights over all primitive k points that fold onto a supercell k point add up to the number of states; the spin components are the traces of the Pauli matrices within the group times its projector on those plane waves. Groups are formed by the given threshold and listed once each with their mean energy, and asking for a primitive k point that does not fold onto the supercell one is refused.",
["inputs"],"all supercell matrices (non-diagonal, negative determinant), primitive k points, spectra, thresholds, scalar/spinor, repeated calls",
"No test calls unfolding; it is used by an external package.",
[K],[("unfolding",K+": Kpoint.unfold, get_rho_spin, k_close_mod1")],None,["return value of unfold"])

p("P18","Inconsistent input is refused, never turned into a result",
"Input that contradicts itself or the tables ends with an error and no irreps: a k point name absent from the tables or not at the given coordinates, lattices of POSCAR and WAVECAR that differ, truncated files, a wrong spinor flag or number of plane waves, a reference cell that does not match the tables when irreps are asked for, an incomplete set of operations, spin-polarised or double-precision VASP files, unsupported Abinit headers, a missing spin channel, inconsistent Wannier90 files, an empty band range, an unknown code or Fermi level, separation by a symmetry that does not exist or moves a k point.",
["inputs","configurations"],"all valid calculations x all kinds and places of inconsistency",
"No test gives invalid input.",
[B,S,R,G],[("consistency checks",B+": BandStructure.__init__"),("k point names",S+": get_irreps_from_table"),("files",R+": all parsers"),("plane-wave count",G+": calc_gvectors")],None,["exceptions"])

p("P19","Runs are repeatable and independent of verbosity and memory options",
"The same input always gives the same output, in the same or another process, whatever was computed before, and whatever the hash seed and state of random generators. The level of verbosity, keeping or dropping wave functions, and the order in which k points or options are given do not change any computed value, and no computation modifies its input files or leaves files other than the documented ones.",
["histories","configurations"],"all calculations, sequences of calculations in one process, hash seeds, random states, verbosity levels",
EX+"each once, in one process, with one verbosity.",
[B,K,S,T,C],[("state shared between calculations",K+": lru_cache; "+S+": symmetries lists"),("verbosity",U+": log_message")],None,["all outputs"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sc)
    n=d['statement'].replace('e.g.','').count('. ')+1
    if n>3: print(d['id'],n)
print(len(P))
