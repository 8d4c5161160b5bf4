#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
R = "ramannoodle/"
prop("C01", "Predictions are the sum of independent 1-D interpolants of the data",
 """After any history of DOF/ART additions, the polarizability an interpolation model predicts for a structure equals the
 reference polarizability plus, for every unmasked DOF, that DOF's own interpolant of (amplitude, polarizability minus
 reference) evaluated at the Å projection of the minimum-image Cartesian displacement onto the DOF's unit vector.
 The interpolant passes through every data point, is piecewise linear with linear extrapolation for order 1, and is the
 interpolating polynomial whenever the data lie on a polynomial of the requested order.
 So displacing along a DOF by a supplied amplitude returns exactly the supplied polarizability, and displacements
 orthogonal to every DOF change nothing.""",
 ["histories", "inputs"],
 """every order of successful additions, every interpolation order, signed amplitudes in any order, with or without the
 reference point, any lattice (oblique, left-handed) and any displacement smaller than half a cell""",
 """tests sample TiO2 and STO with order-1 data at stored amplitudes; composition of several DOFs, extrapolation, orders above
 1 and oblique cells are never compared with an independent oracle""",
 [R+"pmodel/_interpolation.py", R+"pmodel/_art.py", R+"structure/utils.py"],
 [("InterpolationModel.calc_polarizabilities", R+"pmodel/_interpolation.py"), ("_construct_and_add_interpolations", R+"pmodel/_interpolation.py")],
 [("cart_basis_vectors/interpolations/mask", "the DOF list", R+"pmodel/_interpolation.py")], ["calc_polarizabilities"])
prop("C02", "Adding a DOF adds all its symmetry images with correctly rotated tensors",
 """When a DOF is added, the model gains exactly a maximal set of mutually orthogonal images of it under the reference
 structure's space group (the DOF itself included), and each image carries the supplied data with the amplitude signed along
 the image and the polarizability rotated by the Cartesian rotation of the operation.
 Hence predicting a displacement along any of the added images gives the correspondingly rotated polarizability (relative
to the model's fixed polarizability of the undisplaced structure), in every lattice and orientation of the crystal axes.""",
 ["inputs", "histories"],
 """every crystal system and space group (symmorphic and not, primitive and conventional cells, arbitrary orientation), every
 displacement direction and data set""",
 """tests use two orthogonal-lattice crystals; fractional and Cartesian rotations coincide there, so wrong conventions for
 hexagonal, face-centred, rotated or screw-axis crystals are invisible""",
 [R+"structure/_reference.py", R+"pmodel/_interpolation.py", R+"structure/utils.py", R+"structure/_symmetry_utils.py"],
 [("ReferenceStructure.get_equivalent_displacements", R+"structure/_reference.py"), ("InterpolationModel._get_dof", R+"pmodel/_interpolation.py")],
 [("rotations/translations/permutations", "space group of the reference", R+"structure/_reference.py")], ["cart_basis_vectors", "calc_polarizabilities"])
prop("C03", "Only valid DOFs are admitted and a rejected addition changes nothing",
 """An addition is accepted exactly when the requested direction and the symmetry images added with it are orthogonal to all
 DOFs present, no two amplitudes (supplied, symmetry-generated or the zero reference point) coincide and more points than the
 interpolation order are available; otherwise InvalidDOFException is raised (TypeError/ValueError for malformed arguments),
 and the model's DOFs, mask and predictions are exactly as before.
 The basis is therefore orthonormal after every history, and the magnitude (not the direction) of the supplied displacement
 is irrelevant.""",
 ["histories", "inputs"],
 """every interleaving of valid and invalid additions (all reasons of rejection, every entry point), any crystal, any magnitude
 of the displacement argument""",
 """tests check single rejections on fresh models; they never compare the model before/after a rejection, nor reach
 rejections caused by symmetry images of later additions""",
 [R+"pmodel/_interpolation.py", R+"pmodel/_art.py", R+"structure/_reference.py"],
 [("InterpolationModel._get_dof / _construct_and_add_interpolations", R+"pmodel/_interpolation.py"), ("ARTModel.add_art", R+"pmodel/_art.py")],
 [("cart_basis_vectors", "orthonormal basis", R+"pmodel/_interpolation.py")], ["add_dof", "add_art", "cart_basis_vectors", "mask"])
prop("C04", "Masking removes exactly the chosen DOFs and masked copies are independent",
 """The model returned by get_masked_model predicts the reference plus the contributions of exactly the DOFs not listed (only
 the listed ones are masked, whatever the source's mask), has the source's type, and leaves the source unchanged; afterwards
 additions, mask changes and unmasking on either model never affect the other.
 Newly added DOFs are unmasked, unmask() restores the full prediction, and assigning a mask of wrong length is rejected
 without effect.""",
 ["histories", "inputs"],
 """every history of additions, mask assignments, masked copies (of copies), unmasking and predictions over any subset of DOFs""",
 """tests mask a fully specified model once; histories that interleave masking with additions or copy masked models are not
 sampled""",
 [R+"pmodel/_interpolation.py", R+"pmodel/_art.py"],
 [("get_masked_model / mask setter / unmask", R+"pmodel/_interpolation.py")],
 [("mask", "per-DOF flag, True = excluded", R+"pmodel/_interpolation.py")], ["mask", "calc_polarizabilities", "get_masked_model"])
prop("C05", "A dummy model mirrors the real model's structure but never predicts",
 """For every history of additions and maskings, a dummy model accepts and rejects exactly the additions the real model does
 and ends with the same basis vectors, mask, DOF indexes and specification tuples, whatever polarizabilities (or none) are
 supplied to it.
 A dummy model never returns a polarizability: every prediction, in every state including masked, fully masked and empty
 models, raises UserError.""",
 ["histories", "inputs"],
 "every history of additions (arrays, files, pymatgen), rejections, maskings and predictions on both kinds of model",
 "tests build one dummy model and predict once; parity over histories and prediction attempts in other states are unchecked",
 [R+"pmodel/_interpolation.py", R+"pmodel/_art.py"],
 [("is_dummy_model handling", R+"pmodel/_interpolation.py")],
 [("is_dummy_model", "no interpolations stored", R+"pmodel/_interpolation.py")], ["calc_polarizabilities"])
prop("C06", "Model predictions are pure, per-sample and periodic",
 """An interpolation/ART model's prediction for a sample depends only on the model's DOFs, mask and that sample's positions
 modulo lattice vectors: it is the same alone or in any batch, at any batch position and size, in any order, before or after
 any other calls, and for positions shifted by any lattice vectors per atom.
 Predicting modifies neither the model nor the caller's arrays, and a batch of S samples yields an (S,3,3) array for every S
 including 0 and 1; inputs of wrong shape or type raise ValueError/TypeError.""",
 ["histories", "inputs"],
 "every batch composition and permutation, every per-atom integer shift, every history of interleaved predictions and mutations",
 "tests predict fixed batches once; independence between samples, calls and periodic images is universally quantified",
 [R+"pmodel/_interpolation.py", R+"structure/utils.py", R+"structure/_reference.py"],
 [("calc_polarizabilities", R+"pmodel/_interpolation.py"), ("calc_displacement", R+"structure/utils.py")], (), ["calc_polarizabilities"])
prop("C07", "ART models track which atoms and directions are specified",
 """Every DOF of an ARTModel displaces exactly one atom; get_specification_tuples lists each symmetry-nonequivalent atom once
 with all its equivalent atoms and exactly the directions specified for it, and get_dof_indexes of atoms and/or element
 symbols (mixed, repeated, single or list) returns exactly the DOFs that move one of these atoms, each once.
 Atoms never have more than three directions, equivalent atoms always have equally many, and the generic DOF-adding
 methods always raise UserError without effect.""",
 ["histories", "inputs"],
 "every history of ART additions (accepted or rejected) in any crystal and every query by index/symbol",
 "tests query a handful of atoms on two crystals; the bookkeeping invariant spans all histories, crystals and queries",
 [R+"pmodel/_art.py", R+"structure/_reference.py"],
 [("get_specification_tuples / get_dof_indexes", R+"pmodel/_art.py"), ("get_equivalent_atom_dict / get_atom_indexes", R+"structure/_reference.py")],
 (), ["get_specification_tuples", "get_dof_indexes"])
prop("C08", "DOFs taken from files or pymatgen equal those given as arrays",
 """Adding DOFs/ARTs from displaced structures in files (OUTCAR, vasprun.xml; POSCAR/XDATCAR for dummy models) or from
 pymatgen structures yields the same model as adding the direction of the first displacement with the signed Å amplitudes of
 all of them and their polarizabilities, for any file order and across periodic boundaries.
 Displacements that are not collinear, structures with a different number of atoms, ARTs moving several atoms and ARTs not
 ending up with exactly two amplitudes are rejected with InvalidDOFException, leaving the model unchanged.""",
 ["inputs", "histories"],
 "every crystal, direction, set/order/sign of amplitudes, number of files and format",
 "tests read the few stored calculations of two crystals; displacements across the cell boundary, file orders and rejections in the middle of a history are not sampled",
 [R+"pmodel/_interpolation.py", R+"pmodel/_art.py", R+"io/generic.py", R+"io/pymatgen.py"],
 [("_read_dof / _get_displacement_amplitudes_pymatgen", R+"pmodel/_interpolation.py"), ("add_art_from_files / add_art_from_pymatgen", R+"pmodel/_art.py")],
 (), ["add_dof_from_files", "add_art_from_files", "add_dof_from_pymatgen", "add_art_from_pymatgen"])
prop("C09", "Displaced structures have exactly the requested amplitudes",
 """get_displaced_positions/get_ast_displaced_positions return, per amplitude and in order, the reference positions moved by
 that many Å along the given Cartesian direction (only the named atom for the atomic variant), independent of the direction's
 magnitude, wrapped into the cell and without changing the reference structure.
 The write_* variants put exactly those structures, with the reference lattice and species, into the given files in the same
 order for any number of files, and write nothing at all when the numbers of amplitudes and files differ.""",
 ["inputs"],
 "every crystal, direction and magnitude, signed amplitude list, atom index and number of files",
 "tests cover two or three files with one cubic cell; the statement quantifies over all directions, lattices and counts",
 [R+"structure/_displace.py", R+"structure/_reference.py", R+"io/generic.py"],
 [("get_displaced_positions / write_displaced_structures", R+"structure/_displace.py")], (), ["get_displaced_positions", "write_displaced_structures"])
prop("C10", "Periodic boundary geometry: wrapping, displacing and minimum image agree",
 """Wrapped positions lie in [0,1] and wrapped displacements in [-1/2,1/2], both differ from their input by integers; shifting
 any coordinate by a whole lattice vector changes no wrapped result, and calc_displacement(p, displace_positions(p, d)) equals
 d wrapped and is antisymmetric, for single structures and for batches.
 ReferenceStructure's fractional-Cartesian conversions are the minimum-image linear maps of its lattice and invert each other
 for displacements within half a cell; no function modifies its arguments.""",
 ["inputs"],
 "all finite coordinates (negative, several cells away, on boundaries) and all lattices and batch shapes",
 "tests sample a few positions inside the unit cell",
 [R+"structure/utils.py", R+"structure/_reference.py", R+"dynamics/_trajectory.py"],
 [("apply_pbc / apply_pbc_displacement / displace_positions / calc_displacement", R+"structure/utils.py"), ("get_cart_displacement / get_frac_displacement / get_cart_direction / get_frac_direction", R+"structure/_reference.py")],
 (), ["apply_pbc", "calc_displacement", "get_cart_displacement"])
prop("C11", "Reference structures report the crystal's true symmetry equivalences",
 """The equivalent-atom dictionary partitions the atoms into exactly the orbits of the structure's space group, keyed by one
 representative per orbit, with num_nonequivalent_atoms their count.
 get_equivalent_displacements returns groups of distinct displacements, collinear within and orthogonal between groups, each
 being the image of the (rescaled) input under a space-group operation, such that the input is included and no image orthogonal
 to every group is missing; get_atom_indexes returns exactly the atoms of the given element symbols in order.""",
 ["inputs"],
 "every crystal (any system, cell choice, orientation, origin, atom order, periodic image of the positions) and displacement",
 "tests check counts for two crystals; correctness of the orbit under the full space group is never checked against an independent enumeration",
 [R+"structure/_reference.py", R+"structure/_symmetry_utils.py"],
 [("ReferenceStructure", R+"structure/_reference.py")], (), ["get_equivalent_atom_dict", "get_equivalent_displacements", "num_nonequivalent_atoms", "get_atom_indexes"])
prop("C12", "POSCAR and XDATCAR files read back exactly what was written",
 """For every valid structure or trajectory, reading a file written by ramannoodle returns the same lattice, atomic numbers in
 the same order and positions (to printed precision, at least 1e-12), every configuration in order, whatever label is given.
 POSCARs written by others are read to the same structure in all supported dialects: universal scale factor, direct or
 Cartesian coordinates, selective dynamics and trailing columns or blocks.""",
 ["inputs"],
 "all lattices, species sequences (1 to many, grouped), positions in [0,1], numbers of configurations, labels and POSCAR dialects",
 "tests round-trip a few stored files with scale factor 1",
 [R+"io/vasp/poscar.py", R+"io/vasp/xdatcar.py", R+"io/generic.py", R+"io/_utils.py"],
 [("write_structure / read_structure", R+"io/vasp/poscar.py"), ("write_trajectory / read_positions_ts", R+"io/vasp/xdatcar.py")], (), ["read_structure", "read_positions", "read_ref_structure", "read_trajectory"])
prop("C13", "Writers never touch an existing file unless told to overwrite",
 """Without overwrite=True every writer raises FileExistsError for an existing path and leaves its content untouched; with
 overwrite=True the new content completely replaces the old.
 A write rejected for its arguments (invalid structure, trajectory, format, element order or file count) creates, truncates and
 modifies no file, and no writer ever touches a path it was not given.""",
 ["histories", "inputs"],
 "every history of write calls (all writers, both flags, valid and invalid arguments) over a set of existing and new paths",
 "tests check one collision per writer; histories and failing writes over existing files are not sampled",
 [R+"io/vasp/poscar.py", R+"io/vasp/xdatcar.py", R+"io/generic.py", R+"structure/_displace.py"],
 [("open mode selection and validation before opening", R+"io/vasp/poscar.py"), ("write_trajectory", R+"io/vasp/xdatcar.py")], 
 [("file system", "path -> content", "scratch directory")], ["directory snapshot after every call"])
prop("C14", "Truncated or damaged files raise InvalidFileException, never partial data",
 """Every reader, given a valid file cut off after any line (or between any two numbers of a line), either returns what it
 returns for the complete file or raises InvalidFileException; only trajectory readers may instead return a proper prefix
 consisting of complete configurations, and only when the file ends between two configurations.
 The same holds when a number in a block the reader uses is replaced by unparsable text, when a row of numbers (an XML
 vector or atom) is missing from such a block, when an element symbol is unknown, and when the numbers of ions in a
 POSCAR/XDATCAR do not match its species line; bytes that are not text never yield partial data; it never returns arrays
 of the wrong shape; a missing file raises FileNotFoundError.""",
 ["fault_sequences", "crash_points", "inputs"],
 "every file format and reader, every truncation point, every damaged numeric field of generated files",
 "tests use a few hand-made broken files; the truncation points of interrupted calculations are quantified over every line",
 [R+"io/vasp/outcar.py", R+"io/vasp/vasprun.py", R+"io/vasp/poscar.py", R+"io/vasp/xdatcar.py"],
 [("block parsers", R+"io/vasp/outcar.py"), ("XML parsers", R+"io/vasp/vasprun.py")], (), ["every read_* function"])
prop("C15", "All file formats and the generic front end agree on the same calculation",
 """The same calculation stored as OUTCAR and vasprun.xml (and POSCAR/XDATCAR where the quantity exists) is read to the same
 lattice, species, positions, polarizability, phonon wavenumbers (imaginary modes negative), mass-weighted phonon
 displacements, trajectory and timestep; ab initio steps that repeat a machine-learned step in an OUTCAR are counted once.
 Every generic reader returns exactly what the format-specific reader returns for each supported format and raises
 ValueError for unsupported ones.""",
 ["inputs", "configurations"],
 "every cell, species sequence, number of atoms/modes/steps, sign of the eigenvalues, pattern of ML/ab initio steps and format",
 "tests read stored files of unrelated calculations, so formats are never compared on the same content",
 [R+"io/vasp/outcar.py", R+"io/vasp/vasprun.py", R+"io/generic.py", R+"io/vasp/xdatcar.py"],
 [("dispatch tables", R+"io/generic.py"), ("read_phonons / read_trajectory / ...", R+"io/vasp/outcar.py")], (), ["read_*"])
prop("C16", "Phonon Raman tensors are the model's response to each mode",
 """The Raman spectrum obtained from phonons and a polarizability model has, for every mode in order, the mode's wavenumber and
 the Raman tensor [alpha(ref + e d) - alpha(ref - e d)]/e with the fixed step e = 0.001 and the mode's own displacement d,
 for any number of modes (fewer or more than 3N) and any PolarizabilityModel.
 The tensors are therefore odd in d, independent of the other modes and of previous calls, linear for linear models, unaffected
 by constant offsets of the model and by lattice-vector shifts of the reference positions; an incompatible model raises
 ValueError.""",
 ["inputs", "histories"],
 "all models (interpolation, masked, ART, user-defined), mode sets, orders and reference positions",
 "tests compare two stored spectra",
 [R+"dynamics/_phonon.py", R+"pmodel/_interpolation.py"],
 [("Phonons.get_raman_spectrum", R+"dynamics/_phonon.py")], (), ["get_raman_spectrum", "raman_tensors"])
prop("C17", "Phonon intensities are the rotational invariant with per-mode corrections",
 """The polycrystalline intensity of a mode is 45 a^2 + 7 g^2 of its own Raman tensor (a = trace/3, g^2 the anisotropy), hence
 non-negative, invariant under rotations of the crystal and quadratic in the tensor; measured wavenumbers are the phonons' own.
 Laser and Bose-Einstein corrections multiply each intensity by ((w - w_laser)/10000)^4/w and 1/(1 - exp(-hcw/kT)) of that
 mode, alone or combined, without affecting other modes or later measurements; non-positive temperature or wavelength raises
 ValueError and other orientations NotImplementedError.""",
 ["inputs", "histories"],
 "all tensors, mode lists, temperatures, wavelengths, flag combinations and sequences of measurements",
 "tests compare spectra of two stored materials; off-diagonal components, flag combinations and repeated measurement are barely sampled",
 [R+"spectrum/_raman.py"], [("PhononRamanSpectrum.measure", R+"spectrum/_raman.py")], (), ["measure"])
prop("C18", "MD Raman spectra are the power spectra of the polarizability derivative",
 """A trajectory's spectrum uses the model's polarizability of every configuration in order, and its measured intensities at
 positive frequencies are 45 A + 7 G, where A and G combine, as for phonons, the Fourier transforms of the positive-lag
 autocorrelations of the step-to-step tensor differences on the wavenumber grid of the timestep (zero frequency removed).
 They are invariant under a constant polarizability offset, rotation of the tensors and joint time reversal, quadratic in
 scale, and the corrections multiply them pointwise by the same factors as for phonons.""",
 ["inputs"],
 "all polarizability time series lengths and contents, timesteps and correction flags",
 "tests compare one stored spectrum",
 [R+"spectrum/_raman.py", R+"spectrum/utils.py", R+"dynamics/_trajectory.py"],
 [("MDRamanSpectrum.measure", R+"spectrum/_raman.py"), ("calc_signal_spectrum", R+"spectrum/utils.py")], (), ["measure", "calc_signal_spectrum"])
prop("C19", "Convolution is linear superposition of normalized line shapes",
 """convolve_spectrum returns, at each requested wavenumber, the sum over all peaks of intensity times a normalized Gaussian
 (standard deviation = width) or Lorentzian (full width at half maximum = width) centred on the peak, for any order of peaks
 and outputs.
 It is linear in intensities, translation covariant, independent of which other output wavenumbers are requested, covers the
 peak range plus 100 cm-1 on both sides by default with about one sample per cm-1, does not modify its inputs, and
 rejects non-positive widths and unknown shapes with ValueError.""",
 ["inputs"],
 "all peak lists, widths, shapes and output grids (unsorted, repeated, single points, integer typed)",
 "tests compare one stored curve per shape",
 [R+"spectrum/utils.py"], [("convolve_spectrum", R+"spectrum/utils.py")], (), ["convolve_spectrum"])
prop("C20", "Objects own their state: no hidden sharing with callers",
 """Every array, list or structure obtained from a property or query method of a reference structure, polarizability model, phonons,
 spectrum, trajectory (positions_ts) or dataset is the caller's own: modifying it in place never changes what the object or any
 object derived from it later reports, predicts or measures.
 No operation of the library (constructing, adding DOFs, masking, predicting, measuring, convolving, writing) modifies
 the arrays and lists passed to it.""",
 ["histories"],
 "every interleaving of reading a property, mutating the result in place, and further operations and observations",
 "tests check values, never mutate returned arrays and re-observe",
 [R+"structure/_reference.py", R+"pmodel/_interpolation.py", R+"dynamics/_phonon.py", R+"dynamics/_trajectory.py", R+"spectrum/_raman.py", R+"dataset/torch/_dataset.py"],
 [("copying property getters", R+"spectrum/_raman.py")], (), ["all public properties"])
prop("C21", "Datasets keep samples, lattices, species and polarizabilities aligned",
 """A dataset built from files or pymatgen structures has sample i equal to the i-th input (positions with its
 own polarizability), one common lattice and species list, and its length equals the number of inputs; item i is (lattice,
 atomic numbers, positions, scaled 6-vector in the order xx, yy, zz, xy, xz, yz).
 An input whose lattice, species sequence or atom count differs from the first one's is rejected with
 IncompatibleStructureException, wherever it appears in the list.""",
 ["inputs", "histories"],
 "every number and order of inputs, every position and kind of incompatibility, every format",
 "tests load a few compatible files and one incompatible pair",
 [R+"dataset/torch/_dataset.py", R+"io/_utils.py", R+"io/pymatgen.py", R+"dataset/torch/utils.py"],
 [("_read_polarizability_dataset", R+"io/_utils.py"), ("PolarizabilityDataset.__getitem__", R+"dataset/torch/_dataset.py")], (), ["dataset items and properties"])
prop("C22", "Dataset scaling is exact, invertible and independent of history",
 """On construction the scaled polarizabilities are (raw - mean)/stddev with the dataset's own element-wise mean and population
 standard deviation; after any sequence of scale_polarizabilities calls they are (raw - mean)/stddev of the last call's
 arguments only, in the same vector order and floating-point type, while raw data, mean and stddev stay what they were.
 Converting 6-vectors to symmetric tensors and back is the identity, and both conversions are per-sample.""",
 ["histories", "inputs"],
 "every sequence of rescalings with any means/stddevs, every dataset",
 "tests scale once; repeated scaling, dtype and raw-data preservation over histories are not checked",
 [R+"dataset/torch/_dataset.py", R+"dataset/torch/utils.py"],
 [("scale_polarizabilities", R+"dataset/torch/_dataset.py"), ("polarizability_vectors_to_tensors", R+"dataset/torch/utils.py")], (), ["scaled_polarizabilities", "__getitem__"])
prop("C23", "Neural-network predictions are per-sample, symmetric, periodic functions",
 """A PotGNN's calc_polarizabilities is a function of one sample's positions modulo lattice vectors and rigid translations and
 of the model's weights only: identical (to float32 accuracy) alone, in any batch of any size (including beyond 100 samples)
 and order, after any other calls, batch sizes or training-mode switches, and always a symmetric tensor.
 It equals the network's forward output for that sample in evaluation mode, multiplied by the given standard deviation and
 shifted by the given mean, and predicting never changes the weights.""",
 ["histories", "inputs"],
 "every history of predictions with varying batch sizes, every batch composition, shift and translation, several architectures and crystals",
 "tests check one stored prediction; cached batch triplets and sub-batching make results history dependent if wrong",
 [R+"pmodel/torch/_gnn.py", R+"pmodel/torch/_utils.py"],
 [("PotGNN.calc_polarizabilities/forward", R+"pmodel/torch/_gnn.py"), ("BatchTriplets cache", R+"pmodel/torch/_utils.py")],
 [("cached triplets", "last batch size and its index arrays", R+"pmodel/torch/_utils.py")], ["calc_polarizabilities", "forward"])
prop("C24", "One training epoch uses each training sample once and validation never",
 """train_single_epoch performs one optimizer step per batch with every training sample in exactly one batch of at most the
 given size, computes each loss between the network output
and those samples' own scaled polarizabilities with the weights current at that step, steps with the gradient of that
batch's loss only, and returns the mean training-batch loss.
 Validation runs afterwards in evaluation mode on every validation sample once, in order, without changing weights, statistics
 or either dataset, and the returned validation loss and variance are those of the final weights (means over the validation batches).""",
 ["schedules", "histories", "inputs"],
 "every dataset size, batch size (dividing or not), shuffle order, loss, optimizer and number of consecutive epochs",
 "tests run one epoch and check that the loss decreases or matches a stored number",
 [R+"pmodel/torch/_train.py", R+"pmodel/torch/_gnn.py"],
 [("train_single_epoch", R+"pmodel/torch/_train.py")], (), ["forward/loss/optimizer calls seen by instrumented model, loss and optimizer objects"])
prop("C25", "Trajectories behave as immutable sequences of wrapped configurations",
 """A Trajectory reports the given configurations in order, each wrapped into the unit cell, with the given timestep;
 len, indexing (negative too), slicing (any step), iteration and reversal agree with each other as for a list of
 those configurations, and an index out of range raises IndexError.
 Non-positive or non-numeric timesteps and wrongly shaped arrays are rejected with ValueError/TypeError, and a
 pymatgen trajectory (stored as positions or as displacements) gives the same Trajectory as its positions.""",
 ["inputs", "histories"],
 "every number of configurations and atoms, index, slice and source",
 "tests index one trajectory at a few places",
 [R+"dynamics/_trajectory.py", R+"io/pymatgen.py", R+"structure/utils.py"],
 [("Trajectory", R+"dynamics/_trajectory.py"), ("construct_trajectory", R+"io/pymatgen.py")], (), ["len", "getitem", "iter", "positions_ts", "timestep"])
prop("C26", "A PotGNN sees exactly the neighbours within its cutoff",
 """A PotGNN links two different atoms, in both directions, exactly when their minimum-image distance in the reference structure
 does not exceed the cutoff: moving atoms without any link never changes a prediction, moving a single linked atom
 (by more than a few thousandths of the cell) does, and displacements in separate components of the graph contribute additively.
 Renaming atoms of one species by a symmetry of that graph leaves predictions unchanged, mirroring or inverting the crystal
 transforms the network's output as a tensor, and samples of one batch with different lattices or positions do not influence each other.
 reset_parameters forgets all training (the same seed gives the same weights and statistics again),
 and non-positive sizes, cutoffs, pass numbers or filter ranges and wrongly shaped mean/stddev arrays are rejected.""",
 ["inputs", "histories"],
 "every crystal, cluster arrangement across cell faces, cutoff between two neighbour shells, displaced configuration and batch",
 "tests compare one stored prediction of one crystal with one cutoff",
 [R+"pmodel/torch/_gnn.py", R+"pmodel/torch/_utils.py"],
 [("PotGNN._batch_graph/forward/reset_parameters/__init__", R+"pmodel/torch/_gnn.py"), ("_radius_graph_pbc, batch_positions", R+"pmodel/torch/_utils.py")],
 [("reference graph", "edge index pairs fixed by the reference structure and cutoff", R+"pmodel/torch/_gnn.py")], ["calc_polarizabilities", "forward", "reset_parameters"])
prop("C27", "Results do not depend on how the crystal is described",
 """Rotating or reflecting a crystal in space, moving its origin, choosing other lattice vectors of the same lattice, and
 renumbering its atoms only re-express results: equivalent atoms and displacements, displaced positions, cartesian
 displacements, the basis vectors, acceptance of additions, masks and predictions of InterpolationModel and ARTModel
 built from the same (re-expressed) data, raman tensors and wavenumbers transform as vectors and tensors,
 and powder intensities stay the same (while displacements stay within half a cell in every description).
 (Open: which of several non-orthogonal symmetry images a model admits, and whether an addition leaving such a choice succeeds.)
 A PotGNN with the same weights follows shifts of the origin, permuted or reversed lattice vectors, renumbered atoms of one species and mirrored axes.""",
 ["inputs", "histories"],
 "every crystal, orientation (proper or not), origin, unimodular change of lattice vectors, atom permutation and history of additions, masks, predictions and spectra",
 "tests use one description of each crystal, so an absolute axis, atom number or cell shape in a formula cannot show",
 [R+"structure/_reference.py", R+"structure/utils.py", R+"structure/_displace.py", R+"pmodel/_interpolation.py", R+"pmodel/_art.py", R+"dynamics/_phonon.py", R+"dynamics/_trajectory.py", R+"spectrum/_raman.py"],
 [("get_equivalent_displacements", R+"structure/_reference.py"), ("add_dof/add_art", R+"pmodel/_interpolation.py"), ("get_raman_spectrum", R+"dynamics/_phonon.py")], (),
 ["structure queries, add_dof/add_art outcomes, calc_polarizabilities, raman tensors, measure() in several descriptions"])
prop("C28", "The documented workflow reproduces a crystal whose response is known",
 """If a crystal's polarizability is exactly its reference value plus a linear, symmetric function of the displacements of its atoms,
 following the documented workflow with InterpolationModel or ARTModel - make displaced structures (in memory or as POSCAR files read back), calculate them,
 add them from arrays, OUTCAR, vasprun.xml files or pymatgen structures, in any order, with any valid amplitudes, scales of
 direction vectors and interpolation orders - never has a valid addition refused, and gives a model that reports the true
 polarizability of the part of a displacement lying in its unmasked directions, hence of every displacement once all 3N
 directions are known; raman tensors and intensities of phonons, polarizabilities and spectra of
 trajectories (given as arrays or read from OUTCAR), and smeared spectra are the true ones. ARTModel.get_specification_tuples lists three
 directions for every nonequivalent atom exactly when all 3N are known.""",
 ["inputs", "histories"],
 "every crystal, symmetric linear response, source of the data, order of additions, masks, displacement, phonon and trajectory",
 "tests follow the workflow on a few stored calculations and compare with stored spectra; an error in a step, or two cooperating errors at the interfaces of steps, shows only against a known truth for crystals and directions of all kinds",
 [R+"structure/_displace.py", R+"structure/_reference.py", R+"pmodel/_interpolation.py", R+"pmodel/_art.py", R+"io/generic.py", R+"io/vasp/outcar.py", R+"io/vasp/vasprun.py", R+"dynamics/_phonon.py", R+"dynamics/_trajectory.py", R+"spectrum/_raman.py", R+"spectrum/utils.py"],
 [("add_dof/add_dof_from_files/add_dof_from_pymatgen", R+"pmodel/_interpolation.py"), ("add_art/add_art_from_files/get_specification_tuples", R+"pmodel/_art.py"), ("get_raman_spectrum/measure", R+"spectrum/_raman.py")], (),
 ["displaced structures, model additions, calc_polarizabilities, get_raman_spectrum, measure and convolve_spectrum against the known response"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
