-------------------------------- MODULE Vasp --------------------------------
(***************************************************************************)
(* A calculation, and what any reader must report of it.  A calculation is *)
(* a record with lattice L, species sp, fractional positions P, and where  *)
(* it was computed: pol, modes (wavenumber in cm-1, negative if imaginary, *)
(* and Cartesian mass-weighted eigenvector), steps (fractional positions,  *)
(* and whether the step was machine-learned), timestep; mass[i] is the     *)
(* atomic mass of atom i.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

ModeDisp(c, vec) ==
  LET inv == RInv3(c.L)
  IN [a \in 1..Len(vec) |-> RVScale(RDiv(RInt(1), RSqrt(c.mass[a])), RMatMul(<<vec[a]>>, inv)[1])]

(* An ab initio step directly after a machine-learned one repeats it.       *)
Repeats(steps, i) == i > 1 /\ steps[i - 1].ml /\ ~steps[i].ml
RECURSIVE Counted(_, _)
Counted(steps, i) == IF i > Len(steps) THEN <<>>
  ELSE (IF Repeats(steps, i) THEN <<>> ELSE <<steps[i].P>>) \o Counted(steps, i + 1)

(* Quantities each format holds and the generic front end supports.         *)
Supports == [
  phonons |-> {"outcar", "vasprun.xml"},
  trajectory |-> {"outcar", "vasprun.xml"},
  positions_and_polarizability |-> {"outcar", "vasprun.xml"},
  structure_and_polarizability |-> {"outcar", "vasprun.xml"},
  polarizability_dataset |-> {"outcar", "vasprun.xml"},
  positions |-> {"outcar", "vasprun.xml", "poscar", "xdatcar"},
  ref_structure |-> {"outcar", "vasprun.xml", "poscar", "xdatcar"}]
=============================================================================
