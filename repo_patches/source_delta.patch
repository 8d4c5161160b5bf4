From cb1c2a938785a4a13e751688ceb2d5468f697631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 01/23] fix: compare list lengths by value, not identity (lists
 longer than 256)

---
 ramannoodle/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..0598d9a 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,7 +119,7 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
+    if length is not None and len(array) != length:
         raise ValueError(f"{name} has wrong length: {len(array)} != length")
 
 
-- 
2.43.0


From 960eddd4b8590814ade0b94056a6fd45b366a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 02/23] fix: apply spglib operations as row-vector operations
 and rotate polarizabilities in Cartesian space

---
 ramannoodle/pmodel/_interpolation.py |  6 +++++-
 ramannoodle/structure/_reference.py  | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..bfd602f 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -301,6 +301,9 @@ class InterpolationModel(PolarizabilityModel):
             self._ref_structure.get_equivalent_displacements(parent_displacement)
         )
 
+        lattice = self._ref_structure.lattice
+        inv_lattice = np.linalg.inv(lattice)
+
         basis_vectors: list[NDArray[np.float64]] = []
         interpolation_xs: list[list[float]] = []
         interpolation_ys: list[list[NDArray[np.float64]]] = []
@@ -323,7 +326,8 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Polarizabilities are Cartesian, so rotation must be as well.
+                    rotation = inv_lattice @ transformation[0] @ lattice
                     delta_polarizability = polarizability - self._ref_polarizability
 
                     interpolation_y.append(
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..53633af 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -23,6 +23,22 @@ from ramannoodle.constants import ATOM_SYMBOLS
 from ramannoodle.structure import _symmetry_utils
 
 
+def _get_row_rotations(
+    rotations: NDArray[np.float64], translations: NDArray[np.float64]
+) -> NDArray[np.float64]:
+    """Convert rotations of column vectors (spglib) into rotations of row vectors.
+
+    If transposing the rotations only reorders the operations, the order is kept.
+    """
+    row_rotations = np.transpose(rotations, (0, 2, 1))
+    for rotation, translation in zip(row_rotations, translations):
+        same_rotation = (rotations == rotation).all(axis=(1, 2))
+        shifts = translations[same_rotation] - translation
+        if not np.isclose(shifts, np.rint(shifts), atol=1e-5).all(axis=1).any():
+            return row_rotations
+    return rotations
+
+
 def _compute_permutation_matrices(
     rotations: NDArray[np.float64],
     translations: NDArray[np.float64],
@@ -118,8 +134,10 @@ class ReferenceStructure:
         if self._symmetry_dict is None:
             raise SymmetryException("Symmetry search failed. Check structure.")
 
-        self._rotations = self._symmetry_dict["rotations"]
         self._translations = self._symmetry_dict["translations"]
+        self._rotations = _get_row_rotations(
+            self._symmetry_dict["rotations"], self._translations
+        )
         self._permutation_matrices = _compute_permutation_matrices(
             self._rotations, self._translations, self._positions
         )
-- 
2.43.0


From 8e5a5a8b66a836bde95f5686aa1d46ce56d268c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 03/23] fix: require Cartesian orthogonality between all
 degrees of freedom, including symmetry images

---
 ramannoodle/pmodel/_interpolation.py | 8 ++++++++
 ramannoodle/structure/_reference.py  | 8 +++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index bfd602f..72d33d0 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -338,6 +338,14 @@ class InterpolationModel(PolarizabilityModel):
                 child_displacement
             )
             child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
+            result = is_orthogonal_to_all(
+                child_cart_basis_vector, self._cart_basis_vectors
+            )
+            if result != -1:
+                raise InvalidDOFException(
+                    "dof equivalent to new dof is not orthogonal with existing dof "
+                    f"(index={result})"
+                )
 
             basis_vectors.append(child_cart_basis_vector)
             interpolation_xs.append(interpolation_x)
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 53633af..042bdfb 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -241,8 +241,10 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Orthogonality and collinearity are only meaningful in Cartesian space.
+            cart_candidate = candidate_displacement @ self._lattice
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
+                cart_candidate.flatten(),
                 [item.flatten() for item in orthogonal_displacements],
             )
 
@@ -254,11 +256,11 @@ class ReferenceStructure:
                         "transformations": [(rotation, translation)],
                     }
                 )
-                orthogonal_displacements.append(candidate_displacement)
+                orthogonal_displacements.append(cart_candidate)
             else:
                 # Candidate can be collinear to maximum of one orthogonal vector
                 collinear_result = _symmetry_utils.is_non_collinear_with_all(
-                    candidate_displacement,
+                    cart_candidate,
                     orthogonal_displacements,
                 )
                 if collinear_result != -1:  # collinear
-- 
2.43.0


From 6bdcda32e3d5692462e37fc848137199424fc8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 04/23] fix: ignore displacement magnitude when adding degrees
 of freedom, reject zero displacement

---
 ramannoodle/pmodel/_art.py           | 8 ++++----
 ramannoodle/pmodel/_interpolation.py | 9 ++++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..79a83e2 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -170,7 +170,7 @@ class ARTModel(InterpolationModel):
             Provided ART was invalid.
 
         """
-        direction = self.ref_structure.get_frac_direction(cart_direction)
+        verify_ndarray_shape("direction", cart_direction, (3,))
         if not isinstance(atom_index, int):
             raise get_type_error("atom_index", atom_index, "int")
         try:
@@ -184,12 +184,12 @@ class ARTModel(InterpolationModel):
             "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
         )
 
-        displacement = self._ref_structure.positions * 0
-        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
+        cart_displacement = self._ref_structure.positions * 0.0
+        cart_displacement[atom_index] = cart_direction
 
         # Checks amplitudes and displacements
         super().add_dof(
-            self.ref_structure.get_cart_displacement(displacement),
+            cart_displacement,
             amplitudes,
             polarizabilities,
             1,
diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 72d33d0..8090350 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -463,7 +463,14 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
-            displacement = self.ref_structure.get_frac_displacement(cart_displacement)
+            verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+            # Magnitude is ignored, so rescale to avoid periodic boundaries.
+            norm = np.linalg.norm(cart_displacement)
+            if norm == 0:
+                raise InvalidDOFException("displacement is zero")
+            displacement = self.ref_structure.get_frac_displacement(
+                cart_displacement / (norm * 10.0)
+            )
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
         except TypeError as exc:
-- 
2.43.0


From 0752268add6299050cbff216b0536dd0c3f4d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 05/23] fix: apply POSCAR scale factor to Cartesian positions,
 treat negative scale factor as volume

---
 ramannoodle/io/vasp/poscar.py  | 31 +++++++++++++++++++++----------
 ramannoodle/io/vasp/xdatcar.py |  6 ++++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..030ec1b 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,9 +15,11 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
+def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
     """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
 
+    The scale factor (applicable to lattice and Cartesian positions) is also returned.
+
     Raises
     ------
     InvalidFileException
@@ -40,7 +42,10 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:  # negative of the cell volume
+        volume = np.abs(np.linalg.det(np.array(lattice)))
+        scale_factor = float(np.cbrt(-scale_factor / volume))
+    return np.array(lattice) * scale_factor, scale_factor
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,7 +85,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO, lattice: NDArray[np.float64], scale_factor: float, num_atoms: int
 ) -> NDArray[np.float64]:
     """Read atomic symbols from a VASP POSCAR file.
 
@@ -116,7 +121,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +148,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return positions
 
 
@@ -167,10 +174,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +203,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..bdd85ae 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, scale_factor, len(atomic_symbols)
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From d9fca1bf7d0fd59c0ba02b5b704f83a82404ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 06/23] fix: raise InvalidFileException for truncated or
 unparsable OUTCAR, XDATCAR and vasprun.xml data

---
 ramannoodle/io/vasp/outcar.py  | 37 ++++++++++++++++++++++-------
 ramannoodle/io/vasp/vasprun.py | 43 +++++++++++++++++++++++++++++-----
 ramannoodle/io/vasp/xdatcar.py |  2 ++
 3 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..d3be889 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -24,6 +24,18 @@ except UserError:
 
 
 # Utilities for OUTCAR. Warning: some of these functions partially read files.
+def _parse_vector(items: list[str]) -> list[float]:
+    """Parse three numbers.
+
+    Raises
+    ------
+    ValueError
+    """
+    if len(items) != 3:
+        raise ValueError(f"expected three numbers, got: {items}")
+    return [float(item) for item in items]
+
+
 def _get_atomic_symbol_from_potcar_line(line: str) -> str:
     """Read atomic symbol from a POTCAR line in a VASP OUTCAR file.
 
@@ -80,7 +92,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
@@ -102,9 +114,11 @@ def _read_eigenvector(
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in line.split()[3:]]
+            vector = _parse_vector(line.split()[3:])
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
+        if len(eigenvector) != num_atoms:
+            raise InvalidFileException("eigenvector is incomplete")
         return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
@@ -127,7 +141,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +168,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +199,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -234,7 +248,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            lattice.append(_get_lattice_vector_from_outcar_line(line))
+            lattice.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
 
@@ -291,7 +305,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (
+                NoMatchingLineFoundException,
+                TypeError,
+                IndexError,
+                ValueError,
+            ) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -469,7 +488,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -490,7 +509,7 @@ def _read_timestep(file: TextIO) -> float:
         raise InvalidFileException("timestep not found") from exc
     try:
         return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+    except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..35d6ba1 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -30,6 +30,32 @@ def _get_root_element(file: TextIO) -> Element:
         raise InvalidFileException("root xml element could not be found") from exc
 
 
+def _parse_floats(text: str) -> list[float]:
+    """Parse whitespace-separated numbers.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    try:
+        return [float(i) for i in text.split()]
+    except ValueError as exc:
+        raise InvalidFileException(f"numbers could not be parsed: {text}") from exc
+
+
+def _parse_vector(text: str) -> list[float]:
+    """Parse three whitespace-separated numbers.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    vector = _parse_floats(text)
+    if len(vector) != 3:
+        raise InvalidFileException(f"expected three numbers: {text}")
+    return vector
+
+
 def _parse_atomic_symbols(root: Element) -> list[str]:
     """Parse atomic symbols from a vasprun.xml Element.
 
@@ -65,7 +91,7 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
+        positions.append(_parse_vector(text))
     return np.array(positions)
 
 
@@ -87,7 +113,7 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
+        polarizability.append(_parse_vector(text))
     return np.array(polarizability)
 
 
@@ -109,7 +135,7 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
+        lattice.append(_parse_vector(text))
     return np.array(lattice)
 
 
@@ -292,7 +318,10 @@ def _parse_timestep(root: Element) -> float:
     text = element.text
     if text is None:
         raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    try:
+        return float(text.strip())
+    except ValueError as exc:
+        raise InvalidFileException(f"timestep could not be parsed: {text}") from exc
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -342,7 +371,7 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("eigenvalues not found")
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    eigenvalues = np.array(_parse_floats(element.text))
     eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
     eigenvalues *= np.sign(eigenvalues)
     return eigenvalues
@@ -365,7 +394,9 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     for v in element:
         if v.text is None:
             raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
+        cart_eigenvector = np.array(_parse_floats(v.text))
+        if cart_eigenvector.size != num_atoms * 3:
+            raise InvalidFileException("eigenvector has unexpected size")
         cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
         eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index bdd85ae..4eaf8a5 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -55,6 +55,8 @@ def read_positions_ts(
                 if "missing first character in coordinate format:" in str(exc):
                     break
                 raise exc
+        if len(positions_ts) == 0:
+            raise InvalidFileException("no configurations found")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From 97f97a4bfe15f2869abdfc3ebd21b3da58d8809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 07/23] fix: report imaginary modes in vasprun.xml with
 negative wavenumbers

---
 ramannoodle/io/vasp/vasprun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 35d6ba1..f7a7e2e 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -372,9 +372,9 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array(_parse_floats(element.text))
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # Stable modes have negative eigenvalues, imaginary modes positive ones.
+    signs = np.where(eigenvalues > 0, -1.0, 1.0)
+    return signs * np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0


From 49e9baaabd30005b5581aa0a1476cdd5d132390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 08/23] fix: return copies of internal spectrum arrays

---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From 784149f8f5c5bae57f92ccb7b06e1519f2ab8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 09/23] fix: return copies when indexing a trajectory

---
 ramannoodle/dynamics/_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dynamics/_trajectory.py b/ramannoodle/dynamics/_trajectory.py
index 9c88c9e..9313f00 100644
--- a/ramannoodle/dynamics/_trajectory.py
+++ b/ramannoodle/dynamics/_trajectory.py
@@ -102,7 +102,7 @@ class Trajectory(Dynamics, Sequence[NDArray[np.float64]]):
     def __getitem__(self, key: int | slice) -> NDArray[np.float64]:
         """Get positions (supports indexing and slicing)."""
         try:
-            return self._positions_ts[key]
+            return self._positions_ts[key].copy()
         except IndexError as exc:
             if "out of bounds" in str(exc):
                 raise IndexError("trajectory index out of bounds") from exc
-- 
2.43.0


From 7297aa89d60f5cd3cf01cca17dde23e3badd83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 10/23] fix: raise UserError for predictions of dummy models
 without degrees of freedom

---
 ramannoodle/pmodel/_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 8090350..576e1ce 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -210,6 +210,9 @@ class InterpolationModel(PolarizabilityModel):
             Model is a dummy model.
 
         """
+        if self._is_dummy_model:
+            raise UserError("dummy model cannot calculate polarizabilities")
+
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
-- 
2.43.0


From 99d0bbf3467f625b3120484d736da8de41a29a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 11/23] fix: copy mask supplied by the caller

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 576e1ce..c73e368 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From 0db388b326780a429b9ce737b175af0a4d1a1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 12/23] fix: reject positions whose shape merely broadcasts
 with the reference structure

---
 ramannoodle/pmodel/_interpolation.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index c73e368..363a393 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -213,6 +213,9 @@ class InterpolationModel(PolarizabilityModel):
         if self._is_dummy_model:
             raise UserError("dummy model cannot calculate polarizabilities")
 
+        verify_ndarray_shape(
+            "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+        )
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
@@ -466,7 +469,11 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
-            verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+            verify_ndarray_shape(
+                "cart_displacement",
+                cart_displacement,
+                (self._ref_structure.num_atoms, 3),
+            )
             # Magnitude is ignored, so rescale to avoid periodic boundaries.
             norm = np.linalg.norm(cart_displacement)
             if norm == 0:
@@ -579,6 +586,9 @@ class InterpolationModel(PolarizabilityModel):
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
@@ -689,6 +699,9 @@ class InterpolationModel(PolarizabilityModel):
                 polarizability = np.zeros((3, 3))
 
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
-- 
2.43.0


From 270aff617d9717343b92bff6f13d87f612b2ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 13/23] fix: keep floating-point type when rescaling dataset
 polarizabilities

---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..6d86562 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -214,7 +214,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled /= torch.tensor(stddev)
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        ).type(self._scaled_polarizabilities.dtype)
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 5433bc3def87582fc58b252c86ffa02ce65f42d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 14/23] fix: verify polarizabilities supplied to
 add_art_from_pymatgen, ignore them for dummy models

---
 ramannoodle/pmodel/_art.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 79a83e2..de34af3 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -279,6 +279,11 @@ class ARTModel(InterpolationModel):
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((len(amplitudes), 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (len(amplitudes), 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From dbbfffa6bfe917c16ac425c23663989dd6337048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 15/23] fix: convert pymatgen displacement trajectories to
 positions, copy pymatgen arrays

---
 ramannoodle/io/pymatgen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..0a231d8 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -1,5 +1,7 @@
 """Functions for interacting with pymatgen."""
 
+import copy
+
 import numpy as np
 from numpy.typing import NDArray
 
@@ -40,7 +42,7 @@ def _get_lattice(pymatgen_structure: pymatgen.core.Structure) -> NDArray[np.floa
 
     """
     try:
-        return pymatgen_structure.lattice.matrix
+        return pymatgen_structure.lattice.matrix.copy()
     except AttributeError as exc:
         raise get_type_error(
             "pymatgen_structure", pymatgen_structure, "pymatgen.core.Structure"
@@ -61,7 +63,7 @@ def get_positions(pymatgen_structure: pymatgen.core.Structure) -> NDArray[np.flo
 
     """
     try:
-        return pymatgen_structure.frac_coords
+        return pymatgen_structure.frac_coords.copy()
     except AttributeError as exc:
         raise get_type_error(
             "pymatgen_structure", pymatgen_structure, "pymatgen.core.Structure"
@@ -185,4 +187,7 @@ def construct_trajectory(
             pymatgen_trajectory,
             "pymatgen.core.trajectory.Trajectory",
         ) from exc
+    if pymatgen_trajectory.coords_are_displacement:
+        pymatgen_trajectory = copy.deepcopy(pymatgen_trajectory)
+        pymatgen_trajectory.to_positions()
     return Trajectory(pymatgen_trajectory.coords, timestep)
-- 
2.43.0


From df2e44330a4f74d2d42097de16e384f394bae81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 16/23] fix: accept reference positions outside of the unit
 cell

---
 ramannoodle/structure/_reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 042bdfb..cffe8fd 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -16,6 +16,7 @@ from ramannoodle.exceptions import (
 from ramannoodle.structure.utils import (
     displace_positions,
     transform_positions,
+    apply_pbc,
     apply_pbc_displacement,
     calc_displacement,
 )
@@ -55,7 +56,7 @@ def _compute_permutation_matrices(
             _get_positions_permutation_matrix(
                 displace_positions(positions, center_of_mass_shift),
                 transform_positions(
-                    positions, rotation, translation + center_of_mass_shift
+                    apply_pbc(positions), rotation, translation + center_of_mass_shift
                 ),
             )
         )
-- 
2.43.0


From 073ae1503f4f46c424f7d1408e57b8e152881e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 17/23] fix: raise NotImplementedError for array orientations,
 ValueError for zero laser wavelengths

---
 ramannoodle/spectrum/_raman.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 6b2f51a..0442871 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -69,6 +69,16 @@ def get_laser_correction(
         raise get_type_error("wavenumbers", wavenumbers, "ndarray") from exc
 
 
+def _get_laser_wavenumber(laser_wavelength: float) -> float:
+    """Convert laser wavelength (nm) to wavenumber (cm-1)."""
+    try:
+        if laser_wavelength <= 0:
+            raise ValueError(f"invalid laser_wavelength: {laser_wavelength} <= 0")
+    except TypeError as exc:
+        raise get_type_error("laser_wavelength", laser_wavelength, "float") from exc
+    return 10000000 / laser_wavelength
+
+
 class PhononRamanSpectrum(RamanSpectrum):
     r"""Phonon-based first-order Raman spectrum.
 
@@ -155,7 +165,7 @@ class PhononRamanSpectrum(RamanSpectrum):
             Raised when any orientation besides ``"polycrystalline"`` is supplied.
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
@@ -182,7 +192,7 @@ class PhononRamanSpectrum(RamanSpectrum):
         intensities = 45.0 * alpha_squared + 7.0 * gamma_squared
 
         if laser_correction:
-            laser_wavenumber = 10000000 / laser_wavelength
+            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
             intensities *= get_laser_correction(
                 self._phonon_wavenumbers, laser_wavenumber
             )
@@ -273,7 +283,7 @@ class MDRamanSpectrum(RamanSpectrum):
             #.  intensities -- (arbitrary units) Array with shape (ceiling(S / 2),).
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
@@ -301,7 +311,7 @@ class MDRamanSpectrum(RamanSpectrum):
         wavenumbers = wavenumbers[1:]
 
         if laser_correction:
-            laser_wavenumber = 10000000 / laser_wavelength
+            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
             intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
         if bose_einstein_correction:
             intensities *= get_bose_einstein_correction(wavenumbers, temperature)
-- 
2.43.0


From e2e436651f5fffde23583939ea887962bce93086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 18/23] fix: convolve integer out_wavenumbers

---
 ramannoodle/spectrum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..cf48321 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = np.zeros(out_wavenumbers.shape)
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
-- 
2.43.0


From 6e036cc547fc4a4d22ff0acb2c42fde1494f75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 19/23] fix: return copies of directions from
 ARTModel.get_specification_tuples

---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index de34af3..33f26c0 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -373,7 +373,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From d46f3a1e7df477b7c11dd0b1ff1d01c31b05723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 20/23] fix: compare every file of a polarizability dataset
 with the first

---
 ramannoodle/io/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 5d39667..ed5ea07 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -147,8 +147,9 @@ def _read_polarizability_dataset(
                 raise IncompatibleStructureException(
                     f"incompatible atomic positions: {filepath}"
                 )
-        lattice = read_lattice
-        atomic_numbers = read_atomic_numbers
+        else:
+            lattice = read_lattice
+            atomic_numbers = read_atomic_numbers
         positions_list.append(positions)
         polarizabilities.append(polarizability)
 
-- 
2.43.0


From 1386e9099df5569d90637fcb5ad72b66746b19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 21/23] fix: raise InvalidFileException for vasprun.xml files
 with missing vectors or unrecognized symbols

---
 ramannoodle/io/vasp/vasprun.py | 59 +++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index f7a7e2e..5cc5a9e 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -56,31 +56,45 @@ def _parse_vector(text: str) -> list[float]:
     return vector
 
 
-def _parse_atomic_symbols(root: Element) -> list[str]:
-    """Parse atomic symbols from a vasprun.xml Element.
+def _get_atoms_element(root: Element) -> Element:
+    """Get the Element with one child for each atom.
 
     Raises
     ------
     InvalidFileException
-
     """
     set_element = root.find("./atominfo/array/set")
     if set_element is None:
         raise InvalidFileException("atomic symbols not found")
+    return set_element
+
+
+def _parse_atomic_symbols(root: Element) -> list[str]:
+    """Parse atomic symbols from a vasprun.xml Element.
+
+    Raises
+    ------
+    InvalidFileException
 
+    """
     atomic_symbols = []
-    for child in set_element:
-        atomic_symbol = child[0].text
-        if atomic_symbol is None:
+    for child in _get_atoms_element(root):
+        symbol_element = child.find("c")
+        if symbol_element is None or symbol_element.text is None:
             raise InvalidFileException("child has no text")
-        atomic_symbols.append(atomic_symbol.strip())
+        atomic_symbol = symbol_element.text.strip()
+        if atomic_symbol not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atom symbol: {atomic_symbol}")
+        atomic_symbols.append(atomic_symbol)
     return atomic_symbols
 
 
-def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
+def _parse_positions(
+    structure_varray: Element, num_atoms: int
+) -> NDArray[np.float64]:
     """Parse atomic fractional positions from a vasprun.xml Element.
 
-    This function reads the positions from the initial structure.
+    This function reads the positions of a single structure.
 
     Raises
     ------
@@ -92,6 +106,10 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         positions.append(_parse_vector(text))
+    if len(positions) != num_atoms:
+        raise InvalidFileException(
+            f"wrong number of positions: {len(positions)} != {num_atoms}"
+        )
     return np.array(positions)
 
 
@@ -114,6 +132,8 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         polarizability.append(_parse_vector(text))
+    if len(polarizability) != 3:
+        raise InvalidFileException(f"expected three vectors: {len(polarizability)}")
     return np.array(polarizability)
 
 
@@ -136,6 +156,8 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         lattice.append(_parse_vector(text))
+    if len(lattice) != 3:
+        raise InvalidFileException(f"expected three vectors: {len(lattice)}")
     return np.array(lattice)
 
 
@@ -171,7 +193,7 @@ def read_positions_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_get_atoms_element(root)))
         polarizability = _parse_polarizability(root)
         return positions, polarizability
 
@@ -213,7 +235,7 @@ def read_structure_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -268,7 +290,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_get_atoms_element(root)))
         return positions
 
 
@@ -301,7 +323,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -350,7 +372,8 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            num_atoms = len(_get_atoms_element(root))
+            positions_ts.append(_parse_positions(structure_varray, num_atoms))
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -385,7 +408,7 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     InvalidFileException
     """
     lattice = _parse_lattice(root)
-    num_atoms = len(_parse_atomic_symbols(root))
+    num_atoms = len(_get_atoms_element(root))
     element = root.find("./calculation/dynmat/varray[@name='eigenvectors']")
     if element is None:
         raise InvalidFileException("eigenvectors not found")
@@ -430,10 +453,14 @@ def read_phonons(filepath: str | Path) -> Phonons:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        ref_positions = _parse_positions(structure_varray)
+        ref_positions = _parse_positions(structure_varray, len(atomic_symbols))
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(eigenvectors) != len(wavenumbers):
+            raise InvalidFileException(
+                f"wrong number of eigenvectors: {len(eigenvectors)}"
+            )
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
-- 
2.43.0


From 9b9a96b006c30fed7c81d0215bb04fbe53641e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 22/23] fix: reject a POSCAR that ends after its
 selective-dynamics line

---
 ramannoodle/io/vasp/poscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 030ec1b..ca12634 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -102,6 +102,8 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
+        if len(label.strip()) == 0:
+            raise InvalidFileException("missing coordinate format after selective")
     if label[0].lower() == "c":
         cart_mode = True
     elif label[0].lower() != "d":
-- 
2.43.0


From 136c30892b66760812e26a02bb6da8a030b3bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 23/23] fix: symmetry images of displacements in strongly
 skewed lattices

---
 ramannoodle/structure/_reference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index cffe8fd..d819331 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -221,8 +221,10 @@ class ReferenceStructure:
 
         """
         displacement = apply_pbc_displacement(displacement)
-        # Scale the displacement for numerical reasons.
-        displacement = displacement / (np.linalg.norm(displacement) * 10)
+        # Scale the displacement for numerical reasons. No image may exceed half a unit
+        # cell, even if the lattice is so skewed that rotations have large elements.
+        scale = 10 * np.max(np.abs(self._rotations))
+        displacement = displacement / (np.linalg.norm(displacement) * scale)
 
         ref_positions = displace_positions(self._positions, displacement)
 
-- 
2.43.0

