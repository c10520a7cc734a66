#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=[observe or "return values and the caller-visible state after the call"],
            hook_needed=None)))
I="include/um2/"
p("P01","Growable array behaves as a sequence of values",
 "After any construction, copy, move, assignment, append, insert-at-end, resize, reserve, clear or comparison, a growable array reports exactly the length and the elements that the operation defines, elements that the operation does not name keep their values and order, and the source of a copy is unchanged. No operation reads or writes outside the storage it owns, and capacity is never less than length.",
 ["inputs","histories"],"every length, capacity, element value and argument, hence every history of operations on one array",
 "tests use arrays of at most ten small integers and never sweep the length/capacity relation on which reallocation depends",
 [I+"stdlib/vector.hpp",I+"stdlib/memory/construct_at.hpp"],[("reallocation and growth",I+"stdlib/vector.hpp"),("element copy/move/fill loops",I+"stdlib/vector.hpp")],
 [("begin/end/capacity pointers","owned storage and the live prefix of it")])
p("P02","Array elements and storage are created and destroyed exactly once",
 "For element types with their own constructors and destructors, every element that becomes part of a growable array is constructed exactly once before use and destroyed exactly once, nothing is used after it was destroyed, and every block of storage is released exactly once with nothing leaked. This holds through growth, shrinking, copy, move, assignment and destruction.",
 ["inputs","histories"],"every length, capacity and operation, for an arbitrary element type",
 "tests use trivially destructible or leak-insensitive elements; a double destroy or leak of one element is invisible to them",
 [I+"stdlib/vector.hpp",I+"stdlib/memory/construct_at.hpp"],[("destroy/construct loops",I+"stdlib/vector.hpp")])
p("P03","Text strings hold exactly their characters",
 "Constructing, copying, moving, assigning, appending, concatenating and slicing text strings gives a string whose length, characters and terminating zero are exactly those of the operation's definition, whether the text is stored inline or on the heap, and comparison orders strings lexicographically by bytes. The other operand is unchanged and no operation touches memory outside the strings involved.",
 ["inputs","histories"],"every string content and length, on both sides of the inline/heap boundary",
 "tests sample a handful of literal strings and at most two lengths around the inline capacity",
 [I+"stdlib/string.hpp",I+"stdlib/string_view.hpp"],[("inline/heap representation",I+"stdlib/string.hpp")])
p("P04","Text slices search, trim and split exactly",
 "Searching a text slice for a character or for a given text returns the first position at which it occurs or reports absence, prefix removal and sub-slicing denote exactly the specified range, token extraction splits at the first delimiter after skipping leading ones, and equality and ordering are those of the byte sequences. No slice operation reads outside the text it was given.",
 ["inputs"],"every text, delimiter set and position",
 "tests try a few literal texts",
 [I+"stdlib/string_view.hpp"],[("scan loops",I+"stdlib/string_view.hpp")])
p("P05","Sorting routines return the sorted rearrangement of their input",
 "The in-place insertion sort and the fixed-size branchless exchange used for small inputs leave the range in non-descending order, and the result contains every input value exactly as often as before. Memory outside the range is untouched.",
 ["inputs"],"every array length and content, including duplicates and already sorted or reversed input",
 "tests sort two or three fixed arrays",
 [I+"common/insertion_sort.hpp",I+"common/branchless_sort.hpp"],[("shift loop",I+"common/insertion_sort.hpp")])
p("P06","Permutations are valid, invertible and applied faithfully",
 "A sort permutation lists every index of its input exactly once and visits the input in non-descending order, inverting a permutation and composing it with the original gives the identity, and applying a permutation moves to each position exactly the element that the permutation names. The input sequence is only changed where documented.",
 ["inputs"],"every sequence and every permutation of any length",
 "tests use three- to five-element examples",
 [I+"common/permutation.hpp"],[("in-place cycle following",I+"common/permutation.hpp")])
p("P07","Morton codes are a faithful, order-preserving interleaving",
 "Encoding two or three integer coordinates interleaves their bits exactly, with coordinate zero in the least significant position, and decoding returns the original coordinates; the hardware-accelerated and the portable implementation agree. For points normalised to the unit cube the integer coordinates used never exceed the representable range, so ordering by code is well defined.",
 ["inputs","configurations"],"every coordinate value for 32- and 64-bit codes in two and three dimensions, and both build configurations",
 "tests enumerate a small corner of the domain and only the configured implementation",
 [I+"math/morton.hpp"],[("pdep/pext and magic-mask spreads",I+"math/morton.hpp")])
p("P08","Fixed-size vectors obey vector algebra",
 "Element-wise arithmetic, scaling, dot product, norms, distances, cross product, minimum and maximum of fixed-size vectors equal their mathematical definitions in every component, for vectors of every used dimension whether or not they use vector registers. Comparisons are a total lexicographic order consistent with equality, and approximate equality is exactly a distance threshold.",
 ["inputs"],"all component values, dimensions and element types used by the library, with floating point read as real arithmetic",
 "tests evaluate a few small integer vectors",
 [I+"math/vec.hpp",I+"geometry/point.hpp"],[("SIMD and scalar operator overloads",I+"math/vec.hpp")])
p("P09","Fixed-size matrices obey matrix algebra",
 "Matrix-vector and matrix-matrix products, sums, differences, determinant, inverse, identity and rotation of fixed-size matrices equal their mathematical definitions for every entry, including non-square products; a non-singular matrix times its inverse is the identity and rotations preserve lengths.",
 ["inputs"],"all entries, with floating point read as real arithmetic, for the sizes the library uses",
 "tests evaluate a few fixed matrices, all square",
 [I+"math/mat.hpp"],[("column loops",I+"math/mat.hpp")])
p("P10","Dynamic matrices index, combine and multiply correctly",
 "Element access of a run-time sized matrix addresses each (row, column) pair exactly once in column-major order, and identity, zeroing, transpose, element-wise sums, differences, scaling, matrix-vector and matrix-matrix products produce the defined value in every entry for every non-empty shape without touching memory outside the matrices. Products and solves pass the linear-algebra backend exactly the dimensions, strides and buffers that denote the stated operation.",
 ["inputs","configurations"],"every matrix shape and content; both the library-backed and the built-in product",
 "tests use 2x2 and 3x3 matrices and only the configured backend",
 [I+"math/matrix.hpp","src/math/matrix.cpp"],[("column-major index arithmetic",I+"math/matrix.hpp"),("backend calls","src/math/matrix.cpp")])
p("P11","Polynomial solvers return real roots",
 "The quadratic and cubic root finders return only values that satisfy the polynomial, report every real root of the quadratic, mark missing roots with the documented sentinel, and return the roots of the quadratic in non-descending order.",
 ["inputs"],"all coefficients, with floating point read as real arithmetic",
 "tests solve a few polynomials with known roots",
 [I+"math/quadratic_equation.hpp",I+"math/cubic_equation.hpp"],[("case split on discriminant",I+"math/cubic_equation.hpp")])
p("P12","Statistics equal their definitions",
 "Sum, mean, median, variance and standard deviation of a sequence equal their textbook definitions for every non-empty sequence length, and the sequence itself is not modified.",
 ["inputs"],"all sequence lengths and values, with floating point read as real arithmetic",
 "tests use one ten-element sequence",
 [I+"math/stats.hpp"],[("accumulation loops",I+"math/stats.hpp")])
p("P13","Axis-aligned boxes bound, contain and intersect correctly",
 "A bounding box built from points, merged with points or other boxes is the smallest box containing all of them, extents, centroid and containment follow from its corners, and scaling changes each extent by the given factor about the centre. Intersecting a box with a ray returns the entry and exit parameters of the ray through the box, or the documented miss value exactly when the ray misses.",
 ["inputs"],"all boxes, points and rays with non-zero direction components, with floating point read as real arithmetic",
 "tests check a handful of boxes",
 [I+"geometry/axis_aligned_box.hpp"],[("slab test",I+"geometry/axis_aligned_box.hpp"),("min/max reductions",I+"geometry/axis_aligned_box.hpp")])
p("P14","Line segments interpolate, measure and intersect correctly",
 "Interpolation along a straight segment runs from its first to its last vertex, its length, left-of test, nearest point and distance to a point are the Euclidean ones, and rotation into its local frame puts the start at the origin and the end on the positive axis. A ray intersects the segment exactly when it geometrically crosses it, at the reported parameter.",
 ["inputs"],"all end points, query points and rays, with floating point read as real arithmetic",
 "tests check axis-aligned unit segments and a few rays",
 [I+"geometry/line_segment.hpp"],[("parametric intersection",I+"geometry/line_segment.hpp")])
p("P15","Triangles and quadrilaterals compute true geometry",
 "For triangles and convex quadrilaterals the area, perimeter, centroid, bounding box, edges, interpolation, point containment, orientation test, mean chord length and linearity queries equal the geometric quantity for the polygon's vertices, and reversing the polygon reverses its orientation while keeping its vertex set and first vertex. Ray intersections report exactly the parameters at which the ray meets the polygon's edges.",
 ["inputs"],"all vertex positions, query points and rays, with floating point read as real arithmetic",
 "tests check a unit triangle and a unit square",
 [I+"geometry/triangle.hpp",I+"geometry/quadrilateral.hpp",I+"geometry/polygon.hpp",I+"geometry/polytope.hpp"],[("shoelace and edge loops",I+"geometry/polygon.hpp")])
p("P16","Quadratic triangles and quadrilaterals compute true geometry",
 "For six-node triangles and eight-node quadrilaterals interpolation passes through every node, area and centroid equal those of the region enclosed by the quadratic edges, each edge consists of its two corner nodes and its own mid-edge node, the linear counterpart uses the corner nodes, and reversal keeps every mid-edge node on its own edge. The derivative matrix is the derivative of the interpolation.",
 ["inputs"],"all node positions and parameters, with floating point read as real arithmetic",
 "tests check one or two shapes in canonical position",
 [I+"geometry/quadratic_triangle.hpp",I+"geometry/quadratic_quadrilateral.hpp",I+"geometry/polygon.hpp"],[("shape functions, edge tables, flip",I+"geometry/quadratic_quadrilateral.hpp")])
p("P17","Quadratic segments interpolate, bound and intersect correctly",
 "A quadratic segment's interpolation passes through its three nodes and equals its polynomial form, its derivative is that of the interpolation, its bounding box contains every point of the arc, its enclosed-area, straightness and orientation results follow from the nodes, and nearest point and ray intersection parameters denote points that lie on the arc.",
 ["inputs"],"all node positions, parameters and rays, with floating point read as real arithmetic",
 "tests check eight canonical curves",
 [I+"geometry/quadratic_segment.hpp"],[("polynomial coefficients and root selection",I+"geometry/quadratic_segment.hpp")])
p("P18","Modular ray sets tile the module",
 "The modular ray parameters for any box, target angle and spacing give a positive number of rays on each side, a spacing and direction consistent with those counts, unit directions, and each indexed ray starts on the boundary of the box at the documented equally spaced offset.",
 ["inputs"],"every box size, angle strictly between zero and pi, spacing and ray index",
 "tests check eight angles on one box",
 [I+"geometry/modular_rays.hpp"],[("ray counts and origin formula",I+"geometry/modular_rays.hpp")])
p("P19","Regular grids number and locate their cells consistently",
 "Cell counts, extents, corner positions, cell boxes and cell centroids of a regular grid follow from its minima, spacing and counts, flat and multi-dimensional cell numbers correspond one to one, and the cell reported to contain a point is the one whose box contains it, with points outside reported as such. The range of cells reported to meet a box contains every cell whose interior meets that box and no cell outside the grid.",
 ["inputs"],"every grid shape, index and query point or box, with floating point read as real arithmetic",
 "tests check 1-3 dimensional grids with a few cells",
 [I+"mesh/regular_grid.hpp"],[("index arithmetic and floor",I+"mesh/regular_grid.hpp")])
p("P20","Rectilinear grids number and locate their cells consistently",
 "Cell counts, extents, minima, maxima and cell boxes of a rectilinear grid follow from its division lines, flat and multi-dimensional cell numbers correspond one to one, and building a grid from a grid of ids with cell sizes gives division lines whose gaps are the sizes of the named cells in order.",
 ["inputs"],"every number and position of division lines and every id table that names cells of matching size",
 "tests check grids of two to four cells",
 [I+"mesh/rectilinear_grid.hpp"],[("division-line construction",I+"mesh/rectilinear_grid.hpp")])
p("P21","Grid partitions map cells to their children without mixing",
 "A partition of a grid returns, for every cell addressed by flat or by multi-dimensional number, the child stored for exactly that cell, and forwards grid queries unchanged. Flattening a row-by-row lattice written top row first yields the bottom-up ordering of the grid with every entry kept exactly once.",
 ["inputs"],"every grid shape, index and child table",
 "tests use 2x2 and 2x3 partitions",
 [I+"mesh/regular_partition.hpp",I+"mesh/rectilinear_partition.hpp","src/mpact/model.cpp"],[("flat index",I+"mesh/regular_grid.hpp"),("flattenLattice","src/mpact/model.cpp")])
p("P22","Element-type tables are mutually consistent",
 "The conversions between element kinds, mesh kinds, vertex counts and file-format codes agree with each other for every kind: round trips return the original kind, vertex counts match the geometry, and unknown values are reported as invalid. A list of element kinds is classified as the mesh kind that covers exactly those kinds.",
 ["inputs"],"every kind, code and list of kinds",
 "tests check one example per kind",
 [I+"mesh/element_types.hpp"],[("switch tables",I+"mesh/element_types.hpp")])
p("P23","Mesh faces, edges and vertex-face links agree with connectivity",
 "For a mesh given by vertices and face connectivity, the geometry returned for a face or edge uses exactly the vertices the connectivity names, reversing a face keeps its vertex set and edges, and the computed vertex-to-face table lists for every vertex each face that uses it exactly once in ascending order and nothing else (for faces whose vertices are distinct). The bounding box of a mesh with straight edges is that of its vertices and that of a mesh with curved edges contains every face's box, and the face reported to contain a point does contain it.",
 ["inputs"],"every mesh size and connectivity of the four supported face kinds",
 "tests use one two-face mesh per kind",
 [I+"mesh/face_vertex_mesh.hpp","src/mesh/face_vertex_mesh.cpp"],[("populateVF counting sort","src/mesh/face_vertex_mesh.cpp")])
p("P24","Reordering a mesh preserves its geometry",
 "Reordering vertices or faces along the space-filling curve leaves the multiset of faces, as seen through vertex positions, unchanged: every face keeps its vertices in order, connectivity stays within range, and each original face and vertex appears exactly once. Repairing face orientation changes only faces that were clockwise, and afterwards none is.",
 ["inputs"],"every mesh size, vertex position and connectivity",
 "tests check one small mesh per kind",
 ["src/mesh/face_vertex_mesh.cpp",I+"common/permutation.hpp"],[("permutation of vertices and remapping","src/mesh/face_vertex_mesh.cpp")])
p("P25","Ray-mesh intersection tables are consistent and complete",
 "Intersecting a ray with a mesh returns every edge crossing of every face with the face it belongs to, offsets that partition the crossings per face in order, and a count equal to the crossings written; the tables of offsets and faces are untouched beyond the count, and the table of crossings beyond at most two scratch places per edge of a face. Sorting the crossings orders the faces hit by the average of the two smallest crossing parameters of each, and loses no face.",
 ["inputs"],"every mesh, ray and number of crossings",
 "tests fire a few rays through tiny meshes",
 [I+"mesh/face_vertex_mesh.hpp","src/mesh/face_vertex_mesh.cpp"],[("prefix offsets",I+"mesh/face_vertex_mesh.hpp"),("sortRayMeshIntersections","src/mesh/face_vertex_mesh.cpp")])
p("P26","Unstructured mesh container stores elements and groups faithfully",
 "Adding vertices, elements and named element groups to an unstructured mesh returns consecutive indices and makes exactly the added data retrievable without disturbing earlier data; offsets always partition the connectivity, and groups that are empty, duplicated or of mismatched size are rejected without any change. Two containers compare equal exactly when their elements and groups agree and their coordinates agree within the tolerance.",
 ["inputs","histories"],"every sequence of additions, with any element kinds and group contents",
 "tests add a handful of elements in one order",
 [I+"mesh/polytope_soup.hpp","src/mesh/polytope_soup.cpp"],[("offset tables","src/mesh/polytope_soup.cpp")],[("offset tables","prefix sums of element and group sizes")])
p("P27","Merging and translating unstructured meshes loses nothing",
 "Appending one unstructured mesh to another keeps all vertices and elements of both, with the second mesh's connectivity and group members renumbered consistently and groups of equal name united; translating moves every vertex by the same vector; sorting the groups by name keeps each group's members and data, and extracting a group gives a mesh of exactly its elements. The appended mesh is unchanged. Groups of equal name are taken to both carry data or neither.",
 ["inputs","histories"],"every pair of meshes",
 "tests merge one pair",
 ["src/mesh/polytope_soup.cpp"],[("operator+= renumbering","src/mesh/polytope_soup.cpp")])
p("P28","Cross-section data combine and interpolate linearly",
 "Collapsing a multi-group cross section to one group gives the documented averages, and interpolating a nuclide's data in temperature is linear in the square root of temperature between the bracketing tabulated temperatures, exact at tabulated temperatures and held constant outside the table, in every group and every scattering entry. Inputs are not modified.",
 ["inputs"],"every number of groups, every table length and every temperature",
 "tests check one library with a few temperatures",
 ["src/physics/cross_section.cpp","src/physics/nuclide.cpp",I+"physics/cross_section.hpp"],[("interpolation loops","src/physics/nuclide.cpp")])
p("P29","Material compositions conserve atoms",
 "Adding a nuclide by number density, by weight percent or as atom percentages gives each named nuclide exactly the number density defined by density, percentage and atomic mass, leaves other nuclides unchanged, and never duplicates or drops a nuclide (input is valid: a nuclide is added once; errors end the program by default). Building a material's cross section sums each nuclide's interpolated data weighted by its number density.",
 ["inputs","histories"],"every composition, density and sequence of additions",
 "tests check two compositions to a tolerance",
 ["src/physics/material.cpp"],[("number-density formulas","src/physics/material.cpp")])
p("P30","Model hierarchy accepts only consistent parts",
 "Adding meshes, cells, modules, lattices, assemblies and the core to a reactor model returns consecutive ids for consistent input and rejects, without adding anything, input that names parts that do not exist or whose sizes disagree (material count against faces, module extents, lattice rows, lattice sizes and heights of an assembly; the input is non-empty and rows, widths and heights of modules and cores agree). The child stored for each grid position is the one given for that position, and homogenised cell data are area-weighted averages.",
 ["inputs","histories"],"every sequence of additions with any ids and sizes",
 "tests build one or two fixed models",
 ["src/mpact/model.cpp",I+"mpact/model.hpp"],[("id validation","src/mpact/model.cpp")])
p("P31","Log messages never overflow the message buffer",
 "Formatting any log message, with or without colour and timestamp and for any arguments that fit (non-empty texts, elapsed time below one hundred hours), writes only inside the message buffer, leaves it zero-terminated, and places the preamble, each argument and the postamble contiguously and in order.",
 ["inputs","configurations"],"every level, option setting, elapsed time and argument value",
 "tests never inspect the buffer or fill it",
 ["src/common/logger.cpp",I+"common/logger.hpp"],[("buffer cursor","src/common/logger.cpp")])
p("P32","Sequence utilities act on exactly their range",
 "Copying, filling, equality, lexicographic comparison, sortedness, maximum, string-to-number scanning and byte comparison helpers examine or write exactly the given range, return the defined result for every range including empty ones, and change nothing else.",
 ["inputs"],"every range length and content",
 "tests use a few short arrays",
 [I+"stdlib/algorithm",I+"stdlib/cstring",I+"stdlib/numeric"],[("range loops",I+"stdlib/algorithm")])
p("P33","Meshes survive writing to and reading from files",
 "Writing a mesh or model to any supported file format and reading it back yields the same vertices, elements, groups and hierarchy.",
 ["inputs"],"every mesh and model",
 "tests round-trip a few fixed meshes",
 ["src/mesh/polytope_soup.cpp","src/mpact/model.cpp"],[("file readers and writers","src/mesh/polytope_soup.cpp")])
p("P34","Acceleration spectral radius is computed from the right operator",
 "The reported spectral radius of the coarse-mesh acceleration is the largest magnitude eigenvalue of the iteration operator defined by the cell parameters.",
 ["inputs"],"every admissible cell parameter set",
 "tests compare a few parameter sets to tabulated values",
 ["src/physics/cmfd.cpp"],[("operator assembly","src/physics/cmfd.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
