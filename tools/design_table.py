"""Fill the tables of DESIGN.md (run after a full set of checks)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
'P01': ('every constructor, copy, move, assignment, growth, resize, comparison of Vector for five element kinds; postcondition: length, every element, frame of the source; storage ownership', 'length/capacity/element symbolic, any history by induction over one operation'),
'P02': ('the same operations over an element type whose constructor and destructor record ghost state; each slot constructed and destroyed exactly once, no leak', 'as P01; reallocation while appending an own element'),
'P03': ('String operations in both representations, contents as symbolic byte arrays, terminating zero, ordering, conversion of numbers (snprintf trusted)', 'every length on both sides of the inline limit'),
'P04': ('StringView searches, prefix/sub-slice, token extraction, comparison; loops by first-occurrence invariants', 'every text and position'),
'P05': ('insertion sort by sortedness and permutation (counting) invariants; fixed-size exchange networks by exhaustive path proof', 'every length, duplicates'),
'P06': ('sortPermutation (std::sort trusted), inversion, application in place with cycle-following invariants', 'every length'),
'P07': ('bit-exact encode/decode for each width, portable versus pdep/pext (word mode, bit-vectors)', 'every coordinate of every width'),
'P08': ('every Vec operator for each dimension and type used; total order laws as lemmas over the operators', 'every component value'),
'P09': ('Mat operators, determinant, inverse, rotation as polynomial identities', 'every entry, non-square shapes'),
'P10': ('Matrix in both the BLAS and the built-in build: indexing, fill, identity, transpose, sums, products, solve, eigenvalues; obligations on the arguments passed to BLAS/LAPACK', 'every non-empty shape'),
'P11': ('roots satisfy the polynomial, order, sentinel, completeness of the quadratic', 'every coefficient; the iterative cubic root is bounded'),
'P12': ('sum (pairwise recursion by its own contract), mean, median, variance, deviation', 'every length'),
'P13': ('boxes: smallest enclosure, containment, scaling, ray entry/exit', 'every box and ray; axis-parallel rays bounded'),
'P14': ('segment interpolation, length, side test, nearest point, rotation, ray crossing', 'every real coordinate'),
'P15': ('area, centroid, containment, orientation, chord, edges, ray crossings of triangles and convex quadrilaterals', 'every real coordinate'),
'P16': ('six- and eight-node elements: interpolation, area and centroid as integrals over the curved boundary, edges, flip, Jacobian', 'every node position'),
'P17': ('quadratic segment: interpolation, polynomial form, Jacobian, box, area, straightness, orientation', 'every node position; lengths and roots bounded'),
'P18': ('ray counts, spacing, direction identities, ray start', 'every box, angle and spacing'),
'P19': ('grid extents, corners, cell numbering bijection, containing cell, range of cells meeting a box', 'every grid in one to three dimensions'),
'P20': ('division lines, numbering bijection, extents; construction from ids', 'every grid; construction from lists bounded'),
'P21': ('child lookup, forwarding, row flattening by a two-level invariant', 'every size'),
'P22': ('conversion tables by case analysis over the whole enumeration and all other values', 'every integer value'),
'P23': ('face/edge geometry from connectivity, flip, bounding box, face containing a point', 'every mesh; vertex-face table bounded'),
'P24': ('sortVertices/sortFaces over the permutation contract, orientation repair', 'every mesh'),
'P25': ('tables of crossings over arbitrary face counts with per-face crossing contract; ordering', 'every mesh and ray; some tables bounded'),
'P26': ('add/get of vertices, elements, groups: consecutive ids, frames, offsets; rejection without effect', 'every container state; histories with names bounded'),
'P27': ('merge of vertices, elements, connectivity, translation; group union as histories', 'every size; groups bounded'),
'P28': ('collapse (mean contract from P12), interpolation in square root of temperature in every group and scattering entry', 'every group count; tables of up to three temperatures proved, longer bounded'),
'P29': ('number densities from density, percentage and mass; other nuclides framed', 'every composition; text symbols and whole cross sections bounded'),
'P30': ('rectangular pin mesh for every size, first coarse cell; histories of additions against an oracle', 'every mesh size; histories bounded'),
'P31': ('message assembly in the fixed buffer: bounds, termination, contiguity', 'every argument text that fits; time stamp text bounded'),
'P32': ('copy, fill, equal, lexicographic compare, is_sorted, max element, scanning, memcmp', 'every range including empty ones'),
}
rows = ['| id | what is specified and proved | quantified over | functions | proved | obligations | bounded stand-ins | seconds |', '|---|---|---|---|---|---|---|---|']
for k, (a, b) in T.items():
    try: d = json.load(open(os.path.join(root, 'evidence', k + '.json')))
    except OSError: d = None
    if d:
        c = d['coverage']; bs = c['bounded_standins']; fp = c['fully_proved']
        n = ', '.join(x['function'] for x in bs) or 'none'
        rows.append('| %s | %s | %s | %s | %s | %s/%s | %s | %.0f |' % (k, a, b, c['functions_under_contract'] if not isinstance(c['functions_under_contract'], list) else len(c['functions_under_contract']), fp if not isinstance(fp, list) else len(fp), c['discharged'], c['obligations'], n, d['wall_s']))
    else: rows.append('| %s | %s | %s | | | | | |' % (k, a, b))
fx = []
for f in json.load(open(os.path.join(root, 'known-findings.json'))): fx.append('* `%s` %s (%s)' % (f['commit'], f['what'], f['property']))
bugs = ['| bug | property | what it breaks | outcome |', '|---|---|---|---|']
res = json.load(open(os.path.join(root, 'tools', 'bug_results.json'))) if os.path.exists(os.path.join(root, 'tools', 'bug_results.json')) else {}
for b in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', b, 'meta.json')))
    bugs.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], res.get(b, 'caught')))
s = open(os.path.join(root, 'tools', 'DESIGN.in.md')).read()
s = s.replace('@TABLE@', '\n'.join(rows)).replace('@FIXES@', '\n'.join(fx)).replace('@BUGS@', '\n'.join(bugs))
open(os.path.join(root, 'DESIGN.md'), 'w').write(s)
