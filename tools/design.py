#!/usr/bin/env python3
"""Fills tools/DESIGN.in.md and writes DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'exhaustive MCMesh scopes + random histories of 30–120 operations, cell types line/tri/quad/tet/hex in 2d/3d'
ROWS = [
 ('C01', '`WF` and `StepC01` of Mesh.tla on every step: sub-elements complete, own mesh, unique by vertex set, exactly the missing ones created', CORE + '; up to 9 vertices per mesh'),
 ('C02', '`StepC02`: ids unique, explicit ids obeyed, automatic ids outside the id history, frame condition on all other elements', CORE + '; explicit ids 0..12 with gaps, reuse after erase/copy/clear'),
 ('C03', '`QCob`: answer of every co-boundary query = set computed from the logged state; queries interleaved so that caches exist before each change', CORE + '; whole-mesh dumps after every 4th operation'),
 ('C04', '`QNei`, as C03, plus symmetry', CORE),
 ('C05', '`QBnd` (boundary = facet with exactly one cell of the host, or part of one)', CORE + '; meshes and segments'),
 ('C06', '`QInt`: lower and upper bound of the interface relation (both segments bounded ⇒ yes; not a common facet ⇒ no)', CORE + '; up to 3 segments'),
 ('C07', '`StepC07`: upward closure of the erased set removed, frame condition on the rest (ids, tuples, points, sub-elements)', CORE + '; single and marked sets'),
 ('C08', '`StepC08`: isomorphism with equal ids after copy/assignment, frame on the other slot at every later step, clear = initial state', CORE + '; two mesh slots'),
 ('C09', '`Copy.tla`: embedding relation between source, destination before and after; nearest-vertex rule with exact squared distances', 'random meshes, selections, tolerances (0, below/above the smallest distance, between norms)'),
 ('C10', '`StepC10`: registry as a partial map id ↔ name; failing operations leave the state', 'exhaustive registry histories to depth 4 (quick) / 6, random ones with names of the default pattern'),
 ('C11', '`StepC11`: closure of membership, agreement of range / is_in_segment / segment_ids / all_elements', CORE),
 ('C12', '`Refine.tla`: vertices = old + one midpoint per refined edge, tiling by exact integer determinants (sum and containment), conformity by facet counting, segment map; `RefineEnum`: every subset of edges of one or two cells', 'tri 2d/3d and tet meshes, long chains for the completion, hyperplanes, uniform'),
 ('C13', '`Vtk.tla`: the harness logs mesh + parsed file + mesh read back; relation as in the statement; also files from an independent writer with permuted arrays', 'all cell types, 0–3 segments, scalar and vector data on vertices/cells, object reuse'),
 ('C14', '`Io.tla`: abstract file content generated, printed in several spellings, read by the library, compared', 'netgen line/tri/tet, bnd with regions/contacts, poly/tess with holes, seeds, comments, non-consecutive ids, truncation at every token'),
 ('C15', '`Geo.tla`: exact integer determinants and fixed-point square roots/angles; identities of the statement', 'integer points, all element kinds and vertex orders, meshes and segments'),
 ('C16', '`Geo.tla`: KKT conditions of the minimum in rationals (no second algorithm): feasibility of the returned points + optimality', 'point/line/triangle/quad/tet/hex in every region, line–line incl. parallel and clamped, boundary distances'),
 ('C17', '`Geo.tla`: barycentric signs by exact determinants', 'every lattice point around random triangles/tetrahedra incl. facets, edges, vertices'),
 ('C18', '`Voro.tla`: rational circumcentres, signed distances, shares', 'lines, rectangles, boxes, Delaunay triangle meshes with obtuse cells, tetrahedra on lattices and free ones'),
 ('C19', '`Alg.tla` hull and seed relations', 'all cell types, closed and empty segments, previous content in the hull mesh; strips with shuffled cell order'),
 ('C20', '`Alg.tla`: container = partial map; every accessor kind reads it', 'dense/map containers, fields, dynamic wrappers, id gaps, add/erase in between'),
 ('C21', '`Alg.tla`: multiset of values handed to the averager per destination', 'all pairs of kinds, filters, equal values, segments'),
 ('C22', '`Alg.tla`: image of every point in rationals, frame on everything else', 'scale/affine/functor, explicit accessor'),
 ('C23', '`StepC23`, `QLocal`: tuples in reference order, local_vertex per host', CORE + '; every permutation of shared facets'),
 ('C24', '`QRange`: the distinct sequences seen through all access paths, lookups and bounds; exactly one sequence, equal to the content of the host', 'random histories, all cell types; hosts: mesh, all segments together, each segment, each element'),
 ('C25', '`Io.tla`: parsed file = mesh; contact numbering as maximal connected coplanar sets', 'tets with 1–3 segments incl. patches joined only inside; OpenDX line/tri/tet; id gaps'),
 ('C26', '`Points.tla`: every result as exact vector arithmetic of the integer locations; table of sines and cosines of eighths of a turn', 'quadruples of integer points up to 20 with many zeros, factors ±1..±3, azimuth and pole angle from −9/8 to 2 turns; all pairs of systems, mixed arguments'),
]
try: CAUGHT = json.load(open(V + '/tools/caught.json'))
except Exception: CAUGHT = {}
seeds = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    seeds.append('| %s | %s | %s |' % (i, m['needs'], CAUGHT.get(i, m['property'])))
s = open(V + '/tools/DESIGN.in.md').read()
s = s.replace('@@TABLE@@', '\n'.join('| %s | %s | %s |' % r for r in ROWS)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
