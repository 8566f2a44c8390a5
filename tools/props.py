#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique=None, note=None, na=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [],
                  state=state or [], technique=technique, note=note, na=na, level=level))
M = 'viennagrid/mesh/'
A = 'viennagrid/algorithm/'
TECH = 'TLA+ (TLC): exhaustive small-scope model checking, specification-generated histories replayed into the library, trace validation of every log'

prop('C01', 'Sub-elements are complete, shared and unique',
     'After every history of insertions, erasures, copies and segment insertions, each element of a mesh references exactly the vertices, edges and facets of its reference shape, every one of them being an element of the same mesh, and no two edges and no two facets of a mesh join the same vertices. Inserting an element creates exactly the sub-elements that were missing and reuses those that were present, whatever order its vertices are given in.',
     ['histories', 'inputs', 'configurations'], 'all histories of operations on meshes of lines, triangles, quadrilaterals, tetrahedra and hexahedra',
     'Sharing depends on the order in which elements with common facets arrive, on the permutation of their vertices and on earlier erasures; the tests insert a handful of fixed meshes.',
     [M + 'element_creation.hpp', M + 'mesh.hpp', 'viennagrid/storage/hidden_key_map.hpp', 'viennagrid/topology/hexahedron.hpp', 'viennagrid/topology/simplex.hpp', 'viennagrid/element/element_key.hpp'],
     [('sub-element generation and key lookup', M + 'mesh.hpp: inserter / boundary_element inserter'), ('element keys', 'viennagrid/element/element_key.hpp')],
     ['elements<>(mesh)', 'boundary_elements<>(element)'])
prop('C02', 'Identifiers are unique, stable and never reused',
     'Within a mesh no two elements of one kind have the same identifier; identifiers, points and vertex tuples of existing elements are not changed by inserting others; an identifier given explicitly is the one the element gets, and an automatically assigned one differs from every identifier ever seen at that level of that mesh, including those of erased elements.',
     ['histories', 'inputs'], 'all histories mixing automatic and explicit identifiers, erasures, copies and segment insertions',
     'A collision needs an explicit identifier at or above the next automatic one, or an erasure between two insertions; the tests use either automatic or explicit identifiers, never interleavings.',
     ['viennagrid/storage/id_generator.hpp', 'viennagrid/storage/inserter.hpp', M + 'element_creation.hpp', 'viennagrid/storage/id.hpp'],
     [('id generator', 'viennagrid/storage/id_generator.hpp'), ('inserter', 'viennagrid/storage/inserter.hpp')], ['element.id()'])
prop('C03', 'Co-boundary iteration reflects the current mesh and segment',
     'For every element e and every higher level, iterating the co-boundary of e yields each element of the host that contains e exactly once and nothing else, at every point of a history: queries interleaved with insertions, erasures, copies and segment changes never show stale or missing elements. For a segment only elements of that segment appear.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of queries and mutations on meshes and segments',
     'Results are cached and invalidated by change counters, so a wrong answer needs query-mutate-query sequences; the tests query once after building.',
     [M + 'coboundary_iteration.hpp', M + 'mesh.hpp', M + 'segmentation.hpp'],
     [('change counters and cached co-boundary containers', M + 'coboundary_iteration.hpp')], ['coboundary_elements<>(host, handle)'])
prop('C04', 'Neighbour iteration reflects the current mesh and segment',
     'For every element e and every connector level, iterating the neighbours of e yields exactly the other elements of the same kind in the host that share a connector element with e, each once and never e itself, at every point of a history of insertions, erasures, copies and segment changes. The relation is symmetric.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of queries and mutations on meshes and segments, all connector levels',
     'Cached results and duplicate suppression across several shared connectors need many shapes of adjacency and query-mutate-query sequences; the tests check one fixed mesh.',
     [M + 'neighbor_iteration.hpp', M + 'coboundary_iteration.hpp'],
     [('neighbour containers built from co-boundaries, change counters', M + 'neighbor_iteration.hpp')], ['neighbor_elements<>(host, handle)'])
prop('C05', 'Boundary detection matches the cells actually present',
     'At every point of a history an element is reported on the boundary of a mesh or of a segment exactly if it is, or is part of, a facet of that host which bounds exactly one cell of that host. Facets between two cells are never boundary, and the answer follows insertions, erasures, copies and segment changes.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of boundary queries and mutations, all element levels below the cell',
     'Flags are computed lazily and cached; the tests query a finished mesh once and never after a change.',
     [A + 'boundary.hpp', M + 'mesh.hpp', M + 'segmentation.hpp'],
     [('lazily computed boundary flags with change counter', A + 'boundary.hpp: detail::detect_boundary')], ['is_boundary(host, element)'])
prop('C06', 'Interface detection matches the segments actually present',
     'At every point of a history an element is reported on the interface of two segments if it is, or is part of, a facet that is boundary of both segments, and never if it is not part of a facet that both segments contain and that bounds at least one of them. The answer follows changes of either segment.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of interface queries and segment changes, all ordered pairs of segments',
     'Interface flags are cached per pair of segments; tests build two segments once and query once.',
     [A + 'interface.hpp', A + 'boundary.hpp', M + 'segmentation.hpp'],
     [('interface flags per segment pair with change counters', A + 'interface.hpp')], ['is_interface(seg0, seg1, element)'])
prop('C07', 'Erasing removes exactly the element and what contains it',
     'Erasing elements from a mesh removes precisely the given elements and all elements that contain one of them; every other element keeps its identifier, its vertices in order, its points and its sub-elements, for single erasures and for erasures of a marked set. The mesh stays well-formed for all later operations and queries.',
     ['histories', 'inputs', 'configurations'], 'all histories of insertions and erasures, all targets at all levels, single and multiple targets',
     'Erasure swaps elements inside containers and patches all references; mistakes show only for particular container positions and follow-up operations, of which the tests have two.',
     [M + 'element_deletion.hpp', M + 'mesh.hpp', 'viennagrid/storage/hidden_key_map.hpp'],
     [('marking of referencing elements, swap-and-pop erasure, handle patching', M + 'element_deletion.hpp')], ['erase_element', 'erase_elements', 'mark_erase_elements'])
prop('C08', 'Mesh copies are equal and independent; clear resets',
     'A mesh produced by copy construction or assignment has the same elements with the same identifiers, vertex tuples, sub-elements and points as its source, references only its own elements, and from then on changes to either mesh never affect the other. Clearing a mesh leaves it empty and as usable as a new one; queries after these operations never use data from before.',
     ['histories', 'inputs', 'configurations'], 'all histories over two meshes with copies in both directions, self-assignment and clears between other operations',
     'Aliasing only becomes visible by later mutation of one of the two meshes; the tests copy once and compare sizes.',
     [M + 'mesh.hpp', M + 'mesh_operations.hpp', 'viennagrid/storage/container_collection.hpp'],
     [('copy constructor / assignment with handle fix-up', M + 'mesh.hpp'), ('clear', M + 'mesh.hpp')], ['mesh copy constructor', 'operator=', 'clear(mesh)'])
prop('C10', 'The segment registry is consistent',
     'Every segment of a segmentation has a unique identifier and a unique name under which lookup returns exactly it; creating, getting by identifier or name, renaming and clearing segments change nothing but what was asked for. Renaming to a name used by another segment and creating a segment whose name is taken fail with an exception and leave everything unchanged.',
     ['histories', 'inputs'], 'all histories of creating, looking up, renaming and clearing segments, including identifier-like names',
     'Collisions between default names, explicit identifiers and renames need multi-step histories; the tests create a few segments in order.',
     [M + 'segmentation.hpp'], [('segment id map, name map and id generator', M + 'segmentation.hpp: segmentation')], ['make_segment', 'get_make_segment', 'get_segment', 'set_name', 'clear'])
prop('C11', 'Segment membership is exact and closed',
     'Adding an element to a segment (also by creating it there) makes exactly that element and all its sub-elements members; erasing an element from a segment removes exactly it and the members containing it; other segments and the mesh are unaffected. Iteration over a segment, membership queries, the list of segments of an element and the union over all segments always agree and show no duplicates.',
     ['histories', 'inputs', 'configurations'], 'all histories of adding and erasing at all levels over several overlapping segments',
     'Membership is stored redundantly (views, per-element lists, union view) and diverges only for overlapping segments and repeated add/erase; the tests add once.',
     [M + 'segmentation.hpp'], [('segment views, element-segment mapping, all_elements view', M + 'segmentation.hpp: add, erase')], ['add', 'erase', 'is_in_segment', 'segment_ids', 'elements<>(segment)', 'all_elements'])
prop('C23', 'Sub-elements come in reference order',
     'The vertices of a cell are iterated in the order in which the cell was created, and its edges and facets in the order and with the vertices that the reference shape prescribes for them, no matter whether a sub-element already existed with another vertex order; local_vertex lists the vertices of a sub-element in the order in which its host prescribes them, for every host that shares it. Copies and erasures of other elements preserve this.',
     ['histories', 'inputs', 'configurations'], 'all vertex permutations and insertion orders of lines, triangles, quadrilaterals, tetrahedra, hexahedra',
     'Sub-elements are shared, so the order has to come from the cell and not from the first creator; the tests check one cell of some shapes.',
     ['viennagrid/topology/hexahedron.hpp', 'viennagrid/topology/simplex.hpp', 'viennagrid/topology/quadrilateral.hpp', 'viennagrid/element/element.hpp'],
     [('reference sub-element index tables', 'viennagrid/topology/*.hpp'), ('boundary element layers', 'viennagrid/element/element.hpp')], ['vertices(element)', 'boundary_elements<>(element)'])
exec(open(os.path.join(ROOT, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props2.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'state': p['state'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
NOTE = 'TLC explores the specification exhaustively within small constants and checks its invariants and step relation there; behaviours drawn from it (exhaustive short ones and long random ones) are replayed into drivers compiled from /repo, and every logged step is checked against the step relation by TLC trace validation.'
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    assert len(p['title']) <= 80, p['id']
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                              'technique': p['technique'] or TECH, 'level': p['level'], 'level_note': p['note'] or NOTE})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
