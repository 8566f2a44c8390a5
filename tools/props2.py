prop('C12', 'Refinement tiles every cell, conforming and inside its segments',
     'Refining a triangle or tetrahedral mesh by marked edges, marked cells, a hyperplane or uniformly leaves the input untouched and yields a well-formed mesh whose vertices are the input vertices and exactly one new vertex per refined edge. The new cells inside each input cell fill it exactly without overlap, neighbouring cells agree on their common facet, and each new cell belongs to exactly the segments of its parent. Longest-edge completion only adds edges and ends with a longest edge marked in every affected cell.',
     ['inputs', 'histories', 'configurations'], 'all meshes of triangles and tetrahedra, all subsets of marked edges or cells, all vertex orders, repeated refinement, with and without segmentations',
     'There are 64 edge patterns per tetrahedron with choices that depend on edge lengths and vertex order, and conformity is a relation between neighbours; the tests refine two meshes and look at the sizes.',
     [A + 'refine.hpp', A + 'detail/refine_tet.hpp', A + 'detail/refine_tri.hpp'],
     [('pattern tables per number and arrangement of marked edges', A + 'detail/refine_tri.hpp, detail/refine_tet.hpp: element_refinement'), ('edge flags and edge-to-vertex map', A + 'refine.hpp')],
     ['refine', 'cell_refine', 'cell_refine_uniformly', 'hyperplane_refine', 'ensure_longest_edge_refinement'],
     technique='TLA+ (TLC): exhaustive edge subsets and random histories from the specification replayed into the library, every result judged exactly in barycentric coordinates by the specification')
GT = 'TLA+ (TLC): meshes with integer coordinates and queries drawn from the specification, replayed into the library; every real it returns is judged in exact integer arithmetic by the specification'
prop('C15', 'Measures, centroids, circumcenters and vector functions are exact',
     'For every non-degenerate element the volume (length, area, volume) is that of the convex hull of its vertices, independent of the order in which a valid reference numbering lists them; the surface is the sum of its facet measures; the volume and surface of a mesh or segment are the sums over its cells and over its boundary facets; the centroid of a simplex, parallelogram or parallelepiped is its centre of mass, and that of a mesh or segment the volume-weighted mean of its cells; the circumcenter of a line, simplex, rectangle or box is equally far from all its vertices and lies in its plane. Norms, inner and cross products, determinants, spanned volumes, angles, solid angles, orthogonalisation, bounding boxes and normal vectors satisfy their defining identities.',
     ['inputs', 'configurations'], 'all elements with vertices on an integer grid, all reference numberings, line, triangle, quadrilateral, tetrahedral and hexahedral meshes in two and three dimensions, all segments',
     'A wrong vertex in a decomposition, a dropped term or a sign only shows for elements that are neither axis-parallel nor in canonical order; the tests measure a few unit shapes.',
     [A + 'volume.hpp', A + 'surface.hpp', A + 'centroid.hpp', A + 'circumcenter.hpp', A + 'geometry.hpp', A + 'angle.hpp', A + 'spanned_volume.hpp', A + 'norm.hpp', A + 'inner_prod.hpp', A + 'cross_prod.hpp'],
     [('measure per element tag', A + 'volume.hpp, spanned_volume.hpp'), ('sums over cells and boundary facets', A + 'volume.hpp, surface.hpp, centroid.hpp')],
     ['volume', 'surface', 'centroid', 'circumcenter', 'norm', 'inner_prod', 'cross_prod', 'determinant', 'angle', 'solid_angle', 'bounding_box', 'normal_vector'], technique=GT)
prop('C16', 'Distances and closest points are true minima',
     'The distance between a point and an element, between two lines, and between a point, line or segment and the boundary of a mesh or segment is the smallest Euclidean distance of any two of their points; it is symmetric in its arguments, and closest_points returns two points, one of each object, that realise it. This holds wherever the query lies (interior, facet, edge or vertex region) and in whatever order the vertices of the element are listed.',
     ['inputs', 'configurations'], 'all points on a half-integer grid around elements with vertices on an integer grid; all pairs of lines, including parallel, crossing and touching ones',
     'The closest feature switches with the position of the query relative to the element and every region has its own code path; the existing distance test prints mismatches but never fails.',
     [A + 'distance.hpp', A + 'closest_points.hpp'],
     [('region dispatch and projections', A + 'closest_points.hpp'), ('distance from closest points', A + 'distance.hpp')],
     ['distance', 'closest_points', 'boundary_distance', 'closest_points_on_boundary'], technique=GT)
prop('C17', 'Point location agrees with exact geometry',
     'is_inside(element, point) holds for triangles and tetrahedra exactly if the point is a convex combination of the vertices, boundary included, independent of the orientation and the order of the vertices.',
     ['inputs'], 'all triangles in two and three dimensions and all tetrahedra on an integer grid, query points on a half-integer grid inside, outside and exactly on facets, edges and vertices',
     'The answer depends on signs that flip with orientation and on the boundary cases between them; there is one test with a few points of one element.',
     [A + 'inclusion.hpp'], [('barycentric coordinates and sign tests', A + 'inclusion.hpp')], ['is_inside'], technique=GT)
prop('C09', 'Selective copies are isomorphic and merge vertices by tolerance only',
     'Copying a selection of cells or single elements into another mesh leaves the source untouched and keeps everything the destination already held; every copied element reappears with its vertices in the same order, elements that shared a vertex, edge or facet share it again, and nothing else is created. A vertex is merged with one already present exactly if one lies closer than the tolerance, otherwise a new vertex with the same coordinates appears; without a tolerance nothing is merged (make_unique_vertex without an explicit tolerance uses a millionth of the distance of the point from the origin). Copies that carry a segmentation give each copied cell exactly the segments of its original, and copy_segmentation reproduces every segment membership.',
     ['histories', 'inputs', 'configurations'], 'all selections of cells, all tolerances, destinations empty or filled, with and without segmentations, all cell types',
     'It is a relation between two meshes that depends on the order of insertion, on shared vertices and on points close to the tolerance; the tests copy a whole mesh once.',
     [M + 'mesh_operations.hpp', M + 'element_creation.hpp', M + 'segmentation.hpp'],
     [('vertex map from source to destination', M + 'mesh_operations.hpp: vertex_copy_map'), ('geometric uniqueness', M + 'element_creation.hpp: make_unique_vertex'), ('segment transfer', M + 'mesh_operations.hpp: copy, segmentation.hpp: copy_segmentation')],
     ['copy', 'copy_element', 'copy_elements', 'copy_elements_by_handle', 'copy_segmentation', 'make_unique_vertex'],
     technique='TLA+ (TLC): random histories over two meshes from the specification replayed into the library, every copy judged by the existence of an isomorphism in the specification')
AT = 'TLA+ (TLC): random histories from the specification replayed into the library, every result judged by the specification on the logged mesh state'
prop('C19', 'Extracted hulls and seed points represent mesh and segments exactly',
     'extract_boundary replaces the hull mesh by one that holds exactly the boundary elements (facets by default, or the requested kind) of the volume mesh, each once, with the same vertices in the same order and the same points, and no vertex besides theirs. With a segmentation every segment of the volume has a hull segment with the same id that holds exactly the boundary elements of that segment and their vertices; an element on the boundary of two segments is one element in both. extract_seed_points yields exactly one point per facet-connected part of the mesh, or per part of each segment together with the id of the segment, and each is the centroid of a cell of that part.',
     ['histories', 'inputs', 'configurations'], 'all meshes and segmentations reachable through the public operations, hull meshes empty or already filled, triangle, quadrilateral, tetrahedral and hexahedral volumes',
     'Identity of a shared facet across segments, left-overs of an earlier hull and connectivity are global relations over mesh, segmentation and result; no test calls either function.',
     [A + 'extract_boundary.hpp', A + 'extract_seed_points.hpp', A + 'boundary.hpp'],
     [('map from volume facet to hull element across segments', A + 'extract_boundary.hpp'), ('set of unvisited cells and flood fill', A + 'extract_seed_points.hpp')],
     ['extract_boundary', 'extract_seed_points'], technique=AT)
prop('C20', 'What is stored through an accessor or field is what every other one reads',
     'A value written for an element through any accessor or field of a container is the value every accessor, field or dynamic wrapper of that container reads for that element afterwards, whatever is stored for other elements, however identifiers are spread, and whatever elements are added or erased in between. Looking never creates data: find returns null and at throws out_of_range for an element without data (a dense container may hold a default value for elements below the highest one stored); a const field returns its default value instead. A default-constructed accessor or field is invalid, one bound to a container is valid.',
     ['histories', 'inputs', 'configurations'], 'all sequences of reads and writes for vertices, edges, facets and cells over vector, deque and map containers, accessors, fields, their const and dynamic variants, sparse and dense identifiers',
     'Aliasing between elements and silent creation of entries only show when several elements, access paths and growing identifiers interact; the tests use accessors incidentally.',
     ['viennagrid/accessor.hpp'],
     [('element identifier to container position', 'viennagrid/accessor.hpp: *_unpack, dense_container_accessor, std_map_accessor'), ('default values', 'viennagrid/accessor.hpp: dense_container_field, std_map_field')],
     ['make_accessor', 'make_field', 'find', 'at', 'operator()', 'dynamic_accessor_wrapper', 'dynamic_field_wrapper'],
     technique='TLA+ (TLC): random histories of reads and writes from the specification replayed into the library and validated against the data store of the specification')
prop('C21', 'Quantity transfer averages exactly the adjacent accepted sources',
     'quantity_transfer hands to the averager, for every destination element of the mesh or segment that the destination filter accepts and that has an adjacent source accepted by the source filter, the values of exactly those adjacent accepted source elements of the mesh or segment, each once, and stores the result exactly once on that element; elements rejected by the destination filter or outside the segment are not touched. This holds from higher to lower and from lower to higher dimension and for any pair of element kinds.',
     ['inputs', 'histories', 'configurations'], 'all pairs of source and destination dimensions, all meshes and segments, all filters',
     'It depends on the full adjacency relation between two levels and on two filters at once; no test calls it.',
     [A + 'quantity_transfer.hpp'], [('values per destination element', A + 'quantity_transfer.hpp')], ['quantity_transfer'], technique=AT)
prop('C22', 'Geometric transforms move every point and nothing else',
     'scale, affine_transform and geometric_transform apply the given map exactly once to the point of every vertex (scaling about the given centre or the origin, an affine map by its row-major matrix and translation, or any functor) and change nothing else: identifiers, connectivity and segments stay, other meshes are untouched, and with an explicit point accessor only the points behind that accessor move.',
     ['inputs', 'histories', 'configurations'], 'all meshes with erased and re-numbered vertices in one, two and three dimensions, all integer factors, centres, matrices and translations, repeated transforms',
     'It must hold for every vertex, every dimension and asymmetric matrices; the test scales one square and one cube.',
     [A + 'geometric_transform.hpp'], [('points of all vertices', A + 'geometric_transform.hpp')], ['scale', 'affine_transform', 'geometric_transform'], technique=AT)
IO = 'viennagrid/io/'
prop('C13', 'Meshes, segments and data survive VTK files',
     'vtk_writer writes exactly the cells of the mesh, or of each segment of a segmentation with at least two segments, with the vertices they use, in VTK vertex order and with all digits needed, and the quantities added since the last write: every global quantity in every file, every per-segment quantity in the file of its segment, in the order of the points and cells of the file. vtk_reader turns such files, and any ASCII file of the same grammar with arrays in another order, reversed points or unused points, into a mesh with the same points, cells and vertex order, one vertex per point also across segments, segments with the ids of the parts, and the same value for every element: in the accessors registered for a quantity globally or per segment, otherwise in the fields of the reader. Data names are those in the files. A writer or reader used again behaves like a new one.',
     ['histories', 'inputs', 'configurations'], 'all meshes with distinct points and all closed segmentations reachable through the public operations, all cell types in one to three dimensions, all combinations of scalar and vector, global and per-segment quantities and registrations, writer and reader fresh or used before',
     'Correct association of values with elements across renumbering, several files and shared vertices, and left-overs from an earlier use are relations over the whole state; the tests write files nobody reads back, or read fixed files.',
     [IO + 'vtk_writer.hpp', IO + 'vtk_reader.hpp', IO + 'vtk_common.hpp', IO + 'xml_tag.hpp'],
     [('global points, local to global index maps', IO + 'vtk_reader.hpp'), ('used vertex and cell maps per segment, registered quantities', IO + 'vtk_writer.hpp')],
     ['vtk_writer', 'vtk_reader', 'register_vertex_scalar', 'vertex_scalar_field', 'add_scalar_data_on_vertices', 'add_vector_data_on_cells'],
     technique='TLA+ (TLC): random histories from the specification written and read by the library; files (parsed independently) and the mesh, segments and data read back are validated against the specification')
prop('C14', 'Readers build exactly what netgen, bnd, poly and tess files describe',
     'netgen_reader gives the i-th vertex and cell of the file the id i, the coordinates and vertex order of the file, the lower-dimensional elements of the cells and nothing else, and puts every cell into the segment with the number in the file; without a segmentation the mesh is the same; a file that ends early is rejected with an exception. bnd_reader creates one vertex per used point, one triangle per face used by a region and one segment per region holding exactly its faces, whatever the orientation of edges and faces; bnd_helper returns the points, regions, names, materials and contacts of the file. tetgen_poly_reader and neper_tess_reader create the vertices (poly: with the ids in the file), one facet per facet of the file with exactly the lines of its polygons, each line once, with the hole points of the facet, and return exactly the hole and seed points of the file, whatever comments, blank lines or previous content of the output containers.',
     ['inputs', 'histories', 'configurations'], 'all files of these grammars describing meshes reachable through the public operations: any cell type (netgen), numbering base and stride, orientation, number of polygons and holes per facet, truncation point, overload',
     'The files of a test suite sample a few shapes; numbering offsets, shared lines between facets, reversed edges, truncation at every token and left-over output containers need systematic variation.',
     [IO + 'netgen_reader.hpp', IO + 'bnd_reader.hpp', IO + 'tetgen_poly_reader.hpp', IO + 'neper_tess_reader.hpp'],
     [('vertex handles, segments created on demand', IO + 'netgen_reader.hpp'), ('edges, polygons, regions', IO + 'bnd_reader.hpp'), ('vertices and lines by id', IO + 'neper_tess_reader.hpp')],
     ['netgen_reader', 'bnd_reader', 'bnd_helper', 'tetgen_poly_reader', 'neper_tess_reader'],
     technique='TLA+ (TLC): random histories from the specification; files describing the resulting meshes are written by the driver in varied form and read by the library; the meshes read are validated against the specification')
prop('C25', 'vmesh, OpenDX and mphtxt files describe exactly the mesh written',
     'vmesh_writer writes the dimension, the numbers of vertices, cells and segments, and those of each segment. opendx_writer writes every vertex once, every cell by the positions of its vertices in that list and in its vertex order, whatever the ids, and the value of one registered quantity per vertex, else per cell, in the same order. mphtxt_writer (every tetrahedron in one segment) writes every vertex, every tetrahedron with the number of its segment, exactly the triangles on the boundary of a segment, for each the segments on the positive and negative side of its normal (0: none), and numbers the maximal connected sets of coplanar boundary triangles between the same segments consecutively from 0.',
     ['histories', 'inputs', 'configurations'], 'all meshes with distinct points and closed segmentations reachable through the public operations including id gaps, with manifold facets and non-degenerate cells for the boundary part of mphtxt',
     'Renumbering under id gaps, sides of interfaces and contact classes are relations over whole meshes; the tests write files nobody reads.',
     [IO + 'vmesh_writer.hpp', IO + 'opendx_writer.hpp', IO + 'mphtxt_writer.hpp'],
     [('vertex positions, registered quantities', IO + 'opendx_writer.hpp'), ('used triangles, contact index per triangle', IO + 'mphtxt_writer.hpp')],
     ['vmesh_writer', 'opendx_writer', 'mphtxt_writer', 'add_scalar_data_on_vertices'],
     technique='TLA+ (TLC): random histories and lattices from the specification written by the library; files (parsed independently) are validated against the specification')
prop('C18', 'Voronoi interface areas and box volumes are those of the mesh',
     'apply_voronoi on a mesh or closed segment writes, for every edge, the area of the Voronoi interface between its vertices and the volume of the boxes spanned with it, and for every vertex the volume of its Voronoi box, each together with the shares of the cells, and a quantity always equals the sum of its shares. Lines: interface 1, each vertex gets half of each adjacent line. Axis-independent rectangles and boxes: each cell gives every edge and vertex its equal part. Locally Delaunay plane triangle meshes: interface areas are the signed distances of circumcentres; where the circumcentre lies beyond an edge the part outside of the cell belongs to the neighbour, or is left out on the boundary, and box volumes then sum up to the area of the mesh. Tetrahedra: box volume is interface times length over three, half of it for each vertex, consistently per cell; only cells at the edge have a share; on subdivided rectilinear lattices the interfaces are the dual rectangles.',
     ['inputs', 'histories', 'configurations'], 'all meshes and closed segments of non-degenerate cells reachable through the public operations whose edges all have cells: lines, plane triangles with at most two per edge and locally Delaunay, rectangles, boxes, tetrahedra with at most two per facet',
     'Obtuse cells next to each other or to the boundary, shares per cell and segments cut out of a mesh are relations between all quantities; the tests compare the sum of boxes on a few fixed meshes.',
     [A + 'voronoi.hpp'], [('circumcentres per facet, interface polygons per edge, shares per cell', A + 'voronoi.hpp')],
     ['apply_voronoi'], technique=AT)

prop('C24', 'Ranges and iterators agree with the content of their host',
     'For every mesh, segment, segmentation and element and every element kind, all access paths show one and the same sequence: element_range and const_element_range, the named functions (vertices, lines/edges, facets, cells, triangles, ...), copied and converted ranges, iterators with prefix and postfix increment and decrement, backward iteration, operator[], handles from iterators and handle_at, and for_each. That sequence holds every element of the host exactly once; size, empty, front and back agree with it. Searching by identifier, by element or by handle finds exactly the elements of the host and end() otherwise, and id_upper_bound exceeds every identifier in use.',
     ['histories', 'inputs', 'configurations'], 'all histories of creating and erasing elements, copying and clearing meshes, adding to and removing from segments; all hosts, element kinds and cell types',
     'There are several container, view and range types behind one interface, and each diverges only for particular hosts after particular histories; the tests iterate forwards over fresh meshes.',
     ['viennagrid/storage/range.hpp', 'viennagrid/storage/view.hpp', 'viennagrid/storage/hidden_key_map.hpp', 'viennagrid/storage/static_array.hpp', 'viennagrid/storage/container.hpp', 'viennagrid/mesh/mesh.hpp'],
     [('containers with handles', 'viennagrid/storage/container.hpp'), ('views over containers', 'viennagrid/storage/view.hpp'), ('ranges', 'viennagrid/storage/range.hpp, viennagrid/mesh/mesh.hpp')],
     ['elements<>()', 'element_range', 'const_element_range', 'vertices/lines/facets/cells', 'find', 'find_by_handle', 'id_upper_bound', 'for_each'])
prop('C26', 'A point is the same location in every coordinate system',
     'Converting a point between Cartesian, polar, spherical and cylindrical coordinates, by construction, assignment or to_cartesian and through any chain of conversions, keeps its location: (r, phi), (r, theta, phi) and (rho, phi, z) with phi the azimuth, theta the angle from the z axis, and any angle, also negative or beyond a full turn, means what its sine and cosine say. Sum, difference, product with and quotient by a number, negation and the compound assignments of points in any one coordinate system give the location that Cartesian vector arithmetic gives, for factors of either sign, the origin, the axes and every quadrant and octant. norm_1, norm_2, norm_inf, norm with a tag, inner_prod, cross_prod, spanned_volume, signed_spanned_volume and angle give the same value whatever coordinate systems their arguments are given in, mixed ones included. min and max of Cartesian points are componentwise and point_less is lexicographic.',
     ['inputs', 'configurations'], 'all points and factors and angles, every pair of coordinate systems, every operation',
     'Quadrants, the z axis, the origin, negative factors and mixed arguments are separate cases of every function; the tests use a handful of points in the positive octant.',
     ['viennagrid/point.hpp', A + 'norm.hpp', A + 'inner_prod.hpp', A + 'cross_prod.hpp', A + 'spanned_volume.hpp', A + 'angle.hpp'],
     [('coordinate converters and arithmetic per coordinate system', 'viennagrid/point.hpp'), ('dispatch on coordinate systems', A + 'inner_prod.hpp')],
     ['spatial_point', 'to_cartesian', 'operator+ - * /', 'norm', 'inner_prod', 'cross_prod', 'spanned_volume', 'angle', 'point_less'], technique=AT)
