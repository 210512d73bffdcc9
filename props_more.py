def add_more(P, cpp, py):
    E_ = "queso/embedding/"
    Q_ = "queso/quadrature/"
    C_ = "queso/containers/"
    U_ = "queso/utilities/"
    I_ = "queso/io/"

    P("Q08", "Points and boxes are located correctly with respect to the surface",
      "For every closed surface, a point is reported inside exactly if the surface encloses it, also when it shares coordinates with vertices, lies close to the surface or is stored with duplicated vertices; a single ray cast may be inconclusive but is never wrong; a box is reported as cut exactly if the surface passes through its interior and otherwise as inside or outside exactly as its centre is.",
      ["inputs"], "all closed surfaces (non-convex, multi-body, with voids, vertex soups), points and boxes of any size",
      "A ray that grazes an edge or a vertex goes wrong only for particular points; tests sample regular rasters of few models.",
      [E_ + "brep_operator.cpp", E_ + "geometry_query.cpp", E_ + "ray_aabb_primitive.h", E_ + "aabb_tree.cpp"],
      [("ray casting with retries", E_ + "geometry_query.cpp"), ("intersection state of boxes", E_ + "brep_operator.cpp")],
      "Random closed solids x points near vertices, edges and faces x boxes x single rays (also parallel to facets); oracle: winding number by solid angles, separating axes.",
      [cpp("h_geom")])

    P("Q09", "The boundary of a cut domain is a closed surface around exactly the enclosed part of the cell",
      "For every cell cut by a closed surface, the constructed boundary is closed, outward oriented, stays within the cell, encloses exactly the volume of the cell inside the surface, consists only of parts of the surface and of the cell's sides, has at least the requested number of triangles, and its boundary quadrature and membership tests agree with it; no boundary is returned exactly if the enclosed volume fraction is below the minimum.",
      ["inputs", "configurations"], "all closed surfaces, cells of any aspect ratio and position (also aligned with the surface), volume ratios and triangle numbers",
      "The closure of the cell's sides works on sorted edges per side and fails for particular constellations; the tests use a handful of STL files.",
      [E_ + "trimmed_domain.cpp", E_ + "trimmed_domain_on_plane.cpp", E_ + "trimmed_domain.h", E_ + "brep_operator.cpp", C_ + "boundary_integration_point.hpp"],
      [("closing of the six sides", E_ + "trimmed_domain_on_plane.cpp"), ("construction and refinement of the boundary", E_ + "trimmed_domain.cpp")],
      "Random closed solids x random cells; oracle: exact clipped volume and area, winding number, distance to the surface.",
      [cpp("h_geom")])

    P("Q10", "Clipping a triangle or a surface against a box is exact",
      "For every triangle that reaches into a box, the clipped polygon is exactly the part of the triangle inside the box, keeps its orientation, marks exactly the vertices on a side of the box as lying on it, and its triangulation covers it without overlap; a triangle in the plane of a side is dropped; clipping a whole surface yields the area and the normals of its part inside the box.",
      ["inputs"], "all triangles and boxes at scales 1e-2..1e3, including vertices and edges on sides, edges and corners of the box",
      "Degenerate contact (vertex on a side, edge along a side) multiplies into many cases that the tests do not enumerate.",
      [E_ + "clipper.cpp", E_ + "clipper.h", E_ + "polygon.h", E_ + "polygon.cpp", E_ + "brep_operator.cpp"],
      [("half-space clipping per side", E_ + "clipper.cpp"), ("triangulation of the polygon", E_ + "polygon.cpp")],
      "Random and raster-aligned triangles and boxes, random solids and boxes; oracle: independent half-space clipper.",
      [cpp("h_geom")])

    P("Q17", "Spatial search returns exactly the triangles near a box",
      "For every set of triangles and every box, the search tree returns each triangle whose bounding box overlaps the box exactly once and none whose bounding box is apart, the geometric query returns exactly the triangles that overlap the box, and the bounding box of the tree contains exactly the points within the bounds of the surface.",
      ["inputs"], "closed surfaces and soups of 1..400 triangles with shared coordinates, scales 1e-2..1e3",
      "A wrong split or stop of the traversal drops triangles only for particular trees and boxes.",
      [E_ + "aabb_tree.cpp", E_ + "aabb_tree.h", E_ + "geometry_query.cpp", E_ + "aabb_primitive.cpp"],
      [("tree construction and traversal", E_ + "aabb_tree.cpp")],
      "Random meshes and soups x boxes; oracle: brute force over all triangles.",
      [cpp("h_geom")])

    P("Q18", "The overlap test of a box with a triangle or another box is exact",
      "For every box and non-degenerate triangle that do not merely touch, the overlap test answers whether they share a point, a tolerance shrinks the box by that amount, and two boxes are reported to overlap exactly if they do.",
      ["inputs"], "all boxes and triangles at scales 1e-2..1e3, in particular triangles that pass an edge or corner closely",
      "Each of the thirteen separating axes decides alone for some triangles; the tests use few triangles.",
      [E_ + "aabb_primitive.cpp", E_ + "aabb_primitive.h"], [("separating axes", E_ + "aabb_primitive.cpp")],
      "Random boxes and triangles, a quarter near box edges; oracle: independent separating-axis test with normalised axes.",
      [cpp("h_geom")])

    P("Q20", "The octree partitions the cut domain",
      "For every cut cell and refinement range, the octree has exactly the nodes and leafs that follow from splitting all boxes up to the minimum level and cut boxes up to the maximum level while dropping boxes outside, and its points lie inside the box and the material, have positive weights and cover a volume between that of the full and of all kept leafs.",
      ["inputs", "configurations", "histories"], "all cut cells, levels 0..4, orders 0..2, refinement in one or several steps",
      "Loss or duplication of one child depends on the cut; the tests check totals for few cells.",
      [E_ + "octree.cpp", E_ + "octree.h"], [("recursive refinement", E_ + "octree.cpp")],
      "Random closed solids x cells x levels; oracle: brute-force octree with exact box states.",
      [cpp("h_geom")])

    P("Q11", "A condition keeps every part of its surface exactly once, split at the cells",
      "For every surface attached as a condition, the parts inside the grid are kept exactly once: the segments add up to the area and the normals of the surface within each cell, every segment lies within a single cell, segments in active cells refer to exactly that cell, and the reported surface area and coverage agree with the segments.",
      ["inputs", "configurations"], "all closed and open surfaces (parts of solids, flat sheets in planes of the grid, soups, sheets larger than the grid), all grids",
      "Loss or double counting happens for triangles in or next to particular planes; the tests use four surfaces.",
      ["queso/embedded_model.cpp", C_ + "condition.hpp", C_ + "condition_segment.hpp", E_ + "brep_operator.cpp", E_ + "clipper.cpp", C_ + "background_grid.hpp"],
      [("unique clipping per cell", E_ + "brep_operator.cpp"), ("parent element of a segment", "queso/embedded_model.cpp")],
      "Random solids, grids and surfaces; oracle: independent clipping per cell.",
      [cpp("h_cond")])

    P("Q36", "A fictitious domain adds exactly the scaled Gauss points outside of the material",
      "For every model with a positive fictitious-domain factor, full cells keep their rules unchanged, no cell of the regular model is lost, and every cut cell keeps its regular rule and gains exactly those Gauss points of the whole cell that lie outside of the material, with their weights multiplied by the factor.",
      ["inputs", "configurations"], "all closed surfaces, grids, orders and factors in (0,1]",
      "The points outside depend on the cut of every single cell; the tests check totals for one model.",
      ["queso/embedded_model.cpp", E_ + "element_builders.hpp", Q_ + "trimmed_element.hpp", E_ + "trimmed_domain.cpp"],
      [("scaled rule in the fictitious part", E_ + "element_builders.hpp")],
      "Random solids and grids, model built with and without the factor; oracle: tensor Gauss rule and winding number per point.",
      [cpp("h_cond")])

    P("Q29", "The result does not depend on the frame or the storage of the surface",
      "Translating, scaling, mirroring or permuting the axes of surface and grid together, changing the parametric box, reordering or duplicating the stored vertices and triangles, or splitting triangles leaves the set of active cells, the volume and the first moments of every cell unchanged up to round-off.",
      ["inputs", "configurations"], "all closed surfaces and grids, six transformations",
      "Axis- or order-dependent mistakes are consistent with any recorded reference of one orientation.",
      ["queso/embedded_model.cpp", E_ + "brep_operator.cpp", E_ + "flood_fill.cpp", E_ + "trimmed_domain_on_plane.cpp", C_ + "grid_indexer.hpp"],
      [("three directional code paths per plane", E_ + "trimmed_domain_on_plane.cpp"), ("indexing", C_ + "grid_indexer.hpp")],
      "Random solids and grids x random transformation; metamorphic relation between the two models.",
      [cpp("h_cond")])

    P("Q30", "A model is reproducible for every number of threads",
      "Building the same model with any number of threads yields the same active cells, the same points and weights in every cell and the same condition segments as building it serially with the same random numbers; other random numbers change the volume of a cell and of the model at most within the residual.",
      ["schedules", "inputs"], "all models, 1..8 threads, any thread schedule, any seed of the ray directions",
      "Races between cells depend on the schedule; the tests compare sums of a few models.",
      ["queso/embedded_model.cpp", E_ + "brep_operator.cpp", E_ + "flood_fill.cpp", E_ + "geometry_query.cpp", C_ + "background_grid.hpp"],
      [("parallel loop over cells", "queso/embedded_model.cpp"), ("parallel partitions", E_ + "flood_fill.cpp")],
      "Random models built three times (serial, threaded, other entropy); differential comparison.",
      [cpp("h_cond")])

    P("Q12", "The cells tile the background box and every map of indices agrees",
      "For every box and number of cells per direction, the index of a cell, its matrix indices and its position convert into each other without loss, the cells tile the box without gap or overlap in physical and parametric space, and walking to a neighbour in any direction and back ends at the same cell, with the ends of rows, columns and layers reported exactly where the grid ends.",
      ["inputs", "configurations"], "all boxes and all numbers of cells per direction, including 1 and very unequal ones",
      "Mixing up two directions is invisible on cubic grids and shows only for particular cells of unequal ones.",
      [C_ + "grid_indexer.hpp", C_ + "background_grid.hpp"], [("index arithmetic and walking", C_ + "grid_indexer.hpp")],
      "Random grids x cells x walks; oracle: independent index arithmetic.", [cpp("h_grid")])

    P("Q13", "The cell container behaves like a map from cell ids to cells",
      "For every sequence of insertions (serial or threaded), reservations and moves of the container, it counts, iterates and looks up exactly the full and cut cells that were added, the next cell in each direction and the end flags are those of the grid restricted to the stored cells, references stay valid when the container is moved, and adding an id twice is reported as an error that leaves the content unchanged.",
      ["histories"], "all histories of operations on all grids",
      "The state depends on the order of operations; the tests perform a few fixed ones.",
      [C_ + "background_grid.hpp", C_ + "element_core.hpp"], [("look-up table and active-neighbour walk", C_ + "background_grid.hpp")],
      "Random operation sequences; oracle: std::map reference model compared after every step.", [cpp("h_grid")])

    P("Q14", "Local and global coordinates of a cell are mapped consistently",
      "For every cell, mapping a point to the other space and back returns it, the corners of the parametric box map to those of the physical box, the determinant is the ratio of the volumes, global integration points are the mapped local ones with weights scaled by it, and the normals and the integrals over the boundary of a cut cell satisfy the divergence theorem in both spaces.",
      ["inputs", "configurations"], "all boxes (scales 1e-9..1e9 of the ratio of areas), all cut cells",
      "A missing or doubled Jacobian cancels when both spaces coincide, as in most tests.",
      [C_ + "element_core.hpp", C_ + "element_view.hpp", C_ + "cell_domain.hpp", C_ + "trimmed_element.hpp", U_ + "mapping_utilities.hpp", C_ + "boundary_integration_point.hpp"],
      [("affine map", U_ + "mapping_utilities.hpp"), ("scaling of points and normals", C_ + "element_view.hpp")],
      "Random boxes, points, cells and solids; oracle: direct formulas and the divergence theorem.",
      [cpp("h_grid")])

    P("Q15", "Measures of a triangle mesh are exact and refining or appending keeps them",
      "For every triangle mesh, area, volume (serial and threaded, and per direction), bounding box, aspect ratios and quality estimate agree with their definitions, refining yields at least the requested number of triangles and keeps the surface, its orientation and its normals, and appending another mesh or a subset of it adds exactly those triangles.",
      ["inputs", "schedules"], "all closed and open meshes and soups, 1..6 threads",
      "A mistake in one of the directional formulas or in splitting some triangles cancels for symmetric meshes.",
      [U_ + "mesh_utilities.cpp", U_ + "triangle_utilities.hpp", C_ + "triangle_mesh.hpp"],
      [("volume by the divergence theorem", U_ + "mesh_utilities.cpp"), ("refinement", U_ + "mesh_utilities.cpp")],
      "Random meshes; oracle: direct sums over the triangles.", [cpp("h_mesh")])

    P("Q16", "A mesh equals what the history of its edits says",
      "For every sequence of adding vertices and triangles, removing triangles, copying, moving, clearing and appending, the mesh and all its views (whole, subsets, visits with early stop, foreign data) give back exactly what was put in, edges attached to planes refer to the right vertices and normals, and the consistency check rejects a triangle with an invalid vertex.",
      ["histories"], "all histories of edits of meshes and clipped meshes",
      "The state depends on the order of operations; the tests perform a few fixed ones.",
      [C_ + "triangle_mesh.hpp", C_ + "clipped_triangle_mesh.hpp", C_ + "triangle_mesh_view.hpp", C_ + "triangle_proxies.hpp"],
      [("storage of vertices, triangles and normals", C_ + "triangle_mesh.hpp")],
      "Random histories; oracle: plain vectors as reference model.", [cpp("h_mesh")])

    P("Q21", "Surfaces survive being written to and read from STL files",
      "Writing any triangle mesh to an ASCII or binary STL file and reading it back gives the same triangles in the same order and orientation with vertices equal to single precision (binary) or to the printed digits (ASCII), coinciding vertices are merged and distinct ones are not; a file written by another program gives the triangles it describes, whatever its solid name, header text, number format, white space, indentation or line ends.",
      ["inputs"], "all meshes with coordinates of 1e-4..1e5, ASCII and binary, all usual dialects of the format",
      "Dropped digits, a header that starts with 'solid' or a keyword in a name only show on particular files.",
      [I_ + "io_utilities.cpp", I_ + "io_utilities.tpp"], [("reader and writer of both formats", I_ + "io_utilities.cpp")],
      "Random meshes written by the library and by an independent writer with varied dialects; round trip and independent parser.",
      [cpp("h_io")])

    P("Q22", "A bad file is reported as an error",
      "Reading a missing, empty, truncated, extended or otherwise corrupted STL file either throws an exception or, where the file still satisfies the format, returns exactly the triangles it describes; writing to a place that cannot be written to reports failure; neither terminates the program, hangs or touches memory out of bounds, and a mesh with non-finite vertices is never returned.",
      ["inputs", "faults"], "all byte-level corruptions of STL files, unwritable targets; under AddressSanitizer and UBSan as well",
      "The tests read a handful of intact files and one missing file.",
      [I_ + "io_utilities.cpp", I_ + "io_utilities.tpp"], [("parsing loops", I_ + "io_utilities.cpp"), ("buffered binary writer", I_ + "binary_buffer_writer.hpp")],
      "Structured mutation of valid files and injected write faults; oracle: independent strict parser; sanitizers.",
      [cpp("h_io"), cpp("h_io", "asan", None, 0.1)])

    P("Q23", "Exported VTK files contain exactly the model",
      "Every VTK file written for a mesh, the elements, the integration points or the condition segments is a well-formed legacy VTK file (ASCII and big-endian binary alike) whose points, cells, weights and counts are exactly those of the model, with every connectivity index valid.",
      ["inputs", "configurations"], "all meshes and grids with random elements and points, ASCII and binary",
      "The tests compare a few files with stored copies or only check that a file was written.",
      [I_ + "io_utilities.cpp", I_ + "io_utilities.tpp"], [("VTK writers", I_ + "io_utilities.cpp")],
      "Random meshes and cell containers; oracle: independent VTK parser.", [cpp("h_io")])

    P("Q24", "The model info tells the truth about the model",
      "After building any model, from files or from meshes, the model info reports the volume and closedness of the input, the number of full, cut and inactive cells, the number of points per kind of cell, the represented volume and its percentage, and for each condition its id, its area and the percentage of it inside active cells, as recomputed from the model and the input; the files written contain the same data.",
      ["inputs", "configurations"], "all solids, grids and up to two conditions",
      "The info is derived from several sources that agree in the tested cases by construction.",
      ["queso/embedded_model.cpp", "queso/embedded_model.h", I_ + "io_utilities.cpp"], [("collection of the model info", "queso/embedded_model.cpp")],
      "Random models; oracle: recomputation from the elements and exact measures of the surface; independent JSON parser.", [cpp("h_io")])

    P("Q25", "A dictionary is a typed map with a fixed set of keys",
      "For every sequence of accesses, a dictionary accepts a value exactly if the key exists and the type matches (integers also for numbers, never negative ones for indices), returns exactly what was stored last or the default, reports unset, unknown and wrongly typed accesses and missing required values as errors without changing anything, and prints itself as valid JSON with the same content.",
      ["histories"], "all histories of typed and string accesses on all dictionaries",
      "The tests access each key once or twice; precedence of errors and state after failed accesses is not visited.",
      [C_ + "dictionary.hpp", C_ + "data_set.hpp", "queso/includes/register_keys.hpp", I_ + "io_utilities.cpp"], [("variant storage and type checks", C_ + "data_set.hpp"), ("printing", C_ + "dictionary.hpp")],
      "Random histories on all dictionaries; oracle: map with an independent copy of the schema; JSON parser.", [cpp("h_dict")])

    P("Q26", "Settings that cannot work are rejected before anything is built",
      "Creating a model throws if, and only if, a required value is missing or the values contradict the documented rules (number of elements and orders positive, orders within what the rules provide, rule and grid type compatible, boxes finite and of positive extent, residual positive, conditions complete); accepted settings build a model without failing.",
      ["inputs", "configurations"], "all settings",
      "Each combination of rule, order, grid type and box is a case of its own; the tests throw a few.",
      [U_ + "check_dictionary_utilities.hpp", "queso/embedded_model.h", C_ + "dictionary.hpp"], [("check of the settings", U_ + "check_dictionary_utilities.hpp")],
      "Random settings with injected contradictions; oracle: list of rules evaluated independently; accepted settings are built.", [cpp("h_dict")])

    P("Q35", "No input makes the library crash, hang or touch foreign memory",
      "For every surface (closed, open, damaged, self-intersecting, degenerate or empty) and every accepted setting, reading or building a model, adding conditions and patches, writing all files and querying the result ends normally or, for defective input only, with an exception; never with a crash, a hang, an access out of bounds or undefined behaviour; and whatever model results has finite, non-negative weights, points inside their cells and an info that is consistent with its elements.",
      ["inputs", "configurations"], "intact, damaged, random, flat and sheared surfaces x all settings; compiled with optimization and with AddressSanitizer, UBSan and assertions of the standard library",
      "The tests only run intact surfaces without sanitizers; an access out of bounds usually goes unnoticed.",
      ["queso/embedded_model.cpp", "queso/embedded_model.h", E_ + "trimmed_domain.cpp", E_ + "octree.cpp", E_ + "aabb_tree.cpp", Q_ + "trimmed_element.hpp", I_ + "io_utilities.cpp"],
      [("pipeline from the surface to the files", "queso/embedded_model.cpp"), ("tree over the triangles", E_ + "aabb_tree.cpp"), ("octree and point elimination", Q_ + "trimmed_element.hpp")],
      "Random defective and intact surfaces through the whole pipeline; oracle: sanitizers, process status and time, invariants of the result.",
      [cpp("h_safe", scale=0.3), cpp("h_safe", "asan", None, 0.1)],
      assumptions=["Volume ratios below 1e-3 (1e-5 for flat cuts) are not generated: the refinement of the octree grows without bound for thinner slivers."])

    P("Q38", "No data races between the threads of the library",
      "For every model, condition and flood fill, on any number of threads and any schedule of them, no two threads of the library access the same memory without synchronization when at least one of them writes.",
      ["schedules", "inputs"], "2..6 threads, random delays and team sizes, random models and classifications; ThreadSanitizer with an OpenMP runtime of its own",
      "A race rarely changes the result of a test run, and the OpenMP runtime of the compiler hides its synchronization from the detector.",
      ["queso/embedded_model.cpp", E_ + "flood_fill.cpp", C_ + "background_grid.hpp", "queso/utilities/mesh_utilities.cpp"],
      [("parallel loop over the cells", "queso/embedded_model.cpp"), ("partitioned flood fill", E_ + "flood_fill.cpp")],
      "Random models on random teams of threads with injected delays; oracle: happens-before race detection.",
      [cpp("h_race", "tsan")])

    Y_ = "queso/python/"
    P("Q27", "Settings survive the way through JSON and Python",
      "For every content, settings set value by value from Python, written to a JSON file and read back, or read from a JSON file written by hand in any order with defaults left out, contain exactly the same values (numbers to nine digits) and the same conditions in the same order; unknown keys, values of the wrong type and broken files are reported as errors.",
      ["inputs"], "all settings with any strings, numbers, lists and up to three conditions; hand-written files with injected mistakes",
      "The tests read a few fixed files; escaping, number formats, order and overload resolution depend on the values.",
      [Y_ + "scripts/json_io.py", Y_ + "bindings/dictionary_binder_helper.hpp", Y_ + "bindings/add_dictionary_to_python.cpp", I_ + "io_utilities.tpp", C_ + "dictionary.hpp"],
      [("reader of the JSON files", Y_ + "scripts/json_io.py"), ("typed access from Python", Y_ + "bindings/dictionary_binder_helper.hpp")],
      "Random settings built, written, read and compared; hand-written variants and mistakes; oracle: independent copy of the schema.",
      [py("h_settings.py")])

    P("Q28", "The B-spline volume reproduces the geometry of the grid",
      "For every grid, order and kind of knot vector, the B-spline volume maps every parameter of the grid to the point that the affine map between the two boxes gives, its knot vector has one interior knot per cell boundary (open: full multiplicity at the ends, otherwise uniform beyond them), the numbers of control points are elements plus order, and the list and the matrix of control points agree.",
      ["inputs", "configurations"], "all boxes, 1..30 elements and orders 1..6 per direction, both kinds of knot vectors",
      "Accumulated rounding in the ranges of knots and control points adds or drops one for particular numbers only; the tests look at one grid.",
      [Y_ + "scripts/b_spline_volume.py", Y_ + "PyQuESo.py"], [("construction of the splines", Y_ + "scripts/b_spline_volume.py")],
      "Random grids; oracle: independent evaluation by the recursion of Cox and de Boor against the affine map.",
      [py("h_settings.py")])

    P("Q34", "The Python interface shows the model as it is",
      "Everything the Python interface returns about a model, a condition or a mesh (elements, bounds, points, weights, mappings, segments, triangles, normals, areas, volumes, infos and settings) is consistent in itself, with the files written and with the settings and surfaces given, whichever way it is accessed (name, index, iteration).",
      ["inputs", "configurations"], "all solids, grids and up to two conditions; meshes filled by hand or from files",
      "The Python tests sum up weights of fixed models; swapped components or points dropped on the way only show in particular cells.",
      [Y_ + "PyQuESo.py", Y_ + "bindings/add_containers_to_python.cpp", Y_ + "bindings/add_utilities_to_python.cpp", Y_ + "scripts/helper.py"],
      [("bindings of the containers", Y_ + "bindings/add_containers_to_python.cpp"), ("facade", Y_ + "PyQuESo.py")],
      "Random models and meshes driven from Python; oracle: recomputation from the inputs, the settings and the files written.",
      [py("h_front.py")])

    P("Q37", "Kratos is given exactly the embedded model",
      "For every model, the elements handed to Kratos carry all integration points and weights of all elements, the load conditions carry in sum the prescribed traction (with its moments) over exactly the area of the condition, the support conditions lie on all its triangles in the parameter space with the prescribed values and the penalty factor of their condition, ids are unique and consecutive, conditions on boxes act on exactly the nodes inside, and meshes are translated to model parts and back without a change.",
      ["inputs", "configurations"], "all solids, grids and conditions of all types; random nodes, boxes, meshes and ids; Kratos replaced by a recording stand-in",
      "Kratos is not installed where the tests run, so nothing of this interface is tested.",
      ["kratos_interface/weak_bcs.py", "kratos_interface/model_part_utilities.py", "kratos_interface/bounding_box_bcs.py", "kratos_interface/custom_analysis_stage.py", "kratos_interface/kratos_analysis.py"],
      [("loads and supports", "kratos_interface/weak_bcs.py"), ("translation of meshes, elements and conditions", "kratos_interface/model_part_utilities.py")],
      "Random models handed to a recording stand-in for Kratos; oracle: exact forces and moments of the triangles, affine maps, reference of the boxes.",
      [py("h_kratos.py")], assumptions=["The stand-in for Kratos reflects the calls of the interface, not the mechanics of Kratos."])

    P("Q39", "Python objects never outlive what they refer to, and bad indices are errors",
      "Whatever objects a program obtains from a model, mesh, condition or dictionary, in whatever order it forgets their origins, each remains valid and unchanged for as long as it is referenced; and every access with an invalid index, key or name, or to something that was given away, raises an exception and changes nothing.",
      ["histories"], "all histories of obtaining and forgetting objects of all types; extension module under AddressSanitizer",
      "A dangling reference usually still reads the old values; the tests keep the model alive throughout.",
      [Y_ + "bindings/add_containers_to_python.cpp", Y_ + "bindings/add_dictionary_to_python.cpp", Y_ + "bindings/define_python.hpp", Y_ + "PyQuESo.py"],
      [("call policies of the bindings", Y_ + "bindings/add_containers_to_python.cpp"), ("transfer of ownership", Y_ + "bindings/define_python.hpp")],
      "Random histories on a pool of objects; oracle: values at the time of creation, AddressSanitizer.",
      [py("h_front.py")])

    P("Q40", "Only the output directory is replaced",
      "Starting a Python run with output replaces the configured output directory by an empty one and removes nothing else: never the working directory or one of its parents, which are refused, and nothing at all if no output was requested.",
      ["inputs", "configurations"], "relative names of all kinds (dots, trailing separators, parents, spaces), existing and missing; destructive calls recorded by stand-ins",
      "The tests always use a plain name.",
      [Y_ + "PyQuESo.py"], [("preparation of the output directory", Y_ + "PyQuESo.py")],
      "Random names and directory trees; oracle: the recorded calls against the resolved path.",
      [py("h_front.py")])
