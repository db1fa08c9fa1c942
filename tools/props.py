#!/usr/bin/env python3
"""Generates /verif/properties.jsonl. One place to keep titles/statements in step with the claims."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
R="crates/rerecast/src/"
I="crates/bevy_rerecast_editor_integration/src/"
E="crates/bevy_rerecast_editor/src/"
B="crates/bevy_rerecast_core/src/"
A="crates/avian_rerecast/src/"

p("C01","Navmesh builds are deterministic",
  "Running the navmesh pipeline, or converting meshes and colliders into its input, with the same geometry and configuration always produces the same output. The result never depends on the clock, random numbers, thread scheduling, the process environment, files, memory addresses, hash-map iteration order, or on anything left over from an earlier build in the same process.",
  ["inputs","histories","schedules"],"every input and configuration, every sequence of earlier builds in the process, every scheduling",
  "The reference test runs each stage once on one level; a dependence on an ambient source or on an earlier build shows only on other runs, hosts or histories.",
  [R,A+"collider_to_trimesh.rs",B+"mesh.rs"],
  [("no ambient state in the library",R+"lib.rs")],["outputs of every pipeline stage"])

p("C02","Walkability passes change only walkability, in the direction they promise",
  "The ledge, low-ceiling and low-obstacle filters, agent-radius erosion and volume marking change nothing but the area type of existing spans: no span is created, removed, moved or resized. The ledge filter, the low-ceiling filter and erosion only ever make a span unwalkable; the low-obstacle filter only copies the area of the walkable span just below onto an unwalkable one; volume marking writes only the volume's area and only onto spans that are still walkable.",
  ["inputs","configurations"],"every heightfield, agent parameter and marking volume",
  "The tests compare one dungeon at one parameter set; the volume marker is not run on a level with unwalkable spans inside it and other area ids never occur.",
  [R+"pre_filter.rs",R+"erosion.rs",R+"mark_convex_poly_area.rs"],
  [("filters",R+"pre_filter.rs"),("erosion",R+"erosion.rs"),("volume marking",R+"mark_convex_poly_area.rs")],
  ["Heightfield.allocated_spans","CompactHeightfield.areas"])

p("C03","Neighbour lookups land on the neighbouring column",
  "Whenever a stage follows a span's connection in a direction, the span it reaches is the one stored in the column one step away in exactly that direction, counted from the column the span itself lies in. A neighbour is only looked up after the stage has established that the step stays on the grid, by a bounds check or by the presence of the connection.",
  ["inputs","configurations"],"every grid, column, span, direction and border width",
  "A mixed-up direction or missing bounds check in a rarely taken branch (borders, corners, height sampling) wraps to another row without any panic and is invisible on a level that does not take the branch.",
  [R+"math.rs",R+"compact_heightfield.rs",R+"erosion.rs",R+"watershed_distance_field.rs",R+"watershed_build_regions.rs",R+"contours.rs",R+"detail_mesh.rs",R+"pre_filter.rs"],
  [("direction tables",R+"math.rs"),("connection lookup",R+"compact_heightfield.rs")],["all compact-heightfield stages"])

p("C04","Packed span and contour encodings never bleed into each other",
  "Writing the connection of one direction or the height of a compact span leaves the other directions and the height untouched, and reading back a representable value returns exactly it; an absent connection reads back as absent and is distinct from every storable layer. The flag bits packed beside a region id in region ids and contour vertices overlap neither the id they share the word with nor each other.",
  ["inputs","histories"],"every value, every direction and every order of writes",
  "Two small tests write a handful of values in three of the four directions, and never check that the height survives or use values near the field limits.",
  [R+"compact_span.rs",R+"region.rs",R+"contours.rs"],
  [("packing","crates/rerecast/src/compact_span.rs"),("region flags",R+"region.rs"),("vertex flags",R+"contours.rs")],["CompactSpan accessors","RegionId","RegionVertexId"])

p("C05","Spans are connected only where the agent fits and can climb",
  "A connection between neighbouring spans is recorded only if the vertical overlap of the two open spaces is at least the walkable height, the floor difference is at most the walkable climb in either direction, and the neighbour's layer index can be represented. In every other case the direction is left unconnected, and running out of layers is reported as an error.",
  ["inputs","configurations"],"every pair of neighbouring spans and every agent parameter",
  "One level with one agent size; boundary equality, very tall spans and more than 62 layers do not occur.",
  [R+"compact_heightfield.rs"],[("neighbour connections",R+"compact_heightfield.rs")],["Heightfield::into_compact"])

p("C06","Distance passes cover all eight neighbours with the same metric",
  "Erosion and the region distance field both propagate the distance to the nearest boundary over all eight neighbours, at cost 2 along an axis and 3 along a diagonal, in one forward and one backward sweep that each only read neighbours already visited by that sweep. Distances only ever decrease during propagation, every other span starts at the largest distance, and the propagation cannot wrap around. A span is a boundary, with distance zero, exactly if one of its four neighbours is missing or unwalkable (erosion, which also counts unwalkable spans) or of another area (distance field). Erosion makes exactly those spans unwalkable whose distance is below twice the erosion radius, for every radius.",
  ["inputs"],"every compact heightfield, including unreachable and very large open areas",
  "The reference level exercises common neighbours; saturation and rarely connected diagonals are not exercised.",
  [R+"erosion.rs",R+"watershed_distance_field.rs"],
  [("erosion sweep",R+"erosion.rs"),("distance sweep",R+"watershed_distance_field.rs")],["CompactHeightfield.areas","CompactHeightfield.dist"])

p("C07","World and voxel units are never mixed",
  "Throughout the pipeline, horizontal coordinates are converted between world and grid units with the cell size and vertical ones with the cell height, and quantities of different units (horizontal cells, vertical cells, world lengths) are never added to, subtracted from or compared with each other. This holds for every stage, including ones only reached with borders, marking volumes or detail sampling.",
  ["inputs","configurations"],"every configuration, in particular cell size different from cell height",
  "One reference configuration; exchanged units in a branch it does not reach, or which cancel for its values, stay invisible.",
  [R],[("conversions",R+"rasterize.rs"),("conversions",R+"mark_convex_poly_area.rs"),("conversions",R+"detail_mesh.rs"),("config",R+"config.rs")],["all stages"])

p("C08","Agent settings reach the stages conservatively and unswapped",
  "Voxel settings derive from the matching world settings with safe rounding: agent radius and height round up, step height rounds down, and the border leaves at least the eroded radius plus padding. When a navmesh is built from a configuration, every stage runs exactly once in pipeline order and receives the setting meant for it, and the cell sizes, border and bounds recorded with the heightfield, the contours and the polygon mesh are those they were made with.",
  ["configurations"],"every configuration",
  "The editor build has no tests and the reference test reads voxel settings from a file, so swapped arguments or rounding directions are never observed.",
  [R+"config.rs",E+"build.rs",R+"heightfield.rs"],[("derivation",R+"config.rs"),("pipeline",E+"build.rs")],["NavmeshConfigBuilder::build","editor BuildNavmesh"])

p("C09","Per-polygon data stays aligned with its polygon",
  "In the polygon mesh, corner indices, neighbours, region ids, area types and flags are stored in parallel arrays; whenever a polygon is added, moved or removed, its region and area are added, moved or removed with it, also while border vertices are removed and the hole is filled again; a polygon made from parts keeps a region only if all its parts share it; and the arrays handed out all describe exactly the same number of polygons. Likewise the detail mesh has one flag per triangle and one submesh per polygon whose ranges are exactly what was appended for it.",
  ["inputs"],"every contour set, including ones where border vertices and their polygons are removed and rebuilt",
  "The only level has one area type and no border vertices, so a mismatched area or region is indistinguishable and the removal path never runs.",
  [R+"poly_mesh.rs",R+"detail_mesh.rs"],[("polygon removal",R+"poly_mesh.rs"),("submesh append",R+"detail_mesh.rs")],["PolygonNavmesh","DetailNavmesh"])

p("C10","Walking a polygon visits every edge once, including the closing one",
  "Every computation over the edges of a polygon or contour pairs each vertex with its cyclic predecessor or successor exactly once, so the closing edge between the last and first vertex is included and no pair outside the polygon is used.",
  ["inputs"],"every polygon size and every polygon",
  "The vertex-removal and hole-filling code is not reached by the tests, and a wrong pair often only shifts a result slightly.",
  [R+"poly_mesh.rs",R+"detail_mesh.rs",R+"mark_convex_poly_area.rs",R+"contours.rs",R+"rasterize.rs",R+"math.rs"],
  [("cyclic helpers",R+"math.rs"),("vertex removal",R+"poly_mesh.rs")],["into_polygon_mesh","DetailNavmesh::new","mark_convex_poly_area"])

p("C11","Every loop in a build makes progress",
  "Each pass through any loop of the navmesh pipeline consumes an element of a finite sequence or moves the loop's own exit condition forward, on every path through the loop body. No path returns to the loop head with everything the exit condition depends on unchanged.",
  ["inputs"],"every input and every path through each loop",
  "Tests only take the paths of one level; a path that forgets to advance hangs the build for ever on the first input that reaches it.",
  [R],[("all loops",R)],["all stages"])

p("C12","Exceeded limits are reported as errors",
  "Whenever one of the declared limits is exceeded (columns of the heightfield along an axis, column indices, walkable spans per column and connection layers, vertices of a clipped polygon, region ids, vertices of the polygon mesh, contours that cannot be triangulated) the build stops with the error declared for it, and that error is returned in no other case. The out-of-range value is not stored or used, and an error with data carries the offending value and the true limit.",
  ["inputs","configurations"],"every input large or odd enough to reach a limit",
  "No test reaches any limit or provokes any error.",
  [R],[("error enums",R)],["Result of every stage"])

p("C13","No failure is silently dropped",
  "Every fallible step of the pipeline, the backends, the transmission code and the editor either passes its error on to the caller or reports it; no error value is discarded and no failed step is followed by continuing as if it had succeeded. Two things are no failures: looking up an entity or asset that is not there, and leaving out of a preview a material or vertex attribute that has no transmittable form.",
  ["inputs","fault_sequences"],"every call that can fail and every failure of it",
  "Tests only run successful calls.",
  ["crates/"],[("? propagation","crates/")],["Result-returning calls"])

p("C14","The library contains no unchecked memory access",
  "No input to the library can cause undefined behaviour: all code is safe Rust except for one bit-for-bit conversion between two single-integer id types of identical layout. No unchecked indexing, raw pointer access, uninitialised memory or mutable global exists anywhere in the workspace.",
  ["inputs","programs"],"every input and every caller",
  "Undefined behaviour can pass every test.",
  ["crates/"],[("id conversion",I+"transmission/serialized_mesh.rs")],["whole workspace"])

p("C15","Combining meshes keeps triangles attached to their own vertices",
  "When geometry is appended to geometry, every appended triangle still refers to the vertices it referred to before: its indices are shifted by exactly the number of vertices that were there before the append, and the data per triangle keeps its order. This holds for merging input meshes, for the detail mesh's submeshes and for the editor's preview meshes.",
  ["inputs","histories"],"every sequence of meshes appended",
  "Only one mesh is ever converted in the tests; nothing is appended to a non-empty mesh.",
  [R+"trimesh.rs",R+"detail_mesh.rs",E+"visualization.rs"],[("extend",R+"trimesh.rs"),("submesh append",R+"detail_mesh.rs")],["TriMesh::extend","DetailNavmesh","editor previews"])

p("C16","Input geometry is read triangle by triangle with its own area",
  "Bounds cover every vertex, and every triangle of the input is classified and rasterised exactly once from its own three vertices and its own area type: a triangle becomes walkable only when its own upward normal is within the slope limit, and a too steep triangle keeps the area it had. A triangle is cut at the borders of the grid's rows and columns so that every corner ends up on its own side, and each piece becomes one span, in its own cell of the field, from its lowest point rounded down to its highest point rounded up (clamped to the field, at least one voxel high); cells left without a piece get nothing from it.",
  ["inputs"],"every triangle mesh, slope limit and per-triangle area assignment",
  "The reference level uses a single area type, so a mix-up between triangles' areas is invisible.",
  [R+"trimesh.rs",R+"rasterize.rs",R+"heightfield.rs",R+"math.rs"],[("slope marking",R+"trimesh.rs"),("rasterisation",R+"rasterize.rs")],["TriMesh::mark_walkable_triangles","Heightfield::rasterize_triangles","Heightfield::populate_from_trimesh"])

p("C17","Inserting a span never loses or duplicates a column's other spans",
  "Adding a span to a column keeps every other span of the column that does not touch the new one, replaces all spans that do by one span covering their union, and leaves the column a list in rising order; a merged-away span is unlinked from the column when it is deleted. The merged span takes the higher area only from spans whose top lies within the merge threshold.",
  ["histories","inputs"],"every order of insertions into a column",
  "Unit tests insert up to three spans into a column.",
  [R+"heightfield.rs"],[("span insertion",R+"heightfield.rs")],["Heightfield::rasterize_triangle"])

p("C18","Colliders become the geometry they collide with",
  "Converting a collider yields its own vertices and triangles for every supported shape, with one (unwalkable) area type per triangle; unsupported shapes yield nothing rather than something else. In a compound every part is placed by its own pose and is not affected by the other parts, and only colliders of static bodies become navmesh input: every one that can be converted, with its own world transform.",
  ["inputs"],"every collider shape, compound and body type",
  "The single test checks the vertex count of one cuboid.",
  [A+"collider_to_trimesh.rs",A+"lib.rs"],[("shape match",A+"collider_to_trimesh.rs"),("body filter",A+"lib.rs")],["ToTriMesh::to_trimesh","AvianRerecastPlugin"])

p("C19","Render meshes become navmesh input faithfully or not at all",
  "Converting a render mesh yields exactly its positions, its indices grouped in threes in their original order, and one area per triangle; meshes which are not indexed triangle lists, lack positions or have a partial triangle yield nothing. The mesh backend emits one entry per convertible mesh entity, paired with that entity's own world transform, and the editor applies that transform to every vertex once.",
  ["inputs"],"every mesh and entity set",
  "One star-shaped mesh at the origin is converted in the tests.",
  [B+"mesh.rs",E+"build.rs",E+"get_navmesh_input.rs"],[("conversion",B+"mesh.rs")],["TriMeshFromBevyMesh::from_mesh","Mesh3dNavmeshPlugin"])

p("C20","Backend and build-queue contracts hold",
  "Setting a navmesh backend replaces the previous one, whatever it was, and only that changes the backend; each backend plugin installs its own backend. Each request to generate a navmesh is queued behind all earlier ones together with its own configuration, and the handle returned to the caller is the very handle queued for that request, freshly reserved for it. The plugins always install the queue.",
  ["histories"],"every sequence of backend registrations and generate requests",
  "No tests exist for these crates.",
  [B+"backend.rs",B+"generator.rs",B+"lib.rs"],[("queue",B+"generator.rs"),("backend resource",B+"backend.rs")],["NavmeshGenerator::generate","NavmeshApp::set_navmesh_affector_backend"])

p("C21","Materials arrive in the editor as they were sent",
  "Every property of a standard material that is transmitted to the editor arrives in the same property with the same value, each texture in the slot it came from; alternatives of each enumeration map to themselves in both directions. Nothing that the transmitted form holds is lost, swapped or defaulted.",
  ["inputs"],"every material",
  "The material conversion has no tests.",
  [I+"transmission/serialized_standard_material.rs"],[("field mapping",I+"transmission/serialized_standard_material.rs")],["SerializedStandardMaterial"])

p("C22","Meshes arrive in the editor as they were sent",
  "A transmitted mesh arrives with the same topology, the same indices in the same integer width and every standard vertex attribute under its own identity with its own values and number format. Only attributes without a known identity, and on receipt values in another format than their attribute has, are left out, and leaving one out affects nothing else.",
  ["inputs"],"every mesh: all topologies, index widths, attributes and value formats",
  "One mesh with 32-bit indices and positions is round-tripped.",
  [I+"transmission/serialized_mesh.rs"],[("enum mirrors",I+"transmission/serialized_mesh.rs"),("attribute ids",I+"transmission/serialized_mesh.rs")],["SerializedMesh::from_mesh","SerializedMesh::into_mesh"])

p("C23","Images arrive in the editor as they were sent",
  "A transmitted image arrives with the same pixel data, size, format, mip and sample counts, dimension, usage, sampler and view settings; only debug labels and the list of alternative view formats are dropped.",
  ["inputs"],"every image",
  "The image conversion has no tests.",
  [I+"transmission/serialized_image.rs"],[("field mapping",I+"transmission/serialized_image.rs")],["SerializedImage"])

p("C24","The wire encoding is undone exactly by the decoder",
  "The decoder reverses the encoder's steps in opposite order with the same formats and settings, the encoder finishes the compressed stream before using it, and every field of every transmitted type takes part in both directions. Decoding never succeeds on input that any of its steps rejects.",
  ["inputs"],"every transmitted value and every received text",
  "Encoding and decoding are not tested.",
  [I+"transmission/serialization.rs",I+"brp.rs"],[("codec",I+"transmission/serialization.rs")],["transmission::serialize","transmission::deserialize"])

p("C25","References inside a response point at what they stand for",
  "Every mesh, material and image index in a navmesh-input response is the position of the item converted from the very asset the referring entity or material uses, and lies within the list sent along; an asset used twice is sent once. The editor resolves each index against the list it belongs to and keeps separate lookup tables for meshes, materials and images.",
  ["inputs","histories"],"every set of entities sharing and not sharing assets, including assets that fail to convert",
  "The request handler has no tests.",
  [I+"brp.rs",I+"transmission/serialized_standard_material.rs",E+"get_navmesh_input.rs"],[("index tables",I+"brp.rs"),("lookup",E+"get_navmesh_input.rs")],["BRP response","editor scene"])

p("C26","The navmesh-input request is validated and exports only what is visible",
  "A request with parameters, or made while no backend or asset store exists or while the backend fails, is answered with an error and never with a partial response. A successful response contains every navmesh obstacle the backend reports, and as visuals exactly those entities that are marked for the editor, currently visible and have a loaded mesh; a material that is missing or cannot be sent does not leave the entity out. With the default setting every entity that gets a mesh is marked, and the method is registered under the name the editor asks for.",
  ["inputs","configurations"],"every request and every state of the world",
  "The request handler has no tests.",
  [I+"brp.rs",I+"lib.rs"],[("guards",I+"brp.rs")],["BRP method"])

p("C27","A failed load or build leaves the editor's scene untouched",
  "When fetching, decoding or building fails at any step, the editor keeps the scene and navmesh it had: nothing is despawned, cleared, spawned or replaced before the last step that can fail has succeeded. A successful load replaces the previous scene (obstacle and visual entities) completely. Failures are reported by a handler that does not end the editor.",
  ["fault_sequences"],"every fallible step and every failure of it",
  "The editor has no tests.",
  [E+"get_navmesh_input.rs",E+"build.rs"],[("load",E+"get_navmesh_input.rs"),("build",E+"build.rs")],["editor scene","Navmesh resource"])

p("C28","Data from the other side cannot crash the receiver",
  "Whatever text, bytes or indices the peer sends, decoding it and turning it into meshes, images and materials ends in a value or an error, never in a panic: received numbers are never used as an index, length or divisor without a check, and received absence is never unwrapped.",
  ["inputs"],"every response, including corrupt or hostile ones",
  "No test feeds a malformed response.",
  [I+"transmission/",I+"brp.rs",E+"get_navmesh_input.rs"],[("decoding",I+"transmission/serialization.rs"),("scene rebuild",E+"get_navmesh_input.rs")],["transmission::deserialize","editor load"])

p("C29","Every editor control does what it says",
  "Every layer the editor can show has a checkbox that toggles exactly that layer, a system that shows it when switched on and a system that hides it when switched off, each acting on that layer's own entities. Every event a button raises has a handler installed, and every handler belongs to an event something raises.",
  ["programs","histories"],"every layer, every control and every click sequence",
  "The editor has no tests.",
  [E+"ui.rs",E+"visualization.rs",E+"build.rs",E+"get_navmesh_input.rs",E+"main.rs"],[("wiring",E+"ui.rs"),("systems",E+"visualization.rs")],["editor UI"])

p("C31","Polygons are merged only across a shared edge into a convex polygon",
  "Two polygons of a contour are merged only if they share an edge, the result has no more corners than the configured maximum, and it is strictly convex at both ends of the shared edge; nothing else prevents a merge. Of all such pairs the one with the longest shared edge (on the ground plane) is merged next, and merging goes on until no pair is left. The merged polygon has every corner of both exactly once, in order, and replaces the first of the two.",
  ["inputs","configurations"],"every set of polygons and every corner limit",
  "The comparison test covers one level with one corner limit; which pairs are tried, and the two ends of an edge, differ per input.",
  [R+"poly_mesh.rs"],[("rating a pair","get_poly_merge_value in "+R+"poly_mesh.rs"),("joining","merge_poly_verts in "+R+"poly_mesh.rs"),("search for the best pair","into_polygon_mesh in "+R+"poly_mesh.rs")],["PolygonNavmesh"])
p("C32","Neighbouring polygons are linked mutually across the edge they share",
  "In the polygon mesh, a polygon names another as its neighbour at an edge if and only if the other has that edge too, running the other way, and then the other names it at its own edge: links are mutual and lie in the entry of the corner the edge starts at. Edges without a neighbour stay unlinked; if the mesh has a border, those lying on a side of the tile carry the mark of exactly that side.",
  ["inputs"],"every polygon mesh",
  "The reference level shows one mesh; wrong or one-sided links appear only for particular edge orders, and tiles with a border are compared on one level only.",
  [R+"poly_mesh.rs"],[("adjacency","build_mesh_adjacency in "+R+"poly_mesh.rs"),("border marks","into_polygon_mesh in "+R+"poly_mesh.rs")],["PolygonNavmesh::polygons"])
p("C33","A volume marks exactly the walkable spans inside it",
  "Marking a convex volume gives its area to every walkable span whose floor lies between the volume's lower and upper end (both included, in voxels) and the centre of whose column lies inside the outline by the even-odd rule, and touches no other span: the columns visited cover the outline's bounding box cut to the grid, all spans of a column are visited, every edge of the outline including the closing one takes part in the test, and a volume without corners changes nothing.",
  ["inputs"],"every grid and every volume, also partly or wholly outside the grid",
  "The reference level has a few volumes well inside a square grid; volumes at the border, grids of other shapes and outlines starting at other corners are not tried.",
  [R+"mark_convex_poly_area.rs",R+"math.rs"],[("marking","mark_convex_poly_area in "+R+"mark_convex_poly_area.rs"),("even-odd test","point_in_poly in "+R+"mark_convex_poly_area.rs"),("bounding box","Aabb2d::from_verts in "+R+"math.rs")],["CompactHeightfield::mark_convex_poly_area"])

# ------ properties this family cannot decide here
def na(id,title,statement,over,q,why,files,reason):
    p(id,title,statement,over,q,why,files,[],[])
    NA.append((id,reason))
NA=[]
na("N01","The output equals that of the original Recast","For every input and configuration each stage produces what the original C++ Recast produces.",["inputs","configurations"],"every input and configuration","One level is compared.",[R],
   "equality of numerical results with an external program over all inputs; no structural clause beyond those claimed in C02-C12 is both necessary and visible in the source")
na("N02","Output polygons are convex and simple","Every polygon of the navmesh is convex, simple and counter-clockwise as seen from above.",["inputs"],"every input","One level; convexity is not checked.",[R+"poly_mesh.rs"],
   "depends on the signs of runtime cross products through triangulation and merging; no sound static bound in reach")
na("N03","Regions are disjoint, connected and hole-free","Watershed regions partition the walkable spans and each region is connected.",["inputs"],"every heightfield","One level.",[R+"watershed_build_regions.rs"],
   "a global property of the flood-fill result; needs an inductive invariant over runtime data")
na("N04","Simplified contours stay within the error bound","No simplified contour deviates from the raw one by more than the configured error.",["inputs","configurations"],"every contour and bound","One bound.",[R+"contours.rs"],
   "numerical error bound of an iterative algorithm on runtime geometry")
na("N05","The detail surface stays within the sample error","The detail mesh deviates from the heightfield by no more than the configured maximum at sample points.",["inputs","configurations"],"every input","One configuration.",[R+"detail_mesh.rs"],
   "numerical bound on runtime geometry (the algorithm itself stops at a vertex limit)")
na("N06","Rasterisation covers every voxel a triangle touches","Every voxel touched by a triangle inside the bounds is solid after rasterisation, and no other.",["inputs"],"every triangle","One level.",[R+"rasterize.rs"],
   "floating-point clipping results cannot be bounded statically here")
na("N07","Eroded areas keep the agent clear of walls","Every point still walkable after erosion is at least the agent radius from the nearest obstacle.",["inputs"],"every heightfield and radius","One radius.",[R+"erosion.rs"],
   "metric property of a chamfer approximation over runtime data; the structural part is claimed in C06")
na("N08","No input makes the pipeline panic","For every finite mesh and configuration the pipeline returns a result or an error without panicking or overflowing.",["inputs","configurations"],"every input","One level.",[R],
   "hundreds of index operations whose bounds are data-structure invariants; the decidable parts are claimed in C11, C12 and C28")
na("N09","Every walkable place is reachable on the mesh iff it is in the world","Two points are connected on the navmesh exactly if an agent of the configured size can walk between them.",["inputs","configurations"],"every level and agent","One level, structure only.",[R],
   "end-to-end semantic property of geometry; not visible in the shape of the code")
na("N10","Merging polygons and removing vertices preserves the covered surface","The area covered by polygons is unchanged by merging and by removing vertices.",["inputs"],"every mesh","Vertex removal is not reached.",[R+"poly_mesh.rs"],
   "depends on re-triangulation of runtime geometry; structural parts are claimed in C09-C11")

if __name__=="__main__":
    root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root,"properties.jsonl"),"w") as f:
        for x in P: 
            assert len(x["title"])<=80, x["title"]
            f.write(json.dumps(x)+"\n")
    print(len(P))
