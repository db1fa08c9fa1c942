TECH['C01'] = ('call-graph effect analysis on MIR', 'Every function of the library crates and the editor build step is checked, on the type-checked MIR, against a list of ambient sources; sound up to the callees of external crates being what their names say.')
TECH['C14'] = ('unsafe-operation effect analysis on MIR', 'Every unsafe operation in every workspace crate is listed from MIR and classified; exhaustive over the repository, external crates are trusted.')
TECH['C02'] = ('store-effect analysis on an SSA value graph of inlined MIR', 'Every escaping write of the five passes is enumerated and its value and guard decided symbolically; exhaustive over all paths of the code, integers treated as unbounded.')
TECH['C03'] = ('inductive column analysis on an SSA value graph of inlined MIR', 'Every expression that follows a connection is found and proved to add the connection to the column one step away; all inputs, integers treated as unbounded.')
TECH['C04'] = ('bit-level abstract evaluation with decision diagrams', 'Read-after-write of every slot pair is decided for all words and values, exactly.')
TECH['C05'] = ('guard-formula analysis on an SSA value graph of inlined MIR', 'The condition and operands of every recorded connection are decided symbolically for all inputs; heights are saturating bytes as stored.')
TECH['C13'] = ('error-flow analysis on an SSA value graph of MIR', 'Every call returning a Result in every workspace function is followed along its failing branch to the end of the function; exhaustive over calls, an Option-typed absence is not an error.')
TECH['C06'] = ('write classification on an SSA value graph of inlined MIR, with exhaustive case walk of the boundary loop', 'Every write to the distance arrays is classified; offsets and costs follow from connections symbolically, the boundary rule is decided for all 81 neighbour combinations; distances below saturation.')
TECH['C12'] = ('comparison of return conditions as formulas on an SSA value graph, with interval analysis', 'Exhaustive over the seven functions that declare a limit; conditions compared as Boolean formulas over linear integer atoms; polygon-count errors (unreachable by construction) are not covered.')
TECH['C28'] = ('panic-obligation analysis on an SSA value graph of inlined MIR', 'Every index, slice, unwrap, panic, division, overflowing arithmetic and panicking library call in the receiving code is an obligation discharged by path facts; library internals (bincode, flate2, base64, bevy) trusted.')
TECH['C21'] = ('composition of the two conversions on an SSA value graph of inlined MIR', 'Both conversions are evaluated field by field and alternative by alternative and composed; exhaustive over the fields of both types and over every enum alternative.')
TECH['C22'] = ('composition of the two conversions on an SSA value graph of inlined MIR', 'Topology, indices, identities and all 28 value formats are composed alternative by alternative; the conditions under which an attribute is left out are compared with the permitted ones; bevy_mesh itself is trusted.')
TECH['C23'] = ('composition of the two conversions on an SSA value graph of inlined MIR', 'Every field of the received image and its descriptions is composed with the sending side, alternative by alternative.')
TECH['C24'] = ('step-chain comparison of encoder and decoder, and composition of generated (de)serializers, on an SSA value graph of MIR', 'The codec is followed as a chain of library steps with their constants; for each of the serializable types and alternatives the generated writer and reader are composed. The serde data format crates are trusted.')
TECH['C15'] = ('append-sequence analysis on an SSA value graph of inlined MIR', 'Every list that receives geometry is described as a sequence of appends; positions, index shifts and counts are compared symbolically for all lengths. Loops over iterators are understood through models of the standard adaptors.')
TECH['C18'] = ('variant-by-variant evaluation and list analysis on an SSA value graph of inlined MIR', 'Each of the shape variants, the compound loop and the backend query are evaluated symbolically for all inputs; the tessellation routines of parry and the math of glam are trusted.')
TECH['C19'] = ('list and stream analysis on an SSA value graph of inlined MIR', 'The converted lists, the exact condition of conversion, the backend query and the gathering loop of the editor are decided symbolically for all meshes and entity sets; bevy and glam are trusted.')
TECH['C20'] = ('effect and argument-flow analysis on an SSA value graph of inlined MIR', 'Every effectful call of the registering and queueing functions is compared with its permitted form, and every other operation on the two resources in any crate is enumerated; what bevy does with them is trusted.')
TECH['C08'] = ('formula comparison and backward value-chain analysis on an SSA value graph of inlined MIR', 'Each derived setting is compared as a formula over reals; the stage chain of the editor build and of populate_from_trimesh is followed backward through the values, so order, multiplicity and every argument are decided for all inputs.')
TECH['C16'] = ('loop summarisation and formula comparison on an SSA value graph of inlined MIR', 'Bounds, slope marking, both rasterising loops, the cell ranges, clipping planes, skipped cells and span extents are compared as formulas over reals; clipping is decided for every combination of sides of a corner and the one before. Insertion of the span is C17; rounding of floats is not modelled.')
TECH['C09'] = ('parallel-array effect analysis on an SSA value graph of inlined MIR', 'Every write of a member of a group of parallel arrays is matched with its counterparts (same slot, same condition, same source), temporary arrays included, and the lengths handed out are compared as formulas, for all inputs; where the merging helper puts the merged corners is not judged.')
TECH['C10'] = ('value-graph dataflow over MIR: recognition of cyclic walks (remainder, trailing index, wrapped choice) and proof that start, bound, wrap-around and modulus agree', 'every walk over the corners of a polygon or contour, in each function that has one')
TECH['C11'] = ('interprocedural loop-progress analysis over MIR value graphs: ranking arguments from exit conditions, worklist marking, bounded growth', 'every loop of the pipeline crate, for every combination of cases of every way back to its head; that a linked list of spans ends is taken from C17, that a marked cell is not unmarked again is not proved')
TECH['C17'] = ('typed-case dataflow over the column walk on an SSA value graph of inlined MIR: every combination of cases of one step is enumerated and its effect on links, slots and the span being inserted compared with what the relative position of the two spans calls for', 'the whole column walk of span insertion, for every relative position of the new and an existing span; that the slot map hands out fresh keys and keeps other slots is an assumption about the slotmap crate')
TECH['C27'] = ('effect analysis: execution conditions of world-changing calls against conditions of failing returns, on an SSA value graph of inlined MIR', 'every handler of the editor that returns a Result; the meaning of the Bevy calls (despawn, spawn, insert_resource, Query iteration) is assumed; a panic inside Bevy or ureq is not modelled')
TECH['C26'] = ('guard-implication dataflow over an SSA value graph of inlined MIR, with query-iterator closures opened up as loops; query filters read from types', 'the whole request handler, its registration and the marking observer, for every request and world; what Bevy queries, asset stores and observers do is assumed from their signatures')
TECH['C25'] = ('interner-discipline dataflow on an SSA value graph of inlined MIR: table entries are paired with list items by equal position values and equivalent execution conditions', 'all handle/index tables of the request handler, the material conversion and the editor load, for every set of entities and assets; what HashMap::get/insert and Assets::get/add do is assumed')
TECH['C29'] = ("truth-table evaluation of the systems' run conditions and effect analysis of their bodies on value graphs of inlined MIR; call-site query over every widget, observer, trigger, system and plugin registration",
  "complete for the wiring (every layer, every assignment of the run-condition atoms, every registration site); that Bevy runs a registered system when its condition holds and an observer when its event is raised is assumed")
TECH['C31'] = ('formula comparison of merge conditions on an SSA value graph of inlined MIR; exhaustive evaluation over all orderings of the corner numbers an edge test compares; loop summaries of the search and the join', 'the decision for a pair, the search over all pairs and the join, for all inputs; overflow of the squared length is not modelled; that merged-away slots are refilled is C09')
TECH['C32'] = ('value-graph dataflow over MIR: record, chain and link stores are compared with each other as formulas (mirror images), guards by equivalence', 'the whole adjacency pass and the marking of tile borders, for all meshes; meshes in which more than two polygons share an edge are linked pairwise in order of appearance, as in the original')
TECH['C07'] = ('dimension inference (linear unification of units over an SSA value graph of inlined MIR) with declared units for cell sizes, bounds, and stage inputs and outputs', 'all stages from configuration to detail mesh; horizontal cells are plain numbers, so mixing them with counts is not seen, and multiplying by a wrong factor of the same unit is not a unit error')
TECH['C33'] = ('value-graph dataflow over MIR: loop ranges traced to folds over the corners, the marking guard and the toggle condition compared with their specification by formula equivalence', 'the whole marking of volumes, for all grids and volumes; float rounding is not modelled beyond the order of operations being kept up to algebra')
