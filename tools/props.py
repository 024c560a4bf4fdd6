import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
D="graphicle/data.py";S="graphicle/select.py";C="graphicle/calculate.py";M="graphicle/matrix.py";T="graphicle/transform.py"
p("P01","Containers hold exactly the data they were given, in every input layout",
 "Building a particle container from any accepted layout (nested sequences, a single row on its own, plain, strided, Fortran-ordered, wider- or narrower-typed or structured arrays with accepted alternative field names in any order, or another container) yields exactly the given values in the documented component order. Length, truthiness, iteration in either direction, membership, positions and counts of elements, per-component access, element-wise equality and the serialized form all report those same values, and rebuilding from any of them reproduces the container. Data whose column count does not fit the container is rejected with an error instead of being reinterpreted.",
 ["inputs","configurations"],"all particle counts including 0 and 1, all seven containers and both composites, all accepted memory layouts, field orders and dtypes, all values representable in the documented types",
 "The tests build a few momenta from one layout; layout, field order, dtype and size combinations are unbounded and none of the composites' round trips are covered.",
 [D],[("field converter: structured-to-column reordering, contiguity, reshape","data.py:_array_field, _reorder_pmu, _reorder_edges, _row_contiguous"),("element iteration / serialize","data.py:*.__iter__, *.serialize"),("composite construction","data.py:ParticleSet.from_numpy, Graphicle.from_numpy")])
p("P02","Selecting particles commutes with every component and keeps records aligned",
 "Subscripting any container or composite event with an integer, slice, integer or boolean list or array, mask or mask group returns exactly what numpy would return for the underlying rows, in that order, with every populated component (identity, momentum, colour, helicity, status, final flag, edge, edge weight) selected identically so rows still describe the same particle. Components that were empty stay empty, selections compose, the source object is unchanged, and keys numpy would refuse (masks of another length, positions out of range) are refused.",
 ["inputs","histories"],"all events (any subset of components populated), all key types and contents including empty, repeated, negative and all/none selections, all chains of selections",
 "No test subscripts a composite; alignment over every key kind and chain cannot be enumerated by examples.",
 [D],[("composite subscripting over non-empty components","data.py:_composite_getitem, _nonempty_dsets"),("per-container subscripting unwrapping masks","data.py:*.__getitem__"),("mask group selection across children","data.py:MaskGroup.__getitem__")])
p("P03","Analysis calls never alter their inputs, and copies are independent",
 "No selection, calculation, matrix, transform, query or conversion routine changes any array, mask, mask tree, event or derived value the caller passed in or previously obtained, whatever the call sequence. A copy of any container, composite or mask tree (its own, a standard deep copy, or one pickled and restored) equals its source and shares no mutable data with it in either direction. What a calculation or selection computes belongs to the caller: altering it alters neither the inputs nor what the same call returns next. The only routines that alter an object are the documented in-place ones (item and data assignment, deletion, in-place drop, in-place arithmetic).",
 ["inputs","histories"],"all events and masks, all public routines in any order, all later mutations of source, copy or result of a documented in-place operation",
 "Each test looks at a return value of one call; absence of side effects on inputs over call histories is never observed.",
 [D,S,C,M,T],[("copy methods","data.py:*.copy, _composite_copy, MaskGroup.copy"),("copies taken before in-place edits","select.py:hierarchy, partition_descendants, clusters; data.py:shift_*, from_lhe_event"),("kernels write only to fresh buffers","calculate.py")])
p("P04","Mask logic is element-wise boolean algebra, with faithful group aggregation",
 "For masks and mask groups, and, or, not, equality and inequality are the element-wise boolean operations on the masks' values, symmetric in mixing masks, groups and boolean arrays of equal length; between masks and arrays so are exclusive or and the in-place forms, which alter the mask they are applied to only. A mask group's value is the and / or of its children's values, recursively with each nested group using its own aggregation, and a group with aggregation 'none' refuses to be reduced. Operands of incompatible length or kind raise an error and never broadcast silently in comparisons.",
 ["inputs"],"all boolean masks of any length, all nesting depths and aggregation combinations, all operand kind pairings",
 "Only two fixed equality examples appear in docstrings; algebraic laws quantify over all masks and nestings.",
 [D],[("bitwise operators and comparison","data.py:MaskArray.__and__/__or__/__invert__, _mask_eq, _mask_neq"),("aggregation","data.py:MaskGroup.data, bitwise_or, bitwise_and")])
p("P05","A mask group behaves as an ordered tree of named masks under any history",
 "Under any sequence of insertions, replacements, deletions, updates, copies, key-list and array subscripts and recursive drops, a mask group reports exactly the names, order, nesting, aggregation setting and boolean contents that an ordered dictionary of boolean arrays would. Flattening keeps every non-latent mask by name ('rise'), the aggregate of each top-level entry ('agg'), or the innermost non-latent masks only ('leaves'). Serializing preserves names and values at all levels so the tree can be rebuilt, and structural equality is true exactly when names, nesting and values agree (and order, when requested).",
 ["histories","inputs"],"all finite operation histories over mask groups of any nesting",
 "One equality test exists; behaviour over operation histories and nested shapes is unbounded.",
 [D,S],[("mapping protocol","data.py:MaskGroup.__setitem__/__getitem__/__delitem__/copy"),("tree traversals","data.py:recursive_drop, flatten, serialize, _maskgroup_equal; select.py:leaf_masks, _leaf_mask_iter")])
p("P06","Kinematic quantities obey their definitions at every scale and direction",
 "For every physical four-momentum the reported components, transverse momentum, azimuth, polar angle, pseudorapidity, rapidity, mass and transverse mass equal their textbook definitions to floating-point accuracy, with the right sign in every direction and quadrant (for rapidity: where the energy exceeds the longitudinal momentum by more than the documented 1e-10 GeV tolerance), and whether or not the source data is writable. Exactly longitudinal momenta give infinite pseudorapidity of the right sign, light-like longitudinal momenta infinite rapidity, and azimuth is reported as not-a-number, with a numerical-stability warning, exactly for those with negligible transverse momentum. Space-like momenta give a negative mass (and transverse mass, where the energy is below the longitudinal momentum) of the right magnitude rather than a failure.",
 ["inputs"],"all finite four-momenta from soft to TeV scales, all directions including beam-parallel, massless, at rest and slightly space-like, any number of particles",
 "Tests check a handful of random massless/massive sets against the same numpy formulas; extreme directions, scales and signs are not sampled.",
 [D,C],[("polar decompositions","data.py:MomentumArray._xy_pol, _zt_pol, phi, theta, eta, pt"),("stable difference of squares and rapidity","calculate.py:_root_diff_two_squares, _rapidity")])
p("P07","Derived kinematics always describe the momenta currently held",
 "At every point of every history of reading derived quantities, replacing a momentum container's data, arithmetic (new, in-place, or into an output container), shifting, slicing, copying and combining, each derived quantity equals the one computed freshly from the components held at that moment. Arithmetic between containers and arrays or scalars acts on the components exactly as it does on the plain number table and never loses or swaps a component, and so do arithmetic and comparisons of codes, colours, helicities, statuses and edges.",
 ["histories"],"all interleavings of reads with mutations through the container (data assignment, in-place and output-directed arithmetic) and aliases",
 "Tests read each attribute once on a fresh object; staleness only appears after a read-modify-read history.",
 [D],[("cached attributes","data.py:MomentumArray cached_property members"),("invalidation on data assignment and ufunc output","data.py:MomentumArray.data setter, _array_ufunc")])
p("P08","Boosts and azimuthal rotations preserve what they must and move what they say",
 "A rapidity shift changes each particle's rapidity by exactly the shift and keeps its mass, transverse momentum and azimuth; an azimuth shift changes only the azimuth, modulo a full turn; shifts add up and invert, scalar or element-wise; one shift per particle of a different number of particles is refused. A pseudorapidity shift is one common longitudinal boost that moves the resultant's pseudorapidity by the requested amount (unless it warns that it did not converge), and in its massless 'experimental' form moves each particle's pseudorapidity by the shift keeping transverse momentum, with undefined energy. All return new containers.",
 ["inputs"],"all momenta with non-zero transverse momentum, all shift sizes, signs and sequences, scalar and per-particle",
 "One test shifts a single random set and checks a massless rapidity; invariants over all momenta, shift sizes and compositions are untested.",
 [D],[("boost / rotation","data.py:shift_rapidity, shift_eta, shift_phi"),("resultant","calculate.py:resultant_coords")])
p("P09","Inter-particle distances are the plane metric, for any pairing and thread count",
 "The distance matrix between two particle sets has one row per particle of the first and one column per particle of the second, each entry being the Euclidean distance in (pseudo)rapidity and wrapped azimuth. Distances of a set to itself are symmetric with zero diagonal and the same whether it is compared with itself or with an equal copy; swapping the arguments transposes the matrix. Two particles along the same beam direction are only required to have a non-negative distance. The values do not depend on the number of worker threads, particle order or memory layout.",
 ["inputs","schedules","configurations"],"all set sizes including empty and one, all momenta including azimuths straddling the branch cut and beam-parallel particles, rapidity or pseudorapidity, all thread counts",
 "Tests compare a few random sets on a single thread against a numpy formula; sizes, wrapping, schedules and the symmetric fast path's edge cases are not explored.",
 [D,C,M],[("distance kernels","calculate.py:_delta_R, _delta_R_symmetric"),("dispatch","data.py:MomentumArray.delta_R; matrix.py:delta_R_aff")])
p("P10","Event shapes are rotation-invariant, bounded, and equal their definitions",
 "Thrust, spherocity and C-parameter of any set of momenta lie in their physical ranges ([1/2,1], [0,1], [0,1]), are unchanged by particle order, overall scale, particles at rest and flipping all momenta, and (C-parameter always, thrust and spherocity at their best over seeds, which also bounds their range) by rotation. The returned axis is a unit vector at which the defining sum takes exactly the returned value, never better than the true extremum, and the result is a function of the momenta and the seed only.",
 ["inputs"],"all final-state momentum sets of two or more particles, all seeds",
 "Tests compare a few random clouds with recorded or reference values; extremality, bounds and invariances range over all events and seeds.",
 [C],[("objectives with gradients","calculate.py:_thrust_with_grad, _spherocity_with_grad"),("optimiser drivers","calculate.py:thrust, spherocity"),("C-parameter kernel","calculate.py:_c_parameter, _three_norm")])
p("P11","Combining momenta conserves four-momentum and yields the resultant's kinematics",
 "Summing momenta, aggregating clusters, and reconstructing combined masses, weighted or not, agree with the component-wise sums: each cluster's aggregate is the sum of its members in the given cluster order, aggregates over a partition add up to the total, and the combined mass is the Minkowski norm of the (weighted) sum or zero when space-like. Resultant coordinates are those of the summed momentum, and the weighted centroid is the transverse-momentum-weighted mean of rapidity and azimuth with azimuth wrapped into one turn.",
 ["inputs"],"all momentum sets, all cluster mask collections (empty, overlapping, partitioning), all weights",
 "Tests check one mass and one aggregation example; conservation over every partition, weighting and layout is not covered.",
 [C,D],[("aggregation","calculate.py:aggregate_momenta, combined_mass, resultant_coords, weighted_centroid"),("numpy reductions over containers","data.py:_array_ufunc")])
p("P12","Jaccard distance is the weighted set distance, and a metric",
 "The Jaccard distance of two masks is the weight of their symmetric difference over the weight of their union: zero exactly for masks that agree wherever weight is non-zero (two empty masks included), one for disjoint non-empty ones, symmetric, bounded by [0,1], and satisfying the triangle inequality for non-negative weights. Masks, groups and boolean arrays are interchangeable arguments, and unit weights equal no weights.",
 ["inputs"],"all pairs and triples of masks of any length, all non-negative weights",
 "Tests compare a few random pairs with scipy; metric laws, empties, groups and weights are unbounded.",
 [C],[("kernel","calculate.py:_jaccard_distance, jaccard_distance")])
p("P13","Clustering coefficients match the neighbourhood graph's closed-triplet ratios",
 "For any particles and radius, the clustering coefficient of each particle is the fraction of pairs of its neighbours (other particles strictly closer than the radius in the rapidity- or pseudorapidity-azimuth plane) that are themselves neighbours, and zero with fewer than two neighbours. Values lie in [0,1], keep particle order, and do not depend on the thread count.",
 ["inputs","schedules","configurations"],"all point clouds and radii, both rapidity definitions, all thread counts",
 "No test covers dependence on radius, order, rapidity choice, degenerate neighbourhoods or threads.",
 [C],[("coefficients kernel","calculate.py:_clust_coeffs, cluster_coeff_distbn")])
p("P14","An edge list and its graph views describe the same graph",
 "For any edge list the reported vertices are exactly the distinct ids, ordered by magnitude; root edges are exactly those whose source has no incoming edge and leaf edges exactly those whose destination has no outgoing edge. The dense and sparse matrices contain, at the relabelled source and destination of each edge, the number of parallel edges (or the sum of their weights, or the data supplied), with vertices numbered from zero in ascending order of id, and building an edge list back from a matrix reproduces its non-zero entries, weights and requested self-loops.",
 ["inputs"],"all edge lists (trees, DAGs, multigraphs, signed ids in any order), all weights, all square matrices",
 "No test touches roots, leaves, sparse or dense views; the relabelling ranges over all signed vertex numberings.",
 [D],[("relabelling and sparse views","data.py:AdjacencyList._edge_relabel, to_sparse, matrix, _sparse_*"),("vertices, roots and leaves","data.py:AdjacencyList.nodes, roots, leaves"),("from_matrix","data.py:AdjacencyList.from_matrix")])
p("P15","Descendant masks are exactly graph reachability",
 "The descendants of a vertex are exactly the edges reachable by following edges forward from it, including those leaving it directly; for a vertex nothing leaves, the edges ending on it. The descendants of an edge are that edge together with everything descending from its end point. Neither depends on the order or numbering of the record, parallel edges, merging paths or depth.",
 ["inputs"],"all DAG edge lists and all vertices and edges in them",
 "Tests do not include any descendant query; reachability over arbitrary graphs cannot be sampled by a fixed event.",
 [S],[("breadth-first traversal","select.py:vertex_descendants, edge_descendants"),("sparse adjacency","data.py:AdjacencyList._sparse_csr")])
p("P16","Hard-process descendants and hierarchy mirror the event's true ancestry",
 "For any event, each intermediate and outgoing hard parton gets one uniquely named mask (by particle name, numbered in record order when repeated) containing itself and exactly its descendants, optionally filtered by particle code with missing required codes rejected. The hierarchy nests every hard parton under its closest hard ancestor and nowhere else, loses none, and gives each parent a 'latent' mask of its own descendants not descended from its nested partons, so that each nested group reproduces its parent's mask. Without intermediates the hierarchy is the flat descendants.",
 ["inputs"],"all generator-style events: any hard process shape (nested decays, repeated species, prompt partons, partons which are final), radiation, copies, merging at hadronisation, record orders, targets and sign options",
 "There are no tests of the selection module; ancestry holds over all event topologies.",
 [S,D],[("hard parton descent","select.py:hard_descendants, _pdgs_to_keys"),("tree construction","select.py:hierarchy, _flat_hierarchy, _hard_parent_matrix, _make_tree"),("hard process query","data.py:StatusArray.hard_mask")])
p("P17","Shared hadrons are assigned to exactly one nearest parton",
 "Partitioning a hierarchy assigns every final particle from a hadronisation vertex shared by several partons to the single incident parton nearest in transverse-momentum-weighted plane distance: it stays in the leaf masks whose partons include that nearest one and leaves all others, while everything else in the tree keeps its structure and contents. Clusters built from an event are flat, contain only final particles, have mutually exclusive leaves, the cluster of each decayed parton being the union of those nested in it, and leaves not in a hard colour singlet keep only particles closer than the radius to their hard parton.",
 ["inputs"],"all generator-style events with mixed-heritage hadronisation, all weighting exponents and radii",
 "There are no tests of the selection module; the assignment depends on joint topology and kinematics.",
 [S,M],[("partition","select.py:partition_descendants, _partition_vertex, _hadron_vtx_parton_iter"),("clusters","select.py:clusters, color_singlets, centroid_prune"),("weighted distance","matrix.py:parton_hadron_distance")])
p("P18","Vertex queries return exactly the matching interaction vertices",
 "Searching an event for vertices by incoming and/or outgoing particle codes returns exactly the ids of the vertices whose incoming codes include all the requested incoming ones and whose outgoing codes include all the requested outgoing ones; asking for nothing is an error. Hadronisation vertices are exactly the distinct source vertices of particles whose status magnitude lies between 80 and 90.",
 ["inputs"],"all events, all code subsets, present and absent",
 "There are no tests of vertex queries; matches quantify over all event graphs and code sets.",
 [S],[("pivot-table search","select.py:find_vertex"),("status range query","select.py:hadron_vertices; data.py:StatusArray.in_range")])
p("P19","Particle code look-ups and masks agree with the particle data table",
 "Every property looked up for a list of particle codes is, element by element and in order, the entry of the particle data table for that code, with masses and widths in GeV, whatever repeats or order. Names of uniquely named particles convert back to the codes they came from, and unknown names are rejected. A code mask selects (whitelist) or removes (blacklist) exactly the particles whose code is among the targets, ignoring sign on both sides unless asked to be sign sensitive.",
 ["inputs"],"all tabulated codes in any multiset and order, all target lists and flag combinations",
 "Tests do not exercise look-ups, name conversion or masks; the table has over a thousand codes and arrays of them are unbounded.",
 [D],[("table look-up with unit conversion","data.py:PdgArray.__get_prop, __get_prop_range, mass, width"),("mask","data.py:PdgArray.mask"),("name conversion","data.py:PdgArray.from_name")])
p("P20","Status queries pick exactly the particles in the requested stage",
 "A status range mask is true exactly where the status (its magnitude unless sign sensitive) lies in the inclusive range, with no upper limit when none is given. The hard-process mask marks as incoming, intermediate, outgoing and diffractive-outgoing exactly the particles whose status magnitude is 21, 22, 23 and 24, for the same particle positions, and as a group their union.",
 ["inputs"],"all status arrays, all range bounds (including equal, reversed and negative) and sign options",
 "No test queries statuses; off-by-one and sign errors show only at particular codes.",
 [D],[("range query","data.py:StatusArray.in_range"),("hard process","data.py:StatusArray.hard_mask, Graphicle.hard_mask")])
p("P21","Jet clustering is the generalised-kT algorithm with exact cuts and ordering",
 "Jets found in any set of particles are disjoint, non-empty, and equal to those of the sequential generalised-kT algorithm with the given radius and exponent using four-momentum recombination. They come in descending transverse momentum; exactly the jets failing the transverse momentum or pseudorapidity cut are dropped, and a limit keeps the leading ones. Invalid cuts, radii and limits are rejected.",
 ["inputs"],"all particle sets, radii, exponents, cuts and limits",
 "No test runs jet clustering; index bookkeeping between jets, order and cuts depends on the data.",
 [S],[("jet finding and mask construction","select.py:fastjet_clusters")])
p("P22","Parton-cluster tagging is an optimal one-to-one assignment",
 "Matching candidates to reference momenta returns one distinct candidate per reference minimising the total cost over the whole set, independent of thread count; a pair's cost is (1 - exp(-dR^2 / (2 var dR))) + (1 - exp(-dpT^2 / (2 var pT))), with dR the distance in true rapidity and azimuth, its variance over the reference's candidates, and the variance of pT over all candidates. Tagging an event names exactly the hard partons of the requested stages that pass the code filters, in record order with repeated names numbered, and maps each to one of the given cluster masks, unaltered, as the optimal assignment of the clusters' summed momenta dictates. Ambiguous filters (both white- and blacklist), empty stages or mis-sized requests are rejected with an error.",
 ["inputs","schedules"],"all parton and cluster sets with at least as many clusters as partons, filters, sign options, stages and thread counts",
 "No test covers tagging; optimality is a statement over all assignments.",
 [S,C],[("cost matrix","calculate.py:_assignment_cost"),("assignment","select.py:arg_closest, monte_carlo_tag, _pdgs_to_keys")])
p("P23","Momentum splitting conserves four-momentum and rotates as specified",
 "A rotation operator about any axis and angle is orthogonal with unit determinant, fixes the axis, turns perpendicular vectors by the angle with right-handed sense, and composes additively. Splitting a momentum gives two children that sum to it, the first having the requested energy fraction and the requested angle about the axis; splitting the hardest of a set changes only that particle, keeps the others in order, and appends the two children last. The default axis is normal to the plane of the hardest and softest particle, and splitting the hardest with a fraction outside of (0, 1/2], or several momenta passed as the one to split, is rejected.",
 ["inputs"],"all angles, axes (including poles and azimuth wrap), energy fractions and momentum sets",
 "Tests check one splitting; group laws and conservation quantify over all rotations and momenta.",
 [T],[("Rodrigues rotation","transform.py:rotation_matrix"),("splitting","transform.py:split_momentum, split_hardest, soft_hard_axis")])
p("P24","Adjacency builders connect exactly the intended neighbours",
 "A cut adjacency connects exactly the pairs strictly below ('max') or above ('min') the cut, carrying the affinity when weighted and zero elsewhere, with self-edges (of weight one) as requested. A nearest-neighbour adjacency gives every particle exactly k outgoing edges to its k nearest others (or, when a self-edge is requested, to itself and its k - 1 nearest others, a particle being nearest to itself), laid out by row or by column as asked and weighted by affinity when asked; a fully connected one has every edge bar self-edges unless requested. The parton-hadron distance is the plane distance times the parton's transverse momentum to the given power.",
 ["inputs"],"all affinity matrices without ties, cuts, k from 1 to all, options and dtypes; all parton/hadron sets and exponents",
 "No test imports the matrix module; orientation and off-by-one faults are only visible on asymmetric matrices and extreme k.",
 [M],[("builders","matrix.py:cut_adj, knn_adj, fc_adj"),("distances","matrix.py:parton_hadron_distance, delta_R_aff")])
p("P25","Pruning, overlap and colour-singlet queries select what they state",
 "Centroid pruning keeps exactly the particles strictly within the radius, in pseudorapidity and wrapped azimuth, of the given centre or else of the resultant of the set, and with a prior mask only particles it already selects, indexed over the full record. The overlap check is true exactly when two masks in the group share a particle. Colour singlets are exactly the pairs and triples of coloured outgoing leaf partons whose colours and anticolours match, and inverted the coloured partons in none of them.",
 ["inputs"],"all momentum sets, radii, centres (including across the azimuth branch cut), prior masks; all mask groups; all colour flows over hard partons",
 "No test covers these selections; boundary, wrap and index alignment faults are data dependent.",
 [S],[("pruning","select.py:centroid_prune"),("overlap","select.py:any_overlap"),("colour singlets","select.py:color_singlets")])
p("P26","Random momenta are physical, isotropic, and reproducible by seed",
 "Randomly sampled momenta have the requested count, energies spread uniformly between zero and the maximum, non-space-like masses not exceeding their energy, and directions uniform over the whole sphere, independent of energy. The massless probability gives the fraction of massless particles (all at one, none at zero), values outside [0,1] are rejected, equal seeds give identical samples and different seeds different ones.",
 ["inputs","configurations"],"all sizes, energy scales, massless probabilities and seeds",
 "Tests use the sampler as a source of inputs but never look at its distribution.",
 [D],[("sampler","data.py:MomentumArray.from_spherical_uniform")])
p("P27","Rendered tables and reprs show the record's true rows and counts",
 "The text and HTML tables of a particle set or event have one column per populated component in the documented order and one row per particle with that particle's values, in order, never mixing values of different particles. Records longer than the display limit show exactly the first and last five particles around one elided row, and the summary line always states the true particle and attribute counts. A printed mask group shows every name of the tree, whole, at its level, whatever the width of the terminal.",
 ["inputs"],"all particle counts (around and beyond the display limit), all subsets of populated components, all nested mask groups",
 "No test renders a table; truncation bugs appear only above the size limit and for particular populated subsets.",
 [D],[("table rendering","data.py:_table_repr, ParticleSet._table_list, Graphicle._table_str"),("mask tree rendering","data.py:MaskGroup.__rich__, __str__")])
p("P28","Events are ingested completely, correctly, and without side effects",
 "Building an event from any object exposing some of the standard event attributes takes each present attribute into its matching component unchanged, leaves absent ones empty, and falls back to the object's 'final' mask when there is no final attribute. Building from a Les Houches record keeps all particle data, marks nothing final, and translates exactly the Les Houches status codes to their generator equivalents, leaving the source object untouched.",
 ["inputs","configurations"],"all subsets of available attributes, layouts and event contents, all Les Houches status codes",
 "Tests have no event-object ingestion; the attribute subsets and status codes form a combinatorial space.",
 [D,"graphicle/base.py"],[("generic ingestion","data.py:Graphicle.from_event"),("Les Houches ingestion","data.py:ParticleSet.from_lhe_event")])
p("P29","Compiled kernels stay in bounds and are schedule- and thread-independent",
 "For every valid input the compiled numerical routines touch no memory outside their arguments and results, whatever the sizes, strides and thread count. Their results are the same with one or many worker threads (of a thread-safe threading layer), when invoked concurrently from several threads of the caller, and (except for the thrust and spherocity optima) when run uncompiled. Arrays obtained from a container stay valid, and keep their values, when its data is later replaced or it is dropped. The caller's global worker-thread setting is the same after every call, including calls that fail.",
 ["schedules","inputs","configurations","fault_sequences"],"all input sizes including empty, all thread counts, concurrent callers, failing calls",
 "Tests call the kernels once, on one thread, with bounds checking compiled out; out-of-bounds accesses and races do not change their results visibly.",
 [C,D],[("compiled kernels","calculate.py: numba njit / vectorize functions"),("thread scope","calculate.py:_thread_scope"),("dispatch","data.py:MomentumArray.delta_R; select.py:arg_closest")])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
