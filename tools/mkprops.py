"""Writes /verif/properties.jsonl (kept as code so that the lines stay well-formed)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop('C01', 'Base maps form a group acting on points, times, cubes and cube numbers',
 'For base maps of one dimension, applying a product to a point, vector, time, sub-cube or cube number equals applying the right factor and then the left one, with each single action the documented signed permutation / reversal. The inverse is two-sided, integer powers (positive, zero, negative) are repeated products, identity, time reversal and conjugation mean what they say. No result depends on which maps were created, multiplied or inverted earlier in the process.',
 ['inputs', 'histories'], 'every dimension, every pair/triple of base maps, every point/cube/time, every integer exponent, every earlier sequence of base-map operations in the process',
 'Tests try inverses for dim 2..5 and two literal products; powers other than -1, the cube/time/vector actions and the object, product and inverse caches are never compared with the definition for arbitrary maps or histories.',
 ['peano/base_maps.py'],
 [('product of signed permutations', 'BaseMap.__mul__'), ('inverse', 'BaseMap.get_inverse'), ('powers', 'BaseMap.__pow__'), ('actions', 'BaseMap.apply_x/apply_t/apply_vec/apply_cube/apply_cube_start/apply_cnum'), ('object interning', 'BaseMap.__new__')],
 [('_obj_cache/_mul_cache/_inv_cache', 'memoised objects, products, inverses', 'BaseMap')], ['BaseMap operators'])

prop('C02', 'Base map enumerations are complete and free of repetitions',
 'Enumerating the base maps of a dimension yields every signed coordinate permutation with every requested time direction exactly once. Enumerating the maps that carry one rational point to another yields exactly the isometries without time reversal that do so, each once, and nothing when there is none.',
 ['inputs'], 'every dimension, every time-direction filter, every pair of rational points',
 'One test compares four literal point pairs; enumeration of all base maps is only used, never checked.',
 ['peano/base_maps.py'],
 [('permutations x flips', 'BaseMap.gen_base_maps'), ('coordinate grouping', 'BaseMap.gen_constraint_fast')], (), ['gen_base_maps', 'gen_constraint_fast'])

prop('C03', 'Text notations round-trip and mean what the documentation says',
 'A base map, a spec (pattern number below ten), a full prototype whose consecutive cubes are neighbours, and a point or gate pair written as text and parsed back give an equal object. Parsing follows the documented meaning: letters are images of basis vectors, upper case negates, a trailing tilde reverses time, a parsed chain code steps from cube to cube by the listed shifts and is normalised into the grid.',
 ['inputs'], 'every base map of dimension 1..6 (the notation stops there), every pattern number 0..9, every neighbour-step prototype, every rational point',
 'Tests parse one base map literal and the zoo; nothing is printed and parsed back.',
 ['peano/base_maps.py', 'peano/paths.py', 'peano/subsets.py'],
 [('letters', 'BaseMap.parse/__str__'), ('pattern digit', 'Spec.parse/__str__'), ('chain code', 'Proto.parse/__str__'), ('points and gates', 'Point.parse/__str__, Link.parse_gates/__str__')])

prop('C04', 'Nested addresses, periodic expansions and ratios are computed exactly',
 'The integer position and integer time of a nested fraction are the base-div and base-div^dim values of its cubes and cube numbers, most significant first. The value of an eventually periodic digit sequence is the exact rational sum of its series. The l1, l2, squared l2 and linf ratios are exactly norm(dx)^dim/dt (squared for squared l2).',
 ['inputs'], 'every dimension, base, depth, digit sequence, rational vector and positive time',
 'One literal periodic sum is tested; the other functions are only exercised through zoo dilations.',
 ['peano/utils.py', 'peano/dilation.py'],
 [('positional accumulation', 'get_int_cube_with_cache, get_int_time_with_cache'), ('periodic sum', 'get_periodic_sum'), ('ratios', 'ratio_l1, ratio_l2, ratio_l2_squared, ratio_linf')])

prop('C05', 'Isometries, pattern selection and time reversal act correctly on curves',
 'Applying a base map or spec to a (fully or partly specified) curve gives the curve whose cubes, visiting order and fractions at every depth are the images of the original ones, with the selected pattern; products act as composition and time reversal applied twice is neutral. The original curve is never changed. Two fully specified curves compare equal exactly when their patterns and selected pattern are equal, and equal curves have equal hashes.',
 ['inputs'], 'every curve (any dimension, div, multiplicity, partly undefined specs), every base map and spec, every depth',
 'Tests use zoo curves and check only proto/specs after maps with unit product; curve equality was not effective, so composition tests were vacuous.',
 ['peano/curves.py', 'peano/paths.py', 'peano/base_maps.py'],
 [('conjugation of specs', 'FuzzyCurve._apply_cube_map'), ('action', 'FuzzyCurve.__rmul__, __invert__'), ('prototype image', 'Proto.__rmul__, Pattern.__invert__'), ('spec products', 'Spec.__mul__/__rmul__'), ('equality', 'Curve.__eq__/__hash__')])

prop('C06', 'Subdivisions and deep fractions describe the same curve',
 'The spec reported for a nested sequence of cube numbers is the one whose action on the curve gives that fraction. The k-th subdivision visits exactly the sub-cubes that the original curve visits at depth k+1, in the same order, with the same orientations and pattern numbers, for every pattern.',
 ['inputs'], 'every fully specified curve, every pattern, every depth and address, every number of subdivisions',
 'Tests only check that subdivisions of zoo curves are continuous; the comparison of subdivisions relied on an equality that was always true.',
 ['peano/curves.py'],
 [('spec composition', 'FuzzyCurve._compose_specs, get_deep_spec'), ('subdivision', 'Curve.get_subdivision')])

prop('C07', 'Entrance, exit and face-touch moments are exact',
 'The reported entrance and exit are the exact limits of the nested first and last cubes of the selected pattern. For every face of the cube the reported first (last) moment is the exact smallest (largest) time at which the curve touches that face, and the reported point is the curve point at that moment and lies on that face.',
 ['inputs'], 'every curve (partly specified curves as far as defined), pattern, face, first or last',
 'Tests compare the zoo curves with published gates and moments only.',
 ['peano/curves.py', 'peano/utils.py'],
 [('cycle detection on specs', 'FuzzyCurve._get_cube_limit, get_face_moment'), ('first/last touching cube', 'FuzzyCurve._get_face_cnum'), ('limits', '_get_limit_point, get_periodic_sum')])

prop('C08', 'Junction enumeration is complete, minimal-depth and standardised',
 'For a fully specified curve, the regular junctions enumerated are, up to isometry and time reversal of the pair, exactly the pairs of time-consecutive fractions that occur in its subdivisions, over all depths, and no standard form is listed twice. The depth recorded for a junction (the smallest, when the pair and its time reversal are both listed) is the smallest subdivision depth at which it occurs; the curve depth is the maximum recorded depth. A standardised junction describes the same relative position as the pair it came from, has ordered pattern numbers, identity orientation (up to time) first, and time shift one.',
 ['inputs'], 'every fully specified curve and every subdivision depth',
 'Tests check continuity of zoo junctions and two known counts/depths; completeness over all depths and minimality of depth are not tested.',
 ['peano/curves.py'],
 [('base junctions', '_get_base_junction, Curve._gen_base_junctions'), ('derivative', '_get_derived_junction'), ('closure', '_gen_junctions_from_base'), ('standard form', 'RegularJunction.__init__')])

prop('C09', 'Junction templates characterise which curves have a junction',
 'For a fuzzy curve, a fully specified curve compatible with it has a given regular junction if and only if it agrees with at least one of the templates listed for that junction; junctions that no compatible curve has are not listed.',
 ['inputs', 'configurations'], 'every fuzzy curve, every compatible curve, every junction',
 'Tests enumerate three fuzzy curves, two of them without time reversal.',
 ['peano/curves.py'],
 [('templates', 'FuzzyCurve.get_junction_templates')])

prop('C10', 'A fuzzy curve stands for exactly the gate-compatible curves',
 'The specs allowed in a fraction of a fuzzy curve built from pointed paths are exactly the (base map, pattern) choices from the given group that carry the pattern gates to the gates of that fraction, each once; this stays true after isometries and time reversal, and fixing a spec leaves exactly that one. Enumerating or counting the possible curves gives each independent combination once, specifying a disallowed spec is refused, and an example curve is one of the possible curves.',
 ['inputs'], 'every tuple of pointed paths, every (sub)group of base maps, every isometry applied to the fuzzy curve, every sequence of specifications',
 'Tests count the curves of two families and check continuity of the Hilbert family only.',
 ['peano/curves.py'],
 [('standard links and stabilisers', 'PathFuzzyCurve.init_from_paths, gen_allowed_specs'), ('carry-over under isometry', 'PathFuzzyCurve._apply_cube_map, __invert__, _changed'), ('specification', 'FuzzyCurve.specify, _specify_allowed, gen_possible_curves, count_possible_curves, get_curve_example')])

prop('C11', 'The SAT encoding is exact',
 'After any sequence of forbidding steps the encoding of a fuzzy curve is satisfiable if and only if some compatible curve avoids every forbidden (junction, partial curve) combination, and the curve read back from a model is such a curve. Forbidding a combination in a copy never affects the encoding it was copied from or other copies.',
 ['inputs', 'histories'], 'every fuzzy curve, every sequence of forbid/copy/solve steps',
 'Tests forbid single configurations for fully specified curves, where only one model exists.',
 ['peano/_sat_adapters.py'],
 [('exactly-one clauses', '_make_only'), ('definition clauses', '_make_curve_var, _make_junc_var'), ('forbid', 'add_forbid_clause, _append_clause'), ('copy', '_copy_from'), ('decode', 'get_model_curve')])

prop('C12', 'The bounded-item queue never loses, invents or misorders items',
 'After any history of pushes, pops, threshold raises, bad-item collections and copies, each pushed item is in exactly one place: active, handed out, collected as bad, or discarded because its upper bound does not exceed the good threshold. The top item is an active item with the largest upper bound, the recorded largest-lower-bound item has the largest lower bound ever pushed, the good threshold cannot be lowered, and a copy with thresholds equals pushing the same items into a fresh queue.',
 ['histories', 'inputs'], 'every sequence of operations, every item bounds and thresholds (including equal values)',
 'There are no tests of the queue.',
 ['peano/_bounded_items_heap.py'],
 [('classification', 'BoundedItemsHeap.push'), ('cleanup', 'update_good_threshold'), ('heap order', 'heappush/heappop with negated upper bound'), ('copy', 'copy_and_cleanup')],
 [('_heap, _bad_items, thresholds', 'queue state', 'BoundedItemsHeap')])

prop('C13', 'Bounds for a pair of fractions enclose their true maximal ratio',
 'For any junction and any two fractions (balanced depths, first ending before second begins), the computed upper bound is at least, and the lower bound at most, the supremum of ratio(distance, time gap) over point pairs of the two fractions, for any ratio monotone in coordinates and time; with curve points given, the lower bound is the ratio attained at the reported pair. Dividing a pair yields, for each admissible spec of the divided fraction, exactly the pairs with each sub-fraction in its true place.',
 ['inputs'], 'every junction, pair of positions, depth, dimension, div, curve, monotone ratio function',
 'Only end results of zoo dilation estimates are tested, at one tolerance.',
 ['peano/dilation.py', 'peano/utils.py'],
 [('box and time extents', 'Estimator._get_pos_bounds'), ('rotation of points', 'Estimator._get_bounds'), ('division', '_CurvePiece.divide, _CurvePiecePair.divide_balanced')])

prop('C14', 'Dilation estimates of a regular curve bracket the true dilation',
 'For a continuous curve and a ratio invariant under cube symmetries, the returned lower and upper bounds always enclose the true dilation, whatever iteration, depth or face-moment options are used, and satisfy the relative tolerance unless the iteration or depth limit stopped the run. The reported extremal pair consists of two points of the curve whose ratio is exactly the lower bound. Re-using an estimator for other curves gives the same answers as a fresh one.',
 ['inputs', 'histories', 'configurations'], 'every regular curve, ratio, tolerance, iteration/depth limit and estimator history',
 'Tests cover the zoo with known dilations at tolerance 1e-5.',
 ['peano/dilation.py', 'peano/_bounded_items_heap.py'],
 [('initial pairs', 'Estimator._create_tree'), ('branch and bound', 'estimate_dilation_regular'), ('bounds cache', 'Estimator._get_pos_bounds lru_cache')])

prop('C15', 'Minimal dilation over fuzzy curves and sequences is bracketed correctly',
 'A bisection step returns either a compatible curve with dilation at most the good threshold, or no curve, and then every compatible curve has dilation at least the bad threshold. The bounds returned for a fuzzy curve enclose the minimal dilation of its compatible curves and the returned curve is compatible with dilation inside them; for a sequence of fuzzy curves, if an upper bound given beforehand is not below the overall minimum, the returned bounds enclose that minimum and every fuzzy curve attaining it is among the returned indices; no result is returned only if every minimum exceeds the given upper bound.',
 ['inputs', 'configurations'], 'every fuzzy curve or sequence, thresholds, start/stop bounds, tolerances and iteration limits',
 'Three fuzzy curves are estimated in tests, with known best values at one setting; sequences and stop/start bounds are not tested.',
 ['peano/dilation.py', 'search.py'],
 [('pairs tree + forbidding', 'Estimator.bisect_dilation_fuzzy'), ('bisection', 'estimate_dilation_fuzzy'), ('epochs', 'estimate_dilation_sequence'), ('script', 'search.py run_search')])

prop('C16', 'Grid path search yields exactly the admissible Hamiltonian paths',
 'Growing cube paths yields exactly the sequences of (cube, state) that start at a start node, end at a finish node, follow the given step rule and visit every cube of the grid once; each is yielded once. The result does not depend on the width-search limits.',
 ['inputs', 'configurations'], 'every dimension, div of at least 2, step rule with a matching backward rule, start/finish set without repetitions, and width limits',
 'Tests check counts for king moves and 3x3 rook moves from corner to corner.',
 ['peano/_cube_path_trees.py'],
 [('growth', '_continue_path, _depth_search, _width_search'), ('meet in the middle', 'grow, _group_paths_by_future, _check_glue, _glue_paths')])

prop('C17', 'Path generation is exact and standardised generation gives one path per class',
 'For given gate pairs, the generated paths are exactly the continuous ones through all cubes that begin and end in the global gates and use a symmetric copy of one of the allowed gate pairs (in either direction) in each cube, with consecutive cubes within the step limit if one is set; none is repeated. When a parent path is given instead of the global gates, they are exactly the continuous paths through the same cubes whose gate pair in every cube meets that of the parent. Standardised generation yields exactly one member of each class of paths equivalent under the symmetries of the global gates, for several patterns one multiset-representative per combination, and an example exists if and only if some path exists.',
 ['inputs', 'configurations'], 'every dimension, div, tuple of gate pairs (points or facet subsets), step limit, parent path, generation limits',
 'Tests compare counts for a dozen literal gate configurations.',
 ['peano/paths.py', 'peano/utils.py'],
 [('link images', 'PathsGenerator._init_entr2links, _init_exit2next'), ('generation', 'generate_paths_generic, generate_paths, get_paths_example'), ('combination', 'combinations_product')])

prop('C18', 'Subsets of the cube follow the geometry they denote',
 'For rational points and facet subsets, isometries act as on the point sets they denote, intersection holds exactly when the sets share a point, placing into a cube and dividing are mutually inverse, and dividing or listing neighbours gives exactly the cubes that meet the set with the right portion. Standard forms are members of the symmetry class and are equal for equivalent points and gate pairs (including direction reversal of gate pairs); the face dimension of a point counts its coordinates off the boundary.',
 ['inputs'], 'every dimension, div, rational point of the cube, facet subset of any nesting depth, gate pair and isometry',
 'Tests use a handful of literal points and 2-d facet subsets.',
 ['peano/subsets.py', 'peano/utils.py'],
 [('points', 'Point.transform/map_to_cube/divide/gen_neighbours/std/argstd/face_dim'), ('facet subsets', 'FacetDivSubset.__rmul__/intersects/map_to_cube/divide/gen_neighbours'), ('links', 'Link.__rmul__/std/argmul_intersect/intersects')])

prop('C19', 'Gate enumeration is complete, canonical and realisable',
 'For given dimension, div and multiplicity the generator yields exactly the standardised gate tuples, each once, such that some non-internal (or facet-gated when asked) choice of boundary cubes and specs has these gates and continuous paths with these gates exist in every pattern.',
 ['inputs', 'configurations'], 'every dimension, div, multiplicity and facet mode',
 'Tests compare counts and some results for ten configurations; which gates are lost or merged elsewhere is not visible.',
 ['peano/gates.py', 'peano/curves.py', 'peano/paths.py'],
 [('boundary specs', 'GatesGenerator._gen_all_gates, _gen_facet_gates'), ('dedup and realisability', '_check_and_std'), ('narrowing', '_gen_narrow_links')])

prop('C20', 'Curve gates, pointed paths and the continuity check agree with the curve',
 'The pointed paths of a fully specified curve give, in each fraction, the true entrance and exit of the curve there, and the global gates equal the entrance and exit of the pattern. The continuity check accepts a curve exactly when in every pattern each fraction ends where the next begins; it stays the same under isometries and time reversal, and continuous curves stay continuous under subdivision.',
 ['inputs'], 'every fully specified curve, continuous or not',
 'Tests only feed continuous curves, so a check that accepts everything would pass.',
 ['peano/curves.py', 'peano/paths.py', 'peano/subsets.py'],
 [('paths', 'Curve.get_paths, Path.__init__, Path.__rmul__'), ('check', 'Curve.check, Path.is_continuous')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
import sys
print(len(P))
