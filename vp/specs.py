"""The properties, and the monitored workloads that decide each of them."""


def R(h, m, q, t=None, **k):
    return dict(harness=h, mode=m, n=(q, t or q * 20), **k)


PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, rule, runs, observe=None, note="", assumptions=()):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, rule=rule, runs=runs, level="exploration", observe=observe or "return values, produced diagrams/files and sanitizer reports of the real library",
                      note=note, assumptions=list(assumptions))


SAN = ("the library is rebuilt from /repo with AddressSanitizer and UndefinedBehaviorSanitizer (no recovery); "
       "an abort, a failed assertion, an unexpected exit() or a hang counts as a violation")

P("C01", "Diagram data regenerated from crossings is complete, planar and consistent",
  "Whenever the library builds or regenerates a link diagram from crossing information, the resulting crossings, edges, components and faces describe one and the same planar diagram: every edge is where the crossings say, components follow edges head to tail and partition them, and faces are exactly the left-turning boundary walks with Euler characteristic 2. Orientation, signs and component tags already present are kept, and canonical ordering rules hold. Regenerating twice changes nothing.",
  ["inputs"], "every planar diagram (any crossings count, any number of components incl. 1- and 2-edge components, signed and unsigned), presented with any crossing order, rotation and edge numbering",
  "a test compares a few hand-made codes; consistency must hold for every planar 4-regular map and every presentation of it",
  ["src/pdcode.c", "src/plcTopology.h"],
  [("pd_regenerate and the regenerate_* family", "src/pdcode.c"), ("pd_ok and the *_ok checks", "src/pdcode.c")],
  "distinct random diagrams (fingerprint of the planar map) whose derived data was recomputed by an independent model",
  [R("h_pd", "build", 30000), R("h_pd", "regen", 30000)])

P("C02", "HOMFLY polynomial is the true invariant of the diagram's link",
  "For every signed diagram the HOMFLY polynomial the library reports equals the one given by the skein relation, with any number of components and crossings the engine accepts. It does not depend on how crossings and edges are numbered, on component order, or on adding or removing nugatory crossings, and mirror images, reversals, and connected sums transform it as they must.",
  ["inputs"], "every signed diagram up to the engine's size limit, in every presentation",
  "tests compare some table knots; the engine has many special-case simplifications that only particular diagrams reach",
  ["src/pllmpoly02.c", "src/plcTopology.c", "src/pd_invariants.c"],
  [("pd_homfly / plc_lmpoly", "src/plcTopology.c, src/pllmpoly02.c"), ("ccode conversion pdcode_to_ccode", "src/plcTopology.c")],
  "distinct diagrams whose polynomial was compared with an independent skein computation or an invariance relation",
  [R("h_pd", "homfly", 12000), R("h_inv", "homfly", 6000), R("h_inv", "homfly_big", 8000), R("h_inv", "homfly_huge", 120), R("h_inv", "homfly_comp", 15000)])

P("C03", "Simplifying moves and simplification keep the link type",
  "Removing a one-sided loop, removing a bigon whose strand lies wholly over or under, and automatic simplification all return well-formed diagrams of the same oriented link, splitting off components when the link falls apart. Exactly the crossings requested disappear (simplification leaves no one-sided loop), component tags survive, and the caller's diagram is unchanged.",
  ["inputs", "histories"], "every diagram, every legal move site, and every sequence of moves simplification chooses",
  "each move has many degenerate configurations (loops sharing edges, components vanishing, diagrams disconnecting) that a handful of examples cannot cover",
  ["src/pd_crossingmoves.c", "src/pd_simplify.c"],
  [("pd_R1_loopdeletion, pd_R2_bigon_elimination, pd_compacting_copy", "src/pd_crossingmoves.c"), ("pd_simplify", "src/pd_simplify.c")],
  "distinct (diagram, move site) pairs whose result was compared with an independently computed diagram or invariant",
  [R("h_moves", "r1del", 12000), R("h_moves", "r2del", 12000), R("h_moves", "simplify", 12000)])

P("C04", "Moves that add or slide crossings make exactly the stated local change",
  "Adding a loop of a chosen sign to an edge keeps the oriented link; passing one edge across another through a common face and flipping a triangular face return well-formed diagrams whose projection differs from the original by exactly that local change, with orientation, and the signs of crossings already there, kept. The caller's diagram is unchanged.",
  ["inputs"], "every diagram and every legal site, sign and over/under choice",
  "sites interact with component wrap-around and with edges meeting themselves in ways a few examples miss",
  ["src/pd_crossingmoves.c"],
  [("pd_R1_loop_addition, pd_R2_bigon_addition, pd_R3_triangle_flip", "src/pd_crossingmoves.c")],
  "distinct (diagram, move site) pairs whose result was compared with an independently computed diagram",
  [R("h_moves", "r1add", 12000), R("h_moves", "r2add", 12000), R("h_moves", "r3", 12000)])

P("C32", "Tangles are found exactly and strands slide across them correctly",
  "For every closed curve of edges and faces that bounds a tangle in a diagram, regenerating the tangle finds exactly the crossings and edges inside it, the direction of every boundary edge and the strands with their ends, lengths and components; boundary data that bound no tangle are refused with an error. Sliding a strand that runs over (or under) part of the tangle boundary, anchored outside, across the tangle yields exactly the same link redrawn with the strand on the other side, passing over (or under) the remaining boundary edges, with crossing signs, orientations and component tags kept, one diagram per connected piece; slides whose data do not fit are refused with an error. The caller's diagram is never changed.",
  ["inputs"], "all diagrams, all tangles bounded by a dual cycle including ones that revisit a face, all strands and sides, any number of old and new crossings",
  "the surgery depends on where the strand, the tangle and component wrap-around fall relative to each other; the tests replay a few stored pictures",
  ["src/pd_tangles.c", "src/pd_deletions.c", "src/pd_splitdiagram.c", "src/pd_sortedbuf.c"],
  [("pd_regenerate_tangle, pd_regenerate_tangle_err, pd_tangle_ok, pd_tangle_bdy_or, pd_tangle_slide, pd_tangle_slide_err", "src/pd_tangles.c"), ("pd_crossing_delete, pd_edge_delete", "src/pd_deletions.c"), ("pd_split_diagram", "src/pd_splitdiagram.c")],
  "distinct (diagram, tangle, strand) triples whose result was compared with an independently redrawn diagram",
  [R("h_tang", "regen", 6000), R("h_tang", "slide", 15000), R("h_tang", "encircle", 5000), R("h_tang", "badtangle", 3000), R("h_tang", "badslide", 3000)])

P("C05", "Connected sums and re-orientation act exactly as defined",
  "The connected sum of two diagrams along two chosen edges is a well-formed diagram of the connected sum of the two links with orientations respected, for every pair of edges. Reversing components reverses exactly those components and updates crossing signs accordingly; renumbering edges or components never changes the link. Inputs are unchanged.",
  ["inputs"], "all pairs of diagrams and edges, all subsets of components",
  "the bookkeeping depends on which edges wrap around components and on component sizes",
  ["src/pd_crossingmoves.c", "src/pd_operations.c", "src/pd_isomorphisms.c"],
  [("pd_apply_edgemap", "src/pd_isomorphisms.c"), ("pd_connect_sum", "src/pd_crossingmoves.c"), ("pd_reorient_component, pd_renumber_component", "src/pd_operations.c")],
  "distinct diagram pairs/sites compared with an independent construction",
  [R("h_moves", "csum", 12000), R("h_moves", "reorient", 12000), R("h_iso", "applyedges", 5000)])

P("C06", "Diagram text files round-trip exactly",
  "Writing any diagram as text and reading it back yields the identical diagram: crossings, signs, edges, components, tags, faces and identity numbers. Several diagrams written one after another are read back in order with nothing left over, and files written by hand without the optional parts are completed correctly.",
  ["inputs", "histories"], "all diagrams including 0-crossing ones, signed or not, any tags; any sequence of writes",
  "a sample of round trips cannot show that no field of any diagram is lost",
  ["src/pdcode.c"], [("pd_write, pd_read, pd_read_err", "src/pdcode.c")],
  "distinct diagrams written, parsed independently and read back field by field",
  [R("h_io", "pdtext", 20000), R("h_io", "handtext", 20000)])

P("C07", "KnotTheory-form diagrams round-trip to the same link diagram",
  "Writing a diagram in KnotTheory form and reading it back gives the same oriented diagram with the same crossings, and the text follows the KnotTheory convention (each crossing counterclockwise from the incoming under-strand). Text written by others in that convention is read as the diagram it denotes.",
  ["inputs"], "all signed diagrams and all spellings and edge numberings of the text form",
  "direction inference is global and breaks only for particular component shapes",
  ["src/pdcode.c"], [("pd_write_KnotTheory, pd_read_KnotTheory", "src/pdcode.c")],
  "distinct diagrams written/read in KnotTheory form and compared as oriented diagrams",
  [R("h_io", "kt", 30000)])

P("C08", "Malformed diagram and store files are refused, never misread",
  "Reading a truncated, corrupted, oversized or adversarial diagram, KnotTheory or diagram-store file never corrupts memory, aborts, hangs or yields an inconsistent diagram: the reader either returns a valid diagram or reports failure.",
  ["inputs", "fault_sequences"], "all byte sequences; mutations, truncations and field overrides of valid files are sampled",
  "tests read valid files only; the input space is unbounded",
  ["src/pdcode.c", "src/pd_storage.c"], [("pd_read_err, pd_read_KnotTheory, pd_read_pdstor", "src/pdcode.c, src/pd_storage.c")],
  "distinct malformed files fed to the readers under the sanitizers",
  [R("h_io", "hostile_pd", 30000), R("h_io", "hostile_kt", 20000), R("h_io", "hostile_stor", 20000), R("h_iso", "storhead", 3000)])

P("C09", "Diagram isomorphism is decided correctly and hashing agrees with it",
  "Two diagrams are reported isomorphic exactly when some relabelling (with or without reversing orientation of the sphere) carries one to the other, regardless of crossing signs; every isomorphism returned really carries one to the other, none is repeated or missing. The consistency check accepts an isomorphism exactly when it is genuine. Isomorphic diagrams always have equal hashes.",
  ["inputs"], "all pairs of diagrams, in every presentation, incl. near-misses (one crossing changed, chiral shadows)",
  "both answers must be right on an infinite family of pairs and all presentations",
  ["src/pd_isomorphisms.c", "src/pdcode.c"], [("pd_build_isos, pd_isomorphic, pd_regenerate_hash", "src/pd_isomorphisms.c, src/pdcode.c")],
  "distinct diagram pairs decided and compared with an independent canonical form",
  [R("h_iso", "iso", 12000), R("h_iso", "isobig", 200), R("h_iso", "isocert", 12000)])

P("C10", "Diagram isotopy respects signs, orientation and tags",
  "Two signed diagrams are reported diagram-isotopic exactly when a relabelling preserving the sphere's orientation, crossing signs, component orientations and component tags carries one to the other. The decision is symmetric and independent of how either diagram is presented, and each isotopy produced is genuine.",
  ["inputs"], "all pairs of signed, tagged diagrams in every presentation",
  "near-misses (one sign, one tag, one reversed component) are too many to sample by hand",
  ["src/pd_isomorphisms.c"], [("pd_build_diagram_isotopies, pd_diagram_isotopic", "src/pd_isomorphisms.c")],
  "distinct pairs decided and compared with an independent canonical form",
  [R("h_iso", "isotopy", 12000), R("h_iso", "isotags", 5000), R("h_iso", "isobig", 120)])

P("C11", "Packed diagrams unpack to the same diagram",
  "Packing any diagram into its compact form and unpacking it gives back the same crossings, signs, edges, components and faces, within the advertised size, for every diagram size.",
  ["inputs"], "all diagrams, signed or not, across the sizes where the field width changes",
  "bit-packing errors appear only at particular sizes and index values",
  ["src/pd_pack.c"], [("pd_pack, pd_unpack", "src/pd_pack.c")],
  "distinct diagrams packed and unpacked",
  [R("h_iso", "pack", 30000)])

P("C12", "Diagram stores behave as sets up to the chosen equivalence",
  "A store holds exactly one representative for each class of the diagrams inserted, under the equivalence in force at insertion, regardless of insertion order; its counts, searches and iteration all agree with the insertion history. Writing a store and reading it back, whole or incrementally, preserves its contents.",
  ["inputs", "histories"], "all insertion histories mixing equivalences, duplicates, relabelled copies and near-duplicates, and all store sizes",
  "the contract is over histories, with hash collisions and relabelled duplicates",
  ["src/pd_storage.c"], [("pd_addto_pdstor, pd_search_pdstor_by_*, pd_write_pdstor, pd_read_pdstor", "src/pd_storage.c")],
  "distinct store histories whose contents were compared with a set model",
  [R("h_iso", "stor", 3000), R("h_iso", "stormix", 2500)])

P("C13", "Linking numbers, strand roles and crossing structure are reported correctly",
  "Linking numbers, unsigned linking numbers, over/under strand queries, alternation, interlaced-crossing statistics and face lookups equal what the signed diagram defines, and do not depend on how it is numbered.",
  ["inputs"], "all diagrams, all component pairs, all crossings, edges and faces",
  "values must be right for every diagram, component pair and presentation",
  ["src/pd_invariants.c", "src/plcTopology.c"], [("pd_interlaced_crossings", "src/pd_invariants.c"), ("pd_linking_number, pd_overstrand, pd_understrand, pd_is_alternating", "src/plcTopology.c")],
  "distinct diagrams whose derived quantities were recomputed from the planar map",
  [R("h_inv", "quant", 20000)])

P("C14", "Knot classification always includes the true knot type",
  "Classifying a diagram of a tabulated knot or a connected sum of tabulated knots yields a list that contains its true type, every listed type has the same HOMFLY polynomial, and the answer does not depend on the presentation or on extra nugatory crossings; a link of several components is never given a knot type. Knot type names written by the library are read back as the same type.",
  ["inputs"], "all tabulated knots to 10 crossings, their mirror images and sums, in every presentation",
  "the table has hundreds of entries and each must be matched in every presentation",
  ["src/plcTopology.c", "src/pd_invariants.c", "src/homfly.h"], [("pd_classify, plc_classify helpers, plc_read_knottype, plc_write_knottype", "src/plcTopology.c")],
  "distinct (knot type, presentation) pairs classified",
  [R("h_inv", "classify", 6000), R("h_inv", "classifylink", 6000), R("h_inv", "ktname", 6000)])

P("C15", "Diagrams, polynomials and knot types of space polygons are those of the curve",
  "For every closed polygon or link of polygons in space that is embedded with room to spare, the crossing diagram the library draws of it is well formed, fully signed, has one component per curve component and is a diagram of exactly that knot or link: same HOMFLY polynomial, linking numbers and handedness, whatever direction the curve lies in, however special its position (vertical, collinear or concurrent edges in the projection) and whatever its size. The curve is not changed, and the polynomial and knot type reported for the curve agree with its diagram; a link is never reported as a knot.",
  ["inputs"], "all embedded polygons and non-split links, every position, scale and projection direction chosen at random",
  "the diagram comes from a random projection that must be repaired when not generic; tests use a few fixed curves",
  ["src/plcTopology.c"], [("pd_code_from_plCurve, make_zprojection_generic, findcrossings, assemble_pdcode, plc_homfly, plc_classify", "src/plcTopology.c")],
  "distinct diagrams produced from space polygons and compared with an independent long-double projection",
  [R("h_top", "type", 6000), R("h_top", "invariance", 2000), R("h_top", "big", 150), R("h_top", "fixeddir", 3000)], note="links whose components can be pulled apart are left out: a disconnected diagram is not representable as a pd code; curves closer than 1% of the mean edge to touching themselves are left out")

P("C16", "Validity decisions are right and copies are independent",
  "The diagram validity test accepts every well-formed diagram and rejects one in which a crossing, edge, component, sign, tag or face entry has been corrupted, without crashing. Copying a diagram gives an equal, fully independent diagram: changing or freeing either never affects the other.",
  ["inputs"], "all diagrams, all single-field corruptions and all later edits of either copy",
  "the decision must hold for every corruption site of every diagram",
  ["src/pdcode.c"], [("pd_ok, pd_cross_ok, pd_edges_ok, pd_comps_ok, pd_faces_ok, pd_copy", "src/pdcode.c")],
  "distinct (corruption, diagram) pairs decided",
  [R("h_inv", "okreject", 30000), R("h_inv", "copy", 10000)], note="an incomplete but otherwise consistent face list is legal input for the library, so completeness of faces is not part of the decision")

P("C17", "Split diagrams separate correctly; standard builders build what they name",
  "Separating a disconnected set of crossings yields well-formed connected diagrams which together contain every crossing and component exactly once with tags kept. The standard builders return well-formed diagrams of the unknot, torus knot, twist knot and chain they are named after, with the advertised crossings.",
  ["inputs"], "all disjoint unions of diagrams in every interleaved numbering; all builder parameters in range",
  "interleavings of numbering and component order are unbounded",
  ["src/pd_splitdiagram.c", "src/pdcode_testcodes.c"], [("pd_split_diagram", "src/pd_splitdiagram.c"), ("pd_build_unknot, pd_build_torus_knot, pd_build_twist_knot, pd_build_simple_chain", "src/pdcode_testcodes.c")],
  "distinct unions split / builder parameters",
  [R("h_inv", "split", 12000), R("h_inv", "builders", 6000)])

P("C36", "Polynomial text and structured forms convert without loss",
  "Converting a HOMFLY polynomial between its engine text, structured and LaTeX/Mathematica text forms keeps every coefficient and exponent, and sums, products and comparisons of polynomials agree with integer polynomial arithmetic.",
  ["inputs"], "all Laurent polynomials with integer coefficients in range",
  "negative exponents, placeholders, cancellations and large coefficients combine without bound",
  ["src/polynomials.c"], [("lmpoly_to_polynomial, poly_to_latex, poly_to_mathematica, product_polynomial", "src/polynomials.c")],
  "distinct polynomials converted and compared",
  [R("h_inv", "poly", 20000)])

P("C20", "A curve written to a VECT file reads back as the same curve",
  "Writing any curve and reading the file back gives the same components, open/closed flags, vertices, colours and constraints (to the 16 digits written); the text is a valid VECT file any other reader can parse. Files written by other programs or by hand, with comments, free spacing and numbered constraints, read as what they say. Writing does not change the curve.",
  ["inputs"], "all curves: any number of open or closed components, any coordinates, colours and constraint layouts; all equivalent spellings of the file",
  "field widths, constraint numbering and run layout interact without bound; tests round-trip a few files",
  ["src/plCurve.c"], [("plc_write, plc_read", "src/plCurve.c")],
  "distinct curves written, parsed independently and read back / distinct hand-style files read",
  [R("h_plc", "vect", 120000), R("h_plc", "vecthand", 120000)])

P("C21", "Malformed VECT files are refused, never harmful",
  "Reading any byte sequence as a curve file either gives a well-formed curve or returns NULL with an error number and message; it never crashes, reads or writes outside its buffers, hangs, or yields a curve with impossible counts or constraints.",
  ["inputs"], "all corruptions of curve files: truncation, edits, wrong counts, bad or undefined constraints, awkward numbers",
  "an input space no list of bad files covers",
  ["src/plCurve.c"], [("plc_read, get_comment, scandoubles", "src/plCurve.c")],
  "distinct corrupted files read under the sanitizers",
  [R("h_plc", "vecthostile", 400000)], note="files that ask for more memory than the machine has are left out")

P("C22", "Editing a curve changes exactly what was asked",
  "After any sequence of adding or dropping components, deleting arcs, recolouring, copying, scaling, translating, projecting, rotating, folding and doubling, the curve holds exactly the vertices, colours, open/closed flags and constraints that the sequence describes, with the wraparound vertices in step; other components are untouched and copies are independent.",
  ["inputs", "histories"], "all curves and all sequences of editing operations",
  "each operation must preserve the bookkeeping every other one relies on, in any order",
  ["src/plCurve.c"], [("plc_add_component, plc_drop_component, plc_delete_arc, plc_resize_colorbuf, plc_copy, plc_scale, plc_translate, plc_rotate, plc_project, plc_pfm, plc_double_verts", "src/plCurve.c")],
  "distinct edit histories compared step by step with an independent model",
  [R("h_plc", "edit", 160000), R("h_plc", "double", 60000)])

P("C23", "Reported measurements of a curve are its true geometric quantities",
  "Lengths, arclength positions, subarc lengths, turning angles, curvature, torsion, radius measures, centre of mass, gyration radius, diameter, mean squared chord lengths, dihedral angles and edge lengths equal the values defined by the vertices, for open and closed components alike; vector and matrix helpers compute what they name.",
  ["inputs"], "all curves with non-degenerate edges, open and closed, one or many components, and all vertex arguments",
  "formulas must agree with the definition at ends, at wraparound and across components for every curve",
  ["src/plCurve.c", "src/plc_dihedrals.c", "src/matrix.c", "src/vector.c"], [("plc_arclength, plc_s, plc_subarc_length, plc_turning_angle, plc_MR_curvature, plc_totalcurvature, plc_totaltorsion, plc_gyradius, plc_mean_squared_chordlengths", "src/plCurve.c")],
  "distinct curves measured and recomputed in extended precision",
  [R("h_plc", "measure", 150000), R("h_plc", "vector", 200000)])

P("C24", "Constraints apply to exactly the vertices they were set on",
  "After any history of setting, replacing, extending, removing and clearing constraints, each vertex has exactly the constraint last given to it, the constraint list stays ordered and non-overlapping within each component, the constraint check reports the true largest violation, and enforcing constraints moves only constrained vertices, to the nearest allowed position.",
  ["inputs", "histories"], "all constraint-editing histories over all component layouts",
  "run merging and splitting depends on the whole history of overlapping runs",
  ["src/plCurve.c"], [("plc_set_fixed, plc_constrain_to_line, plc_constrain_to_plane, plc_unconstrain, plc_remove_constraint, plc_fix_cst", "src/plCurve.c")],
  "distinct constraint histories compared vertex by vertex with an independent model",
  [R("h_plc", "cst", 250000)])

P("C25", "Splines interpolate the curve and resample it faithfully",
  "The spline of a curve passes through every vertex at its arclength parameter, is smooth there, wraps around on closed components, and its tangent is its derivative. Converting back gives the requested number of points, evenly spaced in the parameter, with ends kept, colours interpolated and constraints carried over to the new vertices.",
  ["inputs"], "all curves with at least three vertices per component, open or closed, and all resampling counts",
  "end conditions, wraparound and rounding at the last sample show up only for particular curves and counts",
  ["src/splines.c"], [("plc_convert_to_spline, plc_convert_from_spline, plc_sample_spline, plc_spline_tangent", "src/splines.c")],
  "distinct curves splined and resampled",
  [R("h_plc", "spline", 80000)])

P("C26", "Symmetry and Whitten-group operations do exactly what they name",
  "Rotation, reflection and coordinate-plane groups built for a symmetric curve are closed under composition and inverses with consistent vertex maps; symmetrizing gives the orbit average and an exactly symmetric curve; error measures are the true errors; copies and rotations carry the group along. Mirroring, reversing and permuting components acts as documented on vertices, colours and constraints.",
  ["inputs", "histories"], "all symmetric curves, groups, perturbations, and all Whitten group elements in cycle notation",
  "the maps must be right for every orbit layout and every permutation",
  ["src/symmetries.c", "src/plwhitten.c"], [("plc_rotation_group, plc_symmetrize, plc_compose_symmetries, plc_symmetry_group_check", "src/symmetries.c"), ("plc_whitten", "src/plwhitten.c")],
  "distinct (curve, group element) pairs",
  [R("h_plc", "whitten", 100000), R("h_plc", "symm", 60000), R("h_plc", "asymm", 20000), R("h_plc", "symcomp", 10000)])

P("C28", "Struts, minimum radius, thickness and ropelength are exact",
  "For every curve, the shortest strut, the strut list, the minimum radius and its locations, the thickness, length and ropelength the ropelength engine reports are the true ones: every pair of locally closest points under the cutoff (or within epsilon of the shortest) is listed once and no other, whatever the octree depth, the caller's memory buffer, the scale of the curve, and whichever results are asked for; the curve is not altered. Strut files read back as written and damaged ones are refused.",
  ["inputs", "histories"], "all curves (open, closed, several components, nearly touching, with reversals), octree depths, memory buffers, cutoffs, epsilons and stiffnesses; all strut files",
  "the engine prunes with a spatial tree: a pruning mistake loses a strut only for particular geometry, depth and cutoff",
  ["src/octrope.c", "src/minrad.c"], [("octrope, octrope_struts, octrope_poca, octrope_thickness, octrope_ropelength, octrope_strutfile_read, octrope_strutfile_write", "src/octrope.c"), ("octrope_minrad", "src/minrad.c")],
  "distinct curves whose strut and minimum radius reports were compared with brute force",
  [R("h_oct", "struts", 12000), R("h_oct", "minrad", 12000), R("h_oct", "rope", 12000), R("h_oct", "segments", 6000), R("h_oct", "strutfile", 3000)],
  note="pairs whose local-minimality is decided by less than rounding error are neither required nor forbidden")
P("C29", "Markov chain samples keep their constraints; expectations and errors are right",
  "Every triangulation the sampler builds is a triangulation of the polygon, and malformed ones are refused; edge lengths, diagonals and dihedral angles taken from a polygon rebuild that polygon up to rigid motion, also across flat triangles and zero diagonals, and impossible data is refused. Every step of the chain, from every start, keeps the prescribed edge lengths, the triangle inequalities and the confinement, and changes only what that kind of step may change. The expectation drivers return the mean of exactly the samples after burn-in, it agrees with the exact or independently sampled expectation for equilateral, confined and fixed-gap polygons, the error bar is Geyer's initial positive sequence estimate whether or not the data fits the buffer, and the log lines say what happened.",
  ["inputs", "histories"], "all triangulations and numbers of edges, all edge length and diagonal data (flat, planar, zero diagonals), all step sequences, seeds, run parameters and sample histories",
  "a sampler that drifts off the polytope or weights it wrongly, or an error bar that is wrong only when data streams past the buffer, still returns plausible numbers",
  ["src/plcToricSymplectic.c", "src/plcToricSymplecticTriangulation.c", "src/geyer_estimators.c"], [("tsmcmc_*_triangulation, tsmcmc_embed_polygon, tsmcmc_compute_*", "src/plcToricSymplecticTriangulation.c"), ("tsmcmc_*_step, tsmcmc_*_ngon, tsmcmc_*_expectation", "src/plcToricSymplectic.c"), ("geyer_ips_add, geyer_ips_value, ips_value", "src/geyer_estimators.c")],
  "distinct triangulations, polygons, chain histories and sample histories judged",
  [R("h_ts", "tri", 4000), R("h_ts", "embed", 8000), R("h_ts", "steps", 8000), R("h_ts", "geyer", 6000), R("h_ts", "expect", 700), R("h_ts", "log", 1000)],
  note="expectation tests allow 9 standard errors; hypersimplex sampling cannot be built here (naptable.h is not in the repository)")
P("C30", "Nearest-point queries return a nearest point",
  "Nearest-neighbour and nearest-vertex queries return an index whose point is at the minimum distance, whatever the size of the data, whether or not precomputed search data is reused, and stale search data is reported.",
  ["inputs", "histories"], "all point sets and query points, above and below the size where the tree search takes over, with and without saved search data",
  "pruning errors in tree search appear only for particular layouts",
  ["src/nearest_neighbor.c", "src/plCurve.c"], [("plc_nearest_neighbor, plc_nearest_vertex", "src/nearest_neighbor.c")],
  "distinct queries compared with exhaustive search",
  [R("h_plc", "nearest", 40000)])

P("C27", "Random polygons have the promised shape and the promised distribution",
  "Every random polygon has exactly the promised edges, total or edge lengths, closure and planarity, is determined by the generator's seed, and follows its documented probability distribution: edge lengths, chord lengths and directions agree with the theory for the symmetric measure, equilateral and self-avoiding ensembles. Self-avoiding polygons never overlap and the self-avoidance test is right. Loop closure keeps the given arc and gives a closed curve of total length 2, or refuses.",
  ["inputs", "histories"], "all seeds, all numbers of edges in range, every open arc and closure request",
  "a wrong distribution or a rare malformed sample is invisible to a test of a few samples",
  ["src/plcRandomPolygon.c", "src/plcRandomSap.c", "src/vector.c"], [("plc_random_closed_polygon and its open, plane and equilateral relatives, plc_loop_closure", "src/plcRandomPolygon.c"), ("plc_random_equilateral_closed_self_avoiding_polygon, plc_is_sap", "src/plcRandomSap.c"), ("plc_random_vect, plc_perturb_vect", "src/vector.c")],
  "distinct polygons whose shape was checked, and samples entered in goodness-of-fit tests",
  [R("h_rand", "poly", 12000), R("h_rand", "dist", 1600), R("h_rand", "dirs", 800), R("h_rand", "sap", 6000), R("h_rand", "sapdist", 240), R("h_rand", "closure", 60000)],
  note="distribution tests use thresholds with a false-alarm chance near 1e-10 each")

P("C31", "Group iterators, isomorphism groups and containers behave as their models",
  "The permutation, cyclic, dihedral and orientation iterators and their products visit every element of their group exactly once and return to the start; copies continue independently; composition, inverse, period and comparison are those of the group, in place or not. The isomorphisms of a diagram with itself form a group of the right order whose elements compose, invert and act on the diagram correctly, and the text forms used to compare diagrams agree with isomorphism. Containers and sorted buffers return exactly what was put in.",
  ["inputs", "histories"], "all group sizes and tuples of sizes, all operation sequences, all diagrams of tractable symmetry",
  "precomputed tables, cached indices and in-place operations interact over histories; a skipped or repeated element only loses isomorphisms of particular diagrams",
  ["src/pd_perm.c", "src/pd_cyclic.c", "src/pd_dihedral.c", "src/pd_orientation.c", "src/pd_multidx.c", "src/pd_isomorphisms.c", "src/pd_container.c", "src/pd_sortedbuf.c"],
  [("pd_increment_perm, pd_compose_perms, pd_stareq_perm, pd_inverse_perm", "src/pd_perm.c"), ("pd_increment_multidx", "src/pd_multidx.c"), ("pd_build_isos, pd_build_map_isomorphisms, pd_compose_isos, pd_stareq_iso, pd_iso_period", "src/pd_isomorphisms.c"), ("pd_addto_container, pd_container_elt", "src/pd_container.c"), ("pd_sortedbuf_insert, pd_sortedbuf_contains", "src/pd_sortedbuf.c")],
  "distinct groups, operation histories and diagrams whose group was compared with the model",
  [R("h_grp", "iter", 6000), R("h_grp", "multidx", 4000), R("h_grp", "perm", 12000), R("h_grp", "isogroup", 3000), R("h_grp", "isostr", 3000), R("h_grp", "container", 8000)])

P("C34", "The diagram-store programs lose, invent and corrupt nothing",
  "splitpd divides a diagram store into pieces of the requested number or size which together hold exactly the diagrams of the input; joinpd of any list of stores holds all their diagrams, or one of each class when checking is requested; filterpd keeps exactly the diagrams with the given number of components; computepd prints for every diagram the requested quantities, correctly; connectsum lists every connected sum of every pair once; orientedshadows, shadow2diagram and processpdstor produce exactly the orientations, crossing choices, formats and filters asked for; carbonizepd writes C code which recreates the diagrams. Input files are unchanged, several input files are all processed, missing or damaged files are reported, and no program crashes or misuses memory.",
  ["inputs", "histories"], "all stores (empty, one element, hundreds of elements, links and knots, signed and unsigned) and all combinations of options",
  "each program combines readers, stores, equivalence tests and option handling; no test of the suite runs any of them",
  ["src/splitpd.c", "src/joinpd.c", "src/filterpd.c", "src/computepd.c", "src/connectsum.c", "src/carbonizepd.c", "tools/orientedshadows.c", "tools/shadow2diagram.c", "tools/processpdstor.c"],
  [("splitpd, joinpd, filterpd, computepd, connectsum, carbonizepd", "src/*.c"), ("orientedshadows, shadow2diagram, processpdstor", "tools/*.c"), ("pd_read_pdstor, pd_write_pdstor, incremental stores", "src/pd_storage.c")],
  "distinct (store, option) combinations run and compared with an independent computation of the output",
  [R("h_cli", "split", 600), R("h_cli", "join", 2500), R("h_cli", "filter", 2000), R("h_cli", "compute", 2500), R("h_cli", "csum", 1200), R("h_cli", "oshadow", 2000), R("h_cli", "s2d", 1500), R("h_cli", "process", 3000), R("h_cli", "carbon", 2000), R("h_cli", "badfile", 3000)])

P("C37", "The curve programs report what the curve files contain",
  "ropelength prints for every VECT file the ropelength, thickness, minimum radius, shortest strut, edge statistics and diameter of its curve, and for several files the one of least ropelength; struts lists and writes exactly the struts within the requested length or tolerance; mrlocs lists exactly the corners within the requested radius or tolerance; plcurvature writes the curvature and arclength at every vertex and the total curvature of every component; randompolygon writes the requested number of polygons with the requested number of unit edges, closing gap, confinement, self-avoidance and knot type, in the requested format, reproducibly from its seed; knottype prints the possible knot types, a diagram of the same type, and the HOMFLY polynomial of every file in each format and of the connected sum of all files. Files which cannot be read are reported and lead to no output, and no program crashes or misuses memory.",
  ["inputs"], "all curve files (open and closed components, links, hairpins, damaged and missing files) and all combinations of options",
  "each program combines file reading, option handling, several library calls and its own output code; no test of the suite looks at what they print",
  ["src/ropelength.c", "src/struts.c", "src/mrlocs.c", "src/plcurvature.c", "src/plcrwalk.c", "tools/knottype.c"],
  [("ropelength", "src/ropelength.c"), ("struts", "src/struts.c"), ("mrlocs", "src/mrlocs.c"), ("plcurvature", "src/plcurvature.c"), ("randompolygon", "src/plcrwalk.c"), ("knottype", "tools/knottype.c")],
  "distinct (curve file, option) combinations run and compared with an independent computation of the output",
  [R("h_clc", "rope", 2500), R("h_clc", "struts", 2500), R("h_clc", "mrlocs", 2500), R("h_clc", "curv", 1500), R("h_clc", "rpoly", 900), R("h_clc", "ktype", 1500), R("h_clc", "badvect", 2000)])

_skip = {("h_rand", "dist"), ("h_rand", "dirs"), ("h_rand", "sapdist"), ("h_ts", "expect"), ("h_inv", "homfly_huge"), ("h_iso", "isobig")}
_leak = {}
for _p in list(PROPS.values()):
    for _r in _p["runs"]:
        _k = (_r["harness"], _r["mode"])
        if _k not in _skip and _k not in _leak and _k[0] not in ("h_cli", "h_clc"):
            _leak[_k] = R(_k[0], _k[1], max(100, min(1500, _r["n"][0] // 8)), max(2000, min(30000, _r["n"][0] * 3)), env={"VP_LEAK": "20"})
P("C33", "Memory is never misused and always given back",
  "No operation of the library, on success, on refusal or on malformed input, reads or writes memory it does not own, uses freed memory or computes with undefined values; and once the caller has released what it was given with the matching free function, every byte the operation allocated has been released: nothing becomes unreachable.",
  ["inputs", "histories"], "all workloads of all other properties: every public operation, accepted and rejected inputs, and sequences of operations",
  "leaks and stray accesses do not change results, so tests cannot see them; they depend on the early-return path taken",
  ["src/pdcode.c", "src/pd_crossingmoves.c", "src/pd_isomorphisms.c", "src/pd_storage.c", "src/plCurve.c", "src/octrope.c", "src/plcTopology.c", "src/plcToricSymplectic.c", "src/plcToricSymplecticTriangulation.c"],
  [("pd_code_free, pd_ok, pd_read", "src/pdcode.c"), ("plc_free, plc_read", "src/plCurve.c"), ("pd_free_pdstor", "src/pd_storage.c"), ("pd_build_isos, pd_build_diagram_isotopies", "src/pd_isomorphisms.c")],
  "distinct inputs and histories after which the heap was scanned for unreachable blocks",
  list(_leak.values()), observe="AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer reports; the heap is scanned every 20 cases",
  note="only memory reports count here; wrong results seen on the way belong to the other properties")
PROPS["C33"]["only"] = r"^(leak|asan|ubsan):"
