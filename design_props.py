# id: (what is generated, oracle, bounds)
D={
"C01":("random 4-regular planar maps (from random trees of moves, braids, chord pictures), multi-component, with loops and 2-edge components, signed/unsigned, presented with shuffled crossings, rotated slots and renumbered edges","the model's own faces, components, Euler characteristic and canonical-order rules; regenerating twice must be a no-op","up to ~60 crossings; 0-crossing diagrams included"),
"C02":("diagrams by random moves from the unknot, braid closures, torus links, connected sums and distant unions, up to 250 crossings and dozens of components","skein recursion in the model (budgeted), closed formulas for torus links, multiplicativity over connected sums and split unions, invariance under moves applied by the model, mirror symmetry","lmpoly's documented limits (250 crossings, output buffer); the oracle's skein budget skips the heaviest cases"),
"C03":("diagram + legal R1/R2 site, or whole simplification","exact: the model performs the same move and canonical codes with signs, orientation and tags are compared; simplify: HOMFLY, linking numbers, no monogon left","sites incl. those that split the diagram or leave 0-crossing pieces"),
"C04":("diagram + edge/face site + sign","the model performs the addition / flip; canonical codes compared; refusals (e1=e2, non-triangles) must be NULL","R2 addition and R3 flip are shadow operations in the library"),
"C32":("diagrams with dual cycles bounding tangles (also revisiting faces), strands over/under, anchored outside; corrupted boundary data","flood fill for insides and strand tracing; the slid diagram is redrawn by the model and compared piece by piece; bad data must give PD_TANGLE_ERROR","`pd_flype`/`pd_tangle_flype` are not implemented in the library and are left out"),
"C05":("pairs of diagrams and edges; subsets of components","model connected sum / reversal; canonical codes; inputs compared before and after",""),
"C06":("diagrams of C01 with uid, hash, tags, unset signs; several per file; hand-written files without optional parts","field-by-field identity after reading back; position of the stream; independent text parser",""),
"C07":("KnotTheory text from the model and from the library","independent parser; canonical codes with orientation",""),
"C08":("byte- and token-level mutations, truncations, number changes, deletions, duplicated records, huge counts of valid files","a strict independent parser decides whether the text denotes a diagram; the library must then return it, otherwise NULL; never a crash, assert, hang or invalid structure","counts that merely exhaust memory are left out"),
"C09":("pairs of diagrams: relabelled, reflected, flipped, one crossing changed, same hash data but different, with 0 crossings, disconnected","canonical codes (with reflection); number of isomorphisms against the model's automorphism count; each returned isomorphism is applied and checked; hashes equal for isomorphic","the cost of pd_isomorphic grows as the product of component lengths, so pairs are kept tame"),
"C10":("as C09 with signs, tags and orientations; mirror and reversal variants","canonical codes with signs, orientation, tags","same"),
"C11":("shadows of all sizes incl. those crossing the 1-, 2- and 4-byte packing limits","unpack(pack(d)) canonical and field identity","tags and uid are documented as not kept"),
"C12":("histories of add / search / iterate / merge / write / read over several stores with each equivalence","a reference multiset keyed by canonical codes, with uid and count bookkeeping","documented iterator preconditions are respected"),
"C13":("signed and unsigned diagrams","linking numbers, unsigned linking numbers, strand roles, interlacements, face and edge queries recomputed from the half-edge model",""),
"C14":("diagrams of every Rolfsen-table knot and products, disturbed by random moves; links; knot names valid and not","the known type must be among those returned, and all returned have the right HOMFLY; name grammar re-implemented","the table distinguishes types only by HOMFLY"),
"C15":("torus knots/links, lattice polygons, random and star polygons, chains, planar-degenerate curves, at all positions and scales; large polygons with thousands of crossings; projection direction held fixed","own projection in long double from another direction; HOMFLY, linking numbers; for large curves linking numbers and the Vassiliev invariant v2 from a Gauss diagram","clearance of at least 1% of the mean edge; links connected by linking numbers (the library exits on split projections)"),
"C16":("valid diagrams and single- or multi-field corruptions","the model's validity test; copies compared and mutated","partial face lists are legal (a test of the suite relies on it), so removing or repeating a face is not a corruption"),
"C17":("disjoint unions of up to 40 pieces incl. loose circles and tags; all builders with all small parameters","model splitting; closed descriptions of torus, twist, unknot, chain and wye diagrams",""),
"C36":("polynomials with sparse/dense/huge coefficients, lmpoly text of real knots, latex/KnotTheory text","independent sparse polynomial arithmetic and parsers, round trips","coefficients must fit an int; MAXPOLY text limit"),
"C20":("curves with open/closed strands, shared/none/per-vertex colours, extreme values, NaN-free; hand-formatted VECT text with comments and odd white space","bitwise equality after the documented decimal rounding; independent VECT parser",""),
"C21":("mutated VECT files","independent strict parser; either NULL with error number or a well-formed curve","memory-exhausting counts left out"),
"C22":("histories of add/drop component, resize, colour, scale, rotate, translate, project, pfm, double, reverse, delete arc ...","value model after every operation, other components untouched, wrap vertices correct","plc_rotate and plc_double_verts do not transform constraints (documented)"),
"C23":("curves with straight, folded, doubled and tiny edges","long-double recomputation with error bounds; vector primitives over random and degenerate inputs","conditions ill-posed at rounding level are skipped"),
"C24":("histories of set/remove constraints on overlapping runs, then queries, fixing and checking","per-vertex constraint map",""),
"C25":("random curves, tangents, resampling counts","interpolation, C1 continuity, derivative by finite differences, end tangents, even parameter spacing, colour and constraint carry-over",""),
"C26":("group elements, curves, planes; symmetry groups and their actions","group laws on matrices, direct construction of mirrored/reversed/permuted curves","quantifiers are not permuted by plc_whitten (left)"),
"C27":("all samplers, all sizes from the smallest allowed; SAPs","edge lengths, closure, planarity, self-avoidance; known second moments and exact enumerations, thresholds near 1e-10 false-alarm chance each","hypersimplex sampler cannot be built (naptable.h missing)"),
"C28":("random, symmetric, near-touching and special-position curves, open and closed, all epsilon/cutoff options","brute-force long-double minimal distances and min-rad over all pairs; struts must be complete and sound within tolerance; strut file round trip","pairs decided by less than rounding error are neither required nor forbidden"),
"C29":("triangulations, embeddings, every chain, geyer statistics, expectation runs and logs","edge lengths, confinement, dihedral/diagonal coordinates, reference geyer estimator, exactly known expectations with 9 SE","unbuildable/undefined entry points left out"),
"C30":("point clouds of all sizes 0..6000, dims 1..10, duplicates, reused search structures; curves","brute force",""),
"C31":("all group sizes and orders; isomorphism groups of symmetric diagrams; container histories","closed-form counts, uniqueness, algebra of dihedral/cyclic/permutation elements, std:: containers",""),
"C34":("stores of up to 400 diagrams built by the model, written to scratch files; every program (built from /repo with sanitizers) run with random option combinations; truncated, mutated, empty and missing files","every output file is read back (store reader, KnotTheory reader, text parsers) and compared with the set or multiset computed by the model: canonical codes, own connected sums, own expansions over orientations and signs, own interlacements and polynomials; exit status and sanitizer reports of each child process","`orientedshadows` beyond ten components is too slow to drive; formats of screen messages are not checked"),
"C37":("open and closed curves of one to three components (circles, torus knots, random walks, hairpins) written to VECT files with 17 digits; every program (built from /repo with sanitizers) run with random option combinations; truncated, mutated, empty and missing files","what is printed and written is parsed and compared: lengths, curvatures, minrad corners and diameters with a long double computation, struts and thickness with the library called in process (judged by C28), edge lengths, gaps, confinement, self-avoidance and reproducibility of every random sample, knot types of the filtered samples, known types of torus knots, polynomials in each format and their products","`plcurvature -g` (gnuplot), debug levels and the clasp mode of `--excesslength` are not driven; mrlocs' `--lambda` is only held to the bounds on which its help text and its code agree"),
"C33":("every workload above, smaller","ASan, UBSan and LeakSanitizer; only memory reports count","leaks only on error paths nobody reaches in the workloads are not seen"),
}
