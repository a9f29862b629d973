#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script because it is easier to edit than one-line JSON).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
T = "include/TAT/"

p("C01", "Charges form an ordered abelian group for every symmetry type",
  "For every symmetry type, adding charges is associative and commutative with the default charge as neutral element and negation as inverse, in-place addition agrees with addition, and negating twice gives the charge back. The six comparison operators agree with one another, describe a strict total order, and two charges are equal exactly when all their components are equal.",
  ["inputs"], "all triples of charges of each symmetry type (full component range whose sums do not overflow)",
  "Charges range over the integers; tests use a handful of small non-negative ones, never ordering triples or negative components.",
  [T+"symmetry.hpp", T+"basic_type.hpp"],
  [("operator+, +=, unary - of the symmetry types", T+"symmetry.hpp"), ("comparison operators through information()", T+"symmetry.hpp")])

p("C02", "A new tensor has exactly the charge-conserving blocks",
  "Constructing a tensor from names and edges gives storage for exactly those combinations of one segment per edge whose charges sum to zero, each holding the product of the segment dimensions, and rank-0 tensors hold one element. A segment keeps its dimension and arrow; segments that occur in no such combination disappear from the edge. Wrong name counts and duplicated names are rejected with an exception.",
  ["inputs"], "all edge lists within the stated rank / segment-count bounds, all charges",
  "The set of blocks depends on arithmetic relations between charges on all edges at once; tests construct a few hand-picked shapes.",
  [T+"tensor.hpp", T+"core.hpp", T+"edge.hpp", T+"edge_miscellaneous.hpp", T+"name.hpp"],
  [("block enumeration over edges", T+"edge.hpp"), ("Core construction and removal of unused segments", T+"core.hpp"), ("name checks", T+"name.hpp")],
  ["Tensor::core edges and blocks", "exceptions from the constructor"])

p("C03", "Element and block access address exactly one element",
  "Reading or writing an element by its named coordinates touches exactly the element at those coordinates: a written value is read back at the same coordinates, every other element keeps its value, and the storage order inside a block is row-major in the tensor's edge order. Block access returns the storage of the block with the given charges whatever order the coordinates are given in.",
  ["inputs"], "all shapes within bounds, all coordinates, all element values",
  "Addressing bugs hide in particular index combinations of particular shapes; tests read a few cells.",
  [T+"get_item.hpp", T+"tensor.hpp", T+"core.hpp"],
  [("offset and symmetry lookup from names", T+"get_item.hpp")])

p("C04", "Tensors are values: no operation changes another tensor",
  "After copying, renaming, converting or otherwise deriving a tensor from another, changing one of them in place (element or block write, fill, zero, transform, in-place arithmetic, load) is never visible through the other. Operations that return a new tensor leave their operands unchanged.",
  ["histories", "inputs"], "all sequences of derive/mutate operations up to the stated length, all values",
  "Storage is shared until written; whether it is detached depends on the history of copies, which tests do not vary.",
  [T+"tensor.hpp", T+"core.hpp", T+"scalar.hpp", T+"get_item.hpp", T+"propagate_const.hpp", T+"io.hpp"],
  [("copy-on-write checks on the shared core", T+"tensor.hpp"), ("in-place scalar operators", T+"scalar.hpp"), ("mutable accessors", T+"get_item.hpp")])

p("C05", "Transpose moves every element to its permuted coordinates",
  "Transposing to any ordering of a tensor's edge names gives a tensor with exactly that order in which every element sits at the same named coordinates as before, for every shape including dimension 0 and 1 and for block sizes on either side of the cache-blocking thresholds. For fermionic tensors the element is multiplied by -1 exactly when the permutation exchanges an odd number of pairs of odd-parity edges.",
  ["inputs"], "all permutations and shapes within bounds, all element values and charges",
  "The copy kernels specialise on rank, contiguous tails and sizes; tests transpose a few fixed shapes.",
  [T+"transpose.hpp", T+"edge_operator.hpp", T+"symmetry.hpp"],
  [("transpose kernels", T+"transpose.hpp"), ("edge_operator plan", T+"edge_operator.hpp"), ("transpose parity", T+"symmetry.hpp")])

p("C06", "Merging and splitting edges is a bijection of elements",
  "Merging groups of edges places every element of the tensor at exactly one position of the merged edge, merged segments having the summed charge and the summed product dimensions, and positions inside a merged segment following the order of the merged edges. The merged edge takes the place of the last edge of its group. Splitting with the original edges restores names, edges and every element; merging an empty group adds a first edge of dimension one.",
  ["inputs"], "all shapes, groupings and orders within bounds, all values and charges",
  "Offsets inside merged segments depend on all charges and dimensions together; tests cover a few groupings.",
  [T+"edge_operator.hpp", T+"edge.hpp"],
  [("merge/split offset tables", T+"edge_operator.hpp"), ("merged edge computation", T+"edge.hpp")])

p("C07", "Fermionic edge operations carry consistent signs",
  "Reversing an edge flips its arrow, keeps its segments and changes the sign of exactly the odd-parity elements when the sign is applied to that tensor; merging or splitting applies the sign of fully reversing the merged edges where it is applied. Names excluded from a sign flip the decision for exactly those edges, so that applying an operation to one side and the complementary one to the other side of a contraction leaves the contraction unchanged.",
  ["inputs"], "all fermionic shapes, edge sets, parity flags and exclude sets within bounds, all charges including negative ones",
  "Signs depend on charge parities, arrows and four exclude sets jointly; tests use one or two combinations.",
  [T+"edge_operator.hpp", T+"symmetry.hpp", T+"edge_miscellaneous.hpp"],
  [("reverse/transpose/split/merge parity helpers", T+"symmetry.hpp"), ("parity bookkeeping", T+"edge_operator.hpp")])

p("C08", "A combined edge operation equals its steps done one by one",
  "Doing rename, split, reverse, merge and transpose in one combined edge operation gives the same names, edges and elements as performing the individual operations one after another. Renaming alone changes only the names and keeps every element.",
  ["inputs", "programs"], "all combinations of the steps within bounds, all values and charges",
  "The combined path has its own index bookkeeping; tests try single combinations.",
  [T+"edge_operator.hpp", T+"edge_miscellaneous.hpp", T+"name.hpp"],
  [("edge_operator", T+"edge_operator.hpp"), ("rename, transpose, reverse_edge, merge_edge, split_edge", T+"edge_miscellaneous.hpp")])

p("C09", "Contraction is the sum over paired edges",
  "Contracting two tensors over a set of name pairs gives the tensor whose edges are the remaining edges of the first then of the second and whose elements are the sums, over all values of the paired edges, of products of elements, with missing blocks counting as zero; pairs naming an absent edge are ignored. This holds for real and complex scalars, every symmetry type, zero dimensions and any edge order, and paired edges of tensors without symmetry with different dimensions are rejected.",
  ["inputs"], "all shapes, edge orders and pairings within bounds, all values and charges",
  "Result depends on layout choices, block matching and BLAS arguments that vary with order and shape; tests contract a few fixed tensors.",
  [T+"contract.hpp", T+"edge_operator.hpp"],
  [("merge to matrices, gemm, split", T+"contract.hpp")])

p("C10", "Contraction keeps shared fuse edges elementwise",
  "For tensors without symmetry, an edge name present in both tensors and not in the contraction pairs is kept once in the result and multiplied elementwise: each result element is the sum over the paired edges with the shared edges held at the same index in both operands. Shared edges of different dimensions are rejected.",
  ["inputs"], "all shapes, edge orders and numbers of shared edges within bounds, all values",
  "Batched multiplication depends on the position of shared edges and on zero/one sizes; tests fix one layout.",
  [T+"contract.hpp"], [("fuse names and batched gemm", T+"contract.hpp")])

p("C11", "Fermionic contraction respects the sign rules",
  "For fermionic tensors, contraction gives the same result up to the sign of reordering edges whatever edge order the operands are stored in, and equals the reference sum with the sign of moving the paired edges next to each other. Contracting is associative: contracting three tensors in either order gives equal tensors. (Pairs of several edges whose components share a total charge are excluded: see the known finding of C09.)",
  ["inputs"], "all charges (parities), arrows and edge orders within bounds, all values",
  "Sign errors only show for specific parity patterns and orders; tests contract few fermionic tensors.",
  [T+"contract.hpp", T+"edge_operator.hpp", T+"symmetry.hpp"],
  [("parity exclude sets used by contract", T+"contract.hpp")])

p("C12", "Trace sums the paired edges of one tensor",
  "Tracing name pairs gives the tensor over the remaining edges, in their order, whose elements are the sums of the elements with the paired edges at equal index. It equals contracting the tensor with the identity on these pairs, also for symmetric and fermionic tensors, independent of the order in which pair members are given.",
  ["inputs"], "all shapes, pairings and edge orders within bounds, all values and charges",
  "Tests compare traces of random dense tensors at a few seeds.",
  [T+"trace.hpp", T+"edge_operator.hpp"], [("trace through merge and diagonal sum", T+"trace.hpp")])

p("C13", "Arithmetic operators act elementwise",
  "Adding, subtracting, multiplying and dividing tensors and numbers, in place or not, on either side, act element by element on elements with equal named coordinates even when the operands store their edges in different orders (arrows of fermionic edges being equal). Operands with different edge name sets or different shapes are rejected.",
  ["inputs"], "all shapes, orders and operand combinations within bounds, all values",
  "Operators are generated for many operand kinds; tests try equal layouts.",
  [T+"scalar.hpp"], [("operator templates", T+"scalar.hpp")])

p("C14", "Norms, map, conversion and conjugation are elementwise faithful",
  "The max, 0, 1 and 2 norms of a tensor and the max and 1 norms of singular values equal their definitions over all elements of all blocks; map and transform apply the function once to every element; converting the scalar type keeps shape and values (real part when narrowing complex to real). Conjugation conjugates elements, negates charges and flips arrows, multiplying a fermionic element by the sign of reversing the order of all its edges, and conjugating twice gives the tensor back; a dense or Z2 tensor contracted with its conjugate over all edges gives the squared 2-norm.",
  ["inputs"], "all shapes within bounds, all values and charges",
  "Block-structured reductions are only sampled by tests.",
  [T+"tensor.hpp", T+"tensor_miscellaneous.hpp"], [("norm, map, transform, to", T+"tensor.hpp"), ("conjugate", T+"tensor_miscellaneous.hpp")])

p("C15", "SVD reconstructs the tensor and cuts the smallest values",
  "Given a correct matrix decomposition, the singular value decomposition of a tensor over any bipartition of its edges gives U, S, V whose product is the original tensor, U and V having the requested names in the documented positions. With a cut, exactly that many singular values survive (all of them if there are fewer), counted over all charge sectors together, and no dropped value is larger than a kept one; kept rows and columns stay matched.",
  ["inputs"], "all shapes, bipartitions, edge orders and cuts within bounds, all values and singular spectra",
  "Truncation across sectors and transposed layouts depend on the spectrum and the order; tests use random dense tensors.",
  [T+"svd.hpp"], [("svd kernel wrappers and cut", T+"svd.hpp")])

p("C16", "QR reconstructs the tensor with an isometric factor",
  "Given a correct matrix factorisation, QR of a tensor over any bipartition and either direction gives Q and R whose product is the original tensor, Q being an isometry over the common edge, with the requested names, for wide, tall and square blocks and every edge order.",
  ["inputs"], "all shapes, bipartitions, directions and edge orders within bounds, all values",
  "The code picks among four LAPACK paths by layout and aspect ratio.",
  [T+"qr.hpp"], [("qr/lq selection and triangular extraction", T+"qr.hpp")])

p("C17", "Exponential is the scaled and squared Pade approximant",
  "The exponential of a tensor seen as a matrix over name pairs is the matrix the documented scaling, rational approximation and squaring give, with edges and names of the original tensor. For matrices whose power series ends, it is the exponential exactly; it does not depend on the order of pairs or edges and is the identity for the zero tensor. Products and the neutral element are those of contraction, also for symmetric and fermionic tensors and several pairs.",
  ["inputs"], "all matrices up to the stated size and steps, all values",
  "Tests exponentiate two matrices.",
  [T+"exponential.hpp"], [("matrix_exponential", T+"exponential.hpp")])

p("C18", "Multiplying or dividing by singular values scales along one edge",
  "Multiplying a tensor by singular values along a named edge scales every element by the value of its position and charge on that edge (the opposite charge for the other direction), dividing undoes it exactly for non-zero values, an absent edge leaves the tensor unchanged, and nothing else changes.",
  ["inputs"], "all shapes, edges, directions within bounds, all values",
  "Tests multiply in one layout only.",
  [T+"tensor_miscellaneous.hpp"], [("multiple", T+"tensor_miscellaneous.hpp")])

p("C19", "Shrink selects and expand embeds a slice",
  "Shrinking edges at given positions returns exactly the elements at those positions over the other edges; expanding creates the edges with the tensor at the given position and zeros elsewhere. Shrinking what was expanded gives the original back.",
  ["inputs"], "all shapes and positions within bounds, all values and charges",
  "Positions and multi-edge slices are sampled by few tests.",
  [T+"shrink_and_expand.hpp"], [("shrink, expand", T+"shrink_and_expand.hpp")])

p("C20", "Identity is one on equal paired indices and zero elsewhere",
  "The identity built on a tensor's shape with name pairs has elements one where all paired indices agree and zero elsewhere, keeping names, order and edges; contracting any compatible tensor with it over one side of the pairs returns that tensor (for fermionic tensors, over the side whose arrows point as the paired ones require).",
  ["inputs"], "all shapes, pairings and edge orders within bounds",
  "Tests build one identity.",
  [T+"tensor_miscellaneous.hpp"], [("identity", T+"tensor_miscellaneous.hpp")])

p("C21", "Binary serialisation is lossless",
  "Loading what was dumped gives back identical names, edges, arrows, block structure and element values, for tensors and for singular values of every scalar and symmetry type, and consumes exactly the bytes written so that consecutive objects in one stream stay separate. Loading replaces every trace of the target's former content.",
  ["inputs", "histories"], "all shapes within bounds, all element values and charges",
  "Tests round-trip a few tensors.",
  [T+"io.hpp", T+"name.hpp"], [("binary operators < and >", T+"io.hpp"), ("name dataset", T+"name.hpp")])

p("C22", "Text serialisation reads back what it wrote",
  "Printing a tensor as text and parsing the text gives back the same names, edges, arrows and elements, for every symmetry type, for names of printable characters without blanks, commas and brackets and for numbers whose printed spelling reads back exactly, and parsing leaves the stream directly after the object.",
  ["inputs"], "all shapes, charges and element values within bounds, real and complex",
  "Sign, imaginary-part and separator handling has many cases; one test prints a few tensors.",
  [T+"io.hpp"], [("text operators << and >>", T+"io.hpp")])

p("C23", "Edge names are interned one to one",
  "Two names compare equal exactly when their texts are equal, every name gives its own text back, and the order of names is a strict total order consistent with equality, whatever names were created before.",
  ["histories", "inputs"], "all sequences of name creations up to the stated length over all short texts",
  "Tests create a fixed set of names.",
  [T+"name.hpp"], [("name dataset", T+"name.hpp")])

p("C24", "Collective communication delivers every value exactly once",
  "Broadcast gives every rank the root's value; reduction gives the root the combination of every rank's value each used exactly once; send-receive delivers the sender's value. Every message sent is received by the rank it is meant for, and no rank waits for a message nobody sends, for every number of ranks and every root.",
  ["schedules", "configurations"], "all rank counts, roots and delivery orders within bounds, all values",
  "The test runs with 1 and 4 processes and fixed roots.",
  [T+"mpi.hpp"], [("tree broadcast and reduce", T+"mpi.hpp")])

p("C25", "A lazy node never shows a stale value",
  "After any sequence of setting roots, unsetting, reading nodes, building new nodes, destroying nodes and restoring snapshots, reading a node whose roots have values gives the value its function has on the current values of its inputs, and nodes already evaluated on unchanged inputs are not evaluated again. Restoring a snapshot brings back the values that held when it was taken.",
  ["histories"], "all histories up to the stated length over a graph with sharing and paths, all values",
  "Staleness depends on the order of sets and reads; the test does one.",
  ["include/lazy.hpp"], [("downstream invalidation", "include/lazy.hpp"), ("snapshot dump/load", "include/lazy.hpp")])

p("C26", "Lattice amplitudes do not depend on cached environments",
  "On the square lattice of the C++ headers with real tensors and without truncation, the amplitude of a configuration and the amplitudes with one or two neighbouring sites replaced equal the full contraction of the lattice with these sites, whatever was set, replaced and evaluated before and whichever direction hint is used. The hole tensor of a site contracted with that site's tensor gives the amplitude.",
  ["histories", "inputs"], "all site tensors (values) on lattices within bounds, all flip histories up to the stated length",
  "Environments are cached and invalidated lazily; tests compute a few random lattices.",
  ["include/square/auxiliaries_system.hpp", "include/square/sampling_gradient_lattice.hpp", "include/lazy.hpp"],
  [("auxiliary environments", "include/square/auxiliaries_system.hpp"), ("spin configuration", "include/square/sampling_gradient_lattice.hpp")])

p("C27", "Lattice sampling visits and weighs configurations correctly",
  "Exhaustive sampling visits every configuration exactly once and returns, for each observable term, its expectation value over all configurations weighted with the squared amplitude. A Markov step proposes only configurations connected by the term, accepts exactly when the random number is below the squared amplitude ratio times the ratio of proposal counts, and leaves configuration and returned amplitude consistent. Averages of a run are the means of the local values over its steps, their squared errors are the variance of these values divided by one less than the number of steps, and the gradient is twice the mean of energy times logarithmic derivative less the product of their means. Amplitudes are real and not zero.",
  ["inputs", "histories"], "all amplitudes, observables and random numbers on lattices within bounds",
  "Sampling is random; tests compare one energy with tolerance.",
  ["include/square/sampling_gradient_lattice.hpp"], [("ergodic, markov", "include/square/sampling_gradient_lattice.hpp")])

p("C28", "Lattice updates apply every term once and lattices convert faithfully",
  "A sweep schedule contains every one-site and nearest-neighbour term exactly once, terms in one parallel group share no site, and unsupported terms are rejected. Without truncation, a term applied to a lattice changes the state it stands for to a multiple of the term's gate applied to the old state, whichever order its sites are given in, and a sweep gives the evolution by all terms on any number of ranks. Expectation values and the power step on the exact state equal their definition; converting between the three kinds of lattice keeps the state up to a factor and the terms; saving and loading a lattice restores it.",
  ["inputs", "configurations"], "all sets of terms on lattices within bounds, all values",
  "Tests use the standard Heisenberg terms only.",
  ["include/square/simple_update_lattice.hpp", "include/square/exact_lattice.hpp", "include/square/abstract_lattice.hpp", "include/square/abstract_network_lattice.hpp", "include/square/conversion.hpp"],
  [("position sequences", "include/square/simple_update_lattice.hpp"), ("single term update", "include/square/simple_update_lattice.hpp"), ("observe", "include/square/exact_lattice.hpp"), ("conversions", "include/square/conversion.hpp"), ("lattice IO", "include/square/abstract_lattice.hpp")])

p("C29", "Scratch memory is aligned, disjoint and released",
  "Scratch allocations made during an operation never overlap one another, lie inside memory owned by the scratch pool, are aligned as requested (up to the alignment of max_align_t), and fall back to ordinary memory when the buffer is full; leaving the scope restores the previous scratch pool.",
  ["histories", "inputs"], "all sequences of allocation sizes and alignments up to the stated length, nested scopes",
  "Overflow of the fixed buffer depends on exact sizes; tests never fill it.",
  [T+"pmr_resource.hpp"], [("monotonic buffer and scope resource", T+"pmr_resource.hpp")])

p("C30", "New lattices and the standard spin terms are what they claim to be",
  "A new network lattice has at every site one physical edge and exactly the edges towards existing neighbours, with the requested dimensions and elements scaled so that the largest is one; a new exact state has one physical edge per site. Setting a term on all sites, all vertical or all horizontal bonds puts it on each of them exactly once and nowhere else. The standard one-site operators satisfy the spin-one-half algebra (up to the common orientation of the imaginary unit), and the two-site terms are their products, the sum of them being half the exchange of the two spins less a quarter.",
  ["inputs", "configurations"], "all lattice sizes and dimensions within bounds, all states the operators act on, one free random element",
  "Tests build one size and use the terms only inside larger computations.",
  ["include/square/basic.hpp", "include/square/abstract_lattice.hpp", "include/square/abstract_network_lattice.hpp", "include/square/exact_lattice.hpp"],
  [("standard operators", "include/square/basic.hpp"), ("set_all_site, set_all_vertical_bond, set_all_horizontal_bond", "include/square/abstract_lattice.hpp"), ("lattice constructors", "include/square/abstract_network_lattice.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
