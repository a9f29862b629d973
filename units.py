import os
# One entry per property: the harness units that decide it, their bounds (text for the evidence) and the vacuity witnesses they must reach.
def U(name, src, bounds, reach, *flags, **kw):
    return dict(name=name, src=src, bounds=bounds, reach=reach, flags=list(flags), **kw)


def P(n):
    return f"-DPART={n}"


MPI = ["-DTAT_USE_MPI", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/mpi")]
REALS = "element values: all reals"
PROPS = {
    "C01": {"units": [
        U("group", "C01.cpp", "all six symmetry types; U1 charges -5e8..5e8, fermion numbers -10000..10000 (three charges, sums do not overflow), all parities",
          ["No", "Z2", "U1", "Fermi", "FermiZ2", "FermiU1"]),
    ], "outside": ["charges whose sum overflows their integer type"]},
    "C02": {"units": [
        U("dense-z2-fz2", "C02.cpp", "dense rank 0..4 dims 0..2; Z2 rank 0..2 with 0..2 segments dims 0..2; fermi Z2 rank 2, 1..2 segments, fermion numbers -100..100; rank-0 construction, one(), automatic arrow for charges -50..50; wrong name counts, duplicated names",
          ["dense", "z2", "z2.dropped", "scalars", "auto_reverse", "fermiz2", "same_shape"], P(0)),
        U("u1-fu1", "C02.cpp", "U1 rank 1..2 with 0..2 (thorough 0..3) segments dims 0..2, rank 3 with 1..2 segments, charges -1000..1000; fermi U1 rank 2, charges -100..100",
          ["u1", "u1.dropped", "u1rank3", "fermiu1"], P(1)),
    ]},
    "C03": {"units": [
        U("dense-z2", "C03.cpp", "dense rank 0..3 dims 0..3, dense complex rank 1..2 dims 1..2, Z2 rank 2 dims 0..2, Z2 rank 3; every element, written through at() or block(); " + REALS,
          ["dense.at", "dense.block", "complex.at", "complex.block", "z2.at", "z2.block", "z2rank3.at", "z2rank3.block", "rejected"], P(0)),
        U("u1-fu1", "C03.cpp", "U1 rank 2, 1..2 segments of dim 1..2 (thorough 1..3), charges -1000..1000; fermi U1 rank 2, charges -3..3; every element; " + REALS,
          ["u1.at", "u1.block", "fermiu1.at", "fermiu1.block", "rejected"], P(1)),
    ]},
    "C04": {"units": [
        U("pairs", "C04.cpp", "every pair of 14 ways to derive a tensor and 16 ways to change one in place, on dense, complex Z2 and fermi U1 tensors of rank 2; " + REALS,
          ["dense", "z2", "fermi", "reassign"], P(0)),
        U("chains", "C04.cpp", "three tensors derived from one another in every combination of 9 ways that may share storage (thorough: all 14), then one of them changed in any of 16 ways; dense rank 1; references held across a deep copy; " + REALS, ["chain", "held"], P(1), budget=90),
    ]},
    "C05": {"units": [
        U("dense", "C05.cpp", "dense double: rank 0..3 with dims 0..3 (thorough 0..4), rank 4 with dims 0..2 (thorough 0..3), rank 2..3 with one dim 15..17; all permutations; " + REALS,
          ["dense3", "dense4", "line"], P(0)),
        U("small-cache", "C05.cpp", "as dense plus fermionic rank 2, with the cache size (a documented build option) set below one element, so the other loop order is used",
          ["cache3", "cache4", "cachefermi", "cacheline"], P(3), "-DTAT_L1_CACHE=1"),
        U("symmetric", "C05.cpp", "U1 rank 3, 1..2 segments of dim 1, all charges in -1000..1000; Z2 complex rank 2 dims 0..2; dense complex rank 0..2; all permutations; " + REALS,
          ["u1", "z2", "complex"], P(1)),
        U("fermi", "C05.cpp", "Fermi rank 3, 1..2 segments of dim 1, all charges in -3..3 (thorough -9..9), all arrows, all permutations; " + REALS, ["fermi", "fermi.minus"], P(2), budget=120),
        U("fermi-high-rank", "C05.cpp", "Fermi rank 4 with 2 segments per edge, all permutations; rank 5 and 7 with one element and any edges odd, every exchange of two edges and the reversal (thorough: rank 5 in all permutations); complex FermiZ2 rank 3 with dims 1..3, all permutations; all arrows; " + REALS, ["fermi4", "fermi4.minus", "fermi5.minus", "fermi7.minus", "fermiz2.minus"], P(4)),
    ]},
    "C06": {"units": [
        U("dense", "C06.cpp", "dense rank 0..3 dims 0..2, every ordered group of edges including the empty one; rank 4 dims 1..2, every pair of two-edge groups; " + REALS, ["dense", "dense2", "empty"], P(0)),
        U("symmetric", "C06.cpp", "U1 rank 2 charges -9..9, U1 rank 3 charges -2..2 (thorough -4..4), Z2 complex rank 3, Z2 rank 4; every ordered group; " + REALS, ["u1", "z2", "z2two", "u1rank3", "empty"], P(1)),
    ]},
    "C07": {"units": [
        U("reverse", "C07.cpp", "reverse_edge on Fermi rank 2, FermiZ2 and FermiU1, symbolic charges and arrows, parity flag and excluded edges; " + REALS, ["reverse.fermi", "reverse.fermiz2", "reverse.fermiu1"], P(0)),
        U("merge-fermi", "C07.cpp", "merge and split of Fermi edges with mixed arrows, every ordered group of rank 3 (thorough: three edges merged), parity flag on/off, round trip; " + REALS, ["merge.fermi", "roundtrip", "aligned"], P(1)),
        U("both", "C07.cpp", "the same edge pair reversed or merged on both operands of a contraction leaves the contraction unchanged; " + REALS, ["both.reverse", "both.merge"], P(2)),
        U("merge-fz2", "C07.cpp", "merge and split of FermiZ2 edges; the flag of every reversal; " + REALS, ["merge.fermiz2", "merge.flags", "merge.neutral", "roundtrip", "aligned"], P(3)),
    ]},
    "C08": {"units": [
        U("steps", "C08.cpp", "edge_operator with any subset of rename/split/reverse/merge/permute at once equals the steps one after another, on dense, Z2; " + REALS, ["dense", "z2", "rename"], P(0)),
        U("fermi", "C08.cpp", "the same on Fermi tensors with every parity flag; " + REALS, ["fermi"], P(1)),
        U("cut", "C08.cpp", "cut of edges of U1 and Fermi tensors to smaller dimensions and removed segments; split into parts some of whose combinations do not exist; " + REALS, ["cut.u1", "cut.fermi", "cut.split", "partial"], P(2)),
    ]},
    "C09": {"units": [
        U("dense", "C09.cpp", "dense, 0..2 paired edges, 0..1 free edges per operand (one case with 2), dims 0..2 (one case 2..3), every edge order of both operands; real, and real with complex; mismatched dimensions 1..3; " + REALS,
          ["dense", "dense.free2", "mismatch", "duplicate", "mixed"], P(0)),
        U("u1", "C09.cpp", "U1: one paired edge with 2 segments and symbolic charges -3..3 (thorough -9..9), one free edge each; two paired edges with distinct total charges and dims 1..2; every edge order; " + REALS, ["u1", "u1two"], P(1)),
        U("u1-order", "C09.cpp", "U1, two paired edges with charges 0 and 1 each, so that two components share the total charge 1 (known finding); " + REALS, ["u1order"], P(3)),
        U("z2", "C09.cpp", "Z2: two paired edges, one free edge each, complex with one paired edge; U1 with unmatched segments, charges -2..3; " + REALS, ["z2two", "z2complex", "unmatched", "unmatched.two"], P(2)),
        U("single", "C09.cpp", "float and complex<float>, dense with one pair and one free edge each, dims 1..2; float Z2; every edge order; " + REALS, ["float", "complexfloat", "z2float"], P(4)),
    ]},
    "C10": {"units": [
        U("fuse", "C10.cpp", "1..2 shared edges, 0..1 paired, 0..1 free edges per operand, every edge order of both, dims 2..3; dims 0..2 (thorough 0..3) with one of each; complex; mismatched dims 0..3; a free edge named like a paired edge of the other operand; " + REALS, ["layouts", "dims", "complex", "mismatch", "repeated", "duplicate"], P(0)),
        U("fuse-two-pairs", "C10.cpp", "one shared, two paired, one free edge per operand, every edge order, dims 2..3; " + REALS, ["twopairs"], P(1)),
    ]},
    "C11": {"units": [
        U("reference", "C11.cpp", "Fermi, one paired edge and one free edge each with 2 segments, charges -2..2 (thorough -9..9), all arrows and edge orders; " + REALS, ["fermi"], P(0)),
        U("reference-more", "C11.cpp", "two paired Fermi edges (distinct total charges), FermiZ2, complex FermiU1, all arrows, all edge orders; " + REALS, ["fermi.two", "fermiz2", "fermiu1"], P(1)),
        U("orders", "C11.cpp", "transposed and exchanged operands, rank 3 with rank 2, all arrows; " + REALS, ["orders"], P(2)),
        U("associativity", "C11.cpp", "three tensors in a chain (charges -1..1, thorough -3..3) and in a triangle (distinct total charges), all arrows; " + REALS, ["chain", "triangle", "chain.fermiz2"], P(3)),
    ], "outside": ["several paired edges with components of equal total charge (known finding of C09)"]},
    "C12": {"units": [
        U("dense", "C12.cpp", "one or two pairs, 0..2 free edges, dims 0..3, every edge order and pair orientation; complex; identity contraction; mismatched dims; " + REALS, ["dense0", "dense1", "dense2", "complex", "dense5", "mismatch", "identity"], P(0)),
        U("symmetric", "C12.cpp", "U1 one pair with symbolic charges -3..3 (thorough -9..9) and one free edge, U1 two pairs, Z2, pairs with unmatched segments; every edge order; " + REALS, ["u1", "u1two", "z2", "unmatched", "identity"], P(1)),
        U("fermi", "C12.cpp", "Fermi one pair and two free edges (symbolic charges), two pairs with 0 and 2 free edges, FermiZ2; all arrows; " + REALS, ["fermi", "fermi.two", "fermi.six", "fermiz2"], P(2)),
    ]},
    "C13": {"units": [
        U("operators", "C13.cpp", "+ - * / in and out of place between tensors (dense rank 0..3, complex, mixed, U1 with symbolic charges, Fermi rank 3; second operand in every edge order), with numbers on either side, singular values, a tensor with itself; partly overlapping segments; rejected shapes; " + REALS,
          ["dense", "complex", "mixed", "u1", "fermi", "number", "number.complex", "number.mixed", "partial", "partial.inplace", "rejected", "singular", "self", "neither"]),
    ], "outside": ["division by zero", "fermionic operands whose arrows differ"]},
    "C14": {"units": [
        U("elementwise", "C14.cpp", "norms max/0/1/2/4, max and 1 norms of up to 3 singular values, map, transform, set, zero, test, conversion, conjugate on dense dims 0..2, complex, U1, Z2, Fermi, FermiZ2, FermiU1 with 1..2 segments and symbolic charges -4..4; " + REALS,
          ["norm.dense", "norm.complex", "norm.singular", "norm.number", "norm.u1", "norm.fermi", "map.dense", "map.u1", "map.fermi", "to.dense", "to.fermi", "conj.dense", "conj.u1", "conj.z2", "conj.fermi", "conj.fermiu1", "conj.u1block", "conj.fermiblock", "norm2", "norm2.fermi"]),
    ]},
    "C15": {"units": [
        U("dense", "C15.cpp", "dense rank 2 dims 0..3 by 0..2, rank 3, complex, every bipartition; isometry of U and V; every cut from 1 on; " + REALS, ["dense", "dense3", "complex", "isometry", "cut"], P(0)),
        U("symmetric", "C15.cpp", "U1 rank 2 with symbolic charges -3..3 (thorough -9..9), U1 rank 3, complex Z2, every bipartition; " + REALS, ["u1", "u1three", "z2"], P(1)),
        U("fermi", "C15.cpp", "Fermi rank 3 and FermiZ2 rank 2, all arrows, every bipartition; " + REALS, ["fermi", "fermiz2"], P(2)),
        U("cut", "C15.cpp", "every cut, U1 with two sectors of two singular values and Fermi rank 3, all orders of the singular values of the sectors; " + REALS, ["cut.u1", "cut.fermi"], P(3)),
        U("single", "C15.cpp", "float dense 1..3 by 2 with isometry and every cut, complex<float> 2 by 1, float Fermi rank 2, every bipartition; " + REALS, ["float", "complexfloat", "cut.float", "isometry.float", "fermi.float"], P(4)),
            U("large", "C15.cpp", "dense dims 1..5 (cut: 2..4), complex dims 2..4, U1 rank 3; operands of the form U diag(s) V with fixed isometries U, V and free s; every bipartition",
          ["large", "largecut", "largecomplex", "largeu1"], P(5)),
    ], "outside": ["whether LAPACK decomposes a matrix correctly (its contract is assumed)"]},
    "C16": {"units": [
        U("dense", "C16.cpp", "dense rank 0, rank 2 dims 0..3, rank 3 and 4 in every edge order, complex; every bipartition, both directions; " + REALS, ["dense", "dense3", "dense4", "complex", "rank0"], P(0)),
        U("symmetric", "C16.cpp", "U1 rank 2 with symbolic charges -3..3 (thorough -9..9), U1 rank 3 in every edge order, complex Z2; every bipartition, both directions; " + REALS, ["u1", "u1three", "z2"], P(1)),
        U("fermi", "C16.cpp", "Fermi rank 3 in every edge order and FermiZ2 rank 2, all arrows; every bipartition, both directions; " + REALS, ["fermi", "fermiz2"], P(2)),
        U("single", "C16.cpp", "float dense dims 1..3, complex<float> dims 1..2, float Fermi rank 2; every bipartition, both directions; " + REALS, ["float", "complexfloat", "fermi.float"], P(3)),
            U("large", "C16.cpp", "dense dims 1..5, rank 3 and U1 rank 3 in every edge order, complex dims 2..4; operands of the form Q R with a fixed isometry Q and free R; every bipartition, both directions",
          ["large", "large3", "largecomplex", "largeu1"], P(4)),
    ], "outside": ["whether LAPACK factorises a matrix correctly (its contract is assumed)"]},
    "C17": {"units": [
        U("dense", "C17.cpp", "matrices whose exponential is a polynomial (strictly triangular 3 by 3 and 4 by 4 over two pairs, full 2 by 2 of rank one and trace zero, complex), entries in -1..1 (thorough -4..4), zero matrices with dims 0..2 over two pairs, numbers in -1..1; every edge order, steps 1..2 (thorough 1..3)", ["dense", "full", "complex", "zero", "two", "number"], P(0)),
        U("symmetric", "C17.cpp", "the same for U1 with one pair (dims 2,2) and two pairs, Z2 with two pairs, every edge order", ["u1", "u1two", "z2two", "number.u1"], P(1)),
        U("fermi", "C17.cpp", "the same for Fermi with one pair (dims 2,2) and two pairs (charges 0,1 twice; 0,1 and 1,2), all arrows", ["fermi", "fermitwo", "fermimixed"], P(2)),
        U("deep", "C17.cpp", "triangular 2 by 2 with an entry in -64..64 (up to seven squarings); 5 by 5 (dense) and 4 by 4 (U1) with fixed numbers next to the diagonal and a free corner, orders 2..6", ["scaled", "orders", "orders.u1"], P(4)),
        U("single", "C17.cpp", "float strictly triangular 3 by 3 and complex<float> 2 by 2, every edge order, step 1", ["float", "complexfloat"], P(3)),
    ], "outside": ["matrices that are not nilpotent (except numbers)", "largest entry above 64", "whether LAPACK solves a linear system correctly (its contract is assumed)"]},
    "C18": {"units": [
        U("multiple", "C18.cpp", "dense rank 1..3 dims 0..2, one dimension 15..18, complex, Z2, Fermi rank 3, U1 rank 2 with symbolic charges -4..4; every edge, both directions, multiplication and division; wrong sizes and directions; " + REALS,
          ["dense", "complex", "line", "u1", "fermi", "z2", "absent", "wrong size", "wrong direction"]),
    ], "outside": ["division by a zero singular value"]},
    "C19": {"units": [
        U("slices", "C19.cpp", "shrink of 1..2 edges of dense, U1 (symbolic charges) and Fermi tensors at every position, every edge order; expand to 1..2 edges with and without an old edge, charges -2..2; back again; " + REALS,
          ["expand.dense", "expand.dense2", "expand.fermi", "expand.u1", "expand.u1old", "rejected", "shrink.dense", "shrink.dense2", "shrink.fermi", "shrink.u1", "shrink.u1two", "unnamed"], budget=120),
    ]},
    "C20": {"units": [
        U("identity", "C20.cpp", "0..3 pairs, dims 0..3, every edge order and pair orientation, dense, complex, Z2, U1 and Fermi with symbolic charges, FermiZ2; contraction with the identity; " + REALS,
          ["dense", "rank0", "complex", "dense6", "u1", "u1two", "z2two", "fermi", "fermiz2", "neutral.dense", "neutral.u1", "neutral.fermi"]),
    ]},
    "C21": {"units": [
        U("binary", "C21.cpp", "tensors of all six symmetries, real and complex: dense rank 0..2 (thorough 0..3) dims 0..2 (thorough 0..3), rank 2 with 1..2 segments and symbolic charges (U1 -1e9..1e9, fermion numbers -20000..20000) and arrows, Z2 with 0..2 segments of dim 0..2; singular values; names as texts of 0..2 arbitrary bytes; dump/load, several objects in one stream, shape and data apart; target with former content shared with a copy; " + REALS,
          ["dense", "u1", "fermi", "z2", "fermiz2", "fermiu1", "cdense", "cu1", "cfermi", "cz2", "cfermiz2", "cfermiu1", "texts"]),
    ]},
    "C22": {"units": [
        U("text", "C22.cpp", "dense rank 0..2 dims 0..2, complex rank 1, U1 rank 2 with charges -12..12 (thorough -130..130), Z2 with 0..2 segments; singular values; names of 1..2 arbitrary printable characters, names of length 254..258; one free element per symmetric tensor, all elements free in dense ones; " + REALS,
          ["dense", "complex", "u1", "z2", "s.dense", "s.u1", "names", "longname"], P(0)),
        U("text-fermi", "C22.cpp", "Fermi, FermiZ2, FermiU1 tensors with symbolic charges -11..11 (thorough -20..20) and arrows, real and complex; singular values; " + REALS,
          ["fermi", "fermiz2", "fermiu1", "s.fermiu1", "fermiu1.blocks"], P(1)),
    ], "outside": ["how the standard library spells a number (assumed: an optional minus sign and a spelling that reads back exactly; the default precision of six digits is lossy)", "names with blanks, commas or square brackets, empty names"]},
    "C23": {"units": [
        U("names", "C23.cpp", "every history of 3 (thorough 4) creations over texts of length 0..2 (then 0..1) of arbitrary nonzero bytes; the same around saving and restoring the name table; texts of length 20 that differ in the first or last character; names used internally", ["history", "restored", "long"]),
    ]},
    "C25": {"units": [
        U("histories", "C25.cpp", "every history of 3 (thorough 4) operations out of set, unset and set, read, build a node, save, restore, destroy a node, after each of five prologues, then two reads of everything; two roots, a path, three shared nodes, one built late, one destroyed; default graph (3 operations) and another graph (2); root values: all reals",
          ["default", "own", "snapshot", "late node", "destroyed node"]),
    ], "outside": ["reading a root without a value"]},
    "C29": {"units": [
        U("pool", "C29.cpp", "every sequence of 3 (thorough 4) allocations of 0..30 bytes (the last 0..600) with alignment 1..16 from a buffer of 0, 20 or 40 bytes at any offset 0..15; release and reuse; nested scopes of 64 and 32 bytes with allocations of 0..300 bytes; scratch vectors of 0, 4 and 8 reals",
          ["fits", "overflow", "release", "scopes"]),
    ], "outside": ["alignment above that of max_align_t"]},
    "C24": {"units": [
        U("messages", "C24.cpp", "1..8 ranks (thorough 12) for numbers, 1..4 (thorough 6) for tensors (dense and Fermi); every root; buffered and synchronous sends; ranks scheduled in forward and in backward order; send_receive between any two of 1..3 (thorough 4) ranks; root out of range; output streams of 1..3 ranks; " + REALS,
          ["broadcast", "reduce", "transfer", "tensors", "tensors.fermi", "rejected", "streams"], *MPI),
    ], "outside": ["the MPI library itself (a stand-in delivers messages in order between each pair of ranks)", "other interleavings of the ranks (point to point messages with fixed peers: the result does not depend on them)"]},
    "C26": {"units": [
        U("square", "C26.cpp", "2 by 2 with bonds of dimension 2 and all elements free: every query (amplitude, one site replaced with either hint, environment of a site, two neighbours replaced), a change of any site, every query; copied, moved, assigned, reconfigured lattices; replacement of any two sites of 2 by 3; " + REALS,
          ["square", "copies", "near", "far"], P(0), *MPI, budget=120),
        U("larger", "C26.cpp", "1 by 3, 3 by 1, 2 by 3, 3 by 2 (thorough 3 by 3) with one free site, edges in two orders, horizontal or vertical bonds of dimension 2: all queries before and after a change of any site; " + REALS,
          ["row", "column", "wide", "tall"], P(1), *MPI, budget=120),
    ], "outside": ["truncation (a dimension cut below the exact bond dimension)", "factorisations: A = (A G) G^-1 with a free parameter in G stands for every QR and SVD"]},
    "C27": {"units": [
        U("sampling", "C27.cpp", "exhaustive sampling on 1 by 2, 2 by 1, 2 by 2 (two spins) and 1 by 2 (three spins) with fixed amplitudes and operators with free elements in -16..16 and rows of zeros; operators recreated at one address; one Markov step on 2 by 2 and 1 by 2 with every configuration, four operators, free amplitudes of any site, free random numbers; runs of two and three steps with averages, their errors and the gradient on 1 by 2 and 2 by 1 with free random numbers; sweeps over every set of five terms",
          ["row", "column", "square", "three", "renewed", "step", "step.reversed", "accepted", "rejected", "stuck", "chain.row", "chain.column", "moved", "sweep"], *MPI),
    ], "outside": ["configurations of amplitude zero", "complex amplitudes", "quality of the random number generator (its numbers are inputs)"]},
    "C28": {"units": [
        U("states", "C28.cpp", "exact states on 1 by 2, 2 by 1 and 2 by 2 (real, complex and mixed), operators on no, one and two sites in either order with free elements; one step of the power method with up to three terms; the schedule of a sweep for every pair of terms on one site, a bond in either order or a diagonal of 3 by 3; files of the three kinds of lattice with free elements, three sets of terms, two configurations",
          ["schedule", "refused", "observe", "observe.mixed", "observe.complex", "observe.square", "energy", "files.update", "files.sampling", "files.exact"], *MPI, P(0)),
        U("updates", "C28.cpp", "gates on one and two neighbouring sites of 1 by 2, 2 by 1, 1 by 3 and 2 by 2 in either order, with and without environments; sweeps with every set of four terms on 1 by 2 and 2 by 1, on one to three ranks; conversions between the three kinds of lattice on 1 by 3, 3 by 1 and 2 by 2; a free element of one site; nothing truncated; factorisations of an explicit family",
          ["gate.row", "gate.column", "gate.long", "gate.square", "sweeps.row", "sweeps.column", "sweeps.ranks", "convert.row", "convert.column", "convert.square"], *MPI, P(1)),
    ], "outside": ["truncation of a bond", "other choices LAPACK may make among valid factorisations", "complex simple update and sampling lattices", "symmetric lattices"]},
    "C30": {"units": [
        U("construction", "C30.cpp", "lattices of 1..3 by 1..3 sites (thorough 1..5) with virtual dimension 1..2 and physical dimension 1..3, one free random element in -4..4; the setters in every order; operators on states with free complex (one site) or real (two sites) elements",
          ["terms", "network", "exact", "spin", "pair"], *MPI),
    ], "outside": ["lattices whose elements are all zero", "complex lattices"]},
}
