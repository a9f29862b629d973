#!/usr/bin/env python3
"""Writes the generated middle part of DESIGN.md (between the two markers) from properties.jsonl, units.py and the table below."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
import units

# id: (how it is decided / against what oracle, approximate seconds of the quick check on 8 idle cores)
HOW = {
 "C01": ("Charges of all symmetry types are free bit-vectors of their machine width; every group law and every order law is one assertion over three charges.", 10),
 "C02": ("The harness builds a tensor on edges with free charges and compares its block table with the definition (all segment combinations of total charge zero), computed by an independent nested loop; wrong names must throw.", 25),
 "C03": ("Elements are written through `at`/`block` at every coordinate with free values and read back; oracle: a map coordinate -> value with the storage order row major.", 25),
 "C04": ("Each operation is run on a tensor that shares storage with, or was produced from, others; oracle: element tables of every other live tensor, and held references, taken before the operation.", 80),
 "C05": ("Transpose with free permutation; oracle: each element at the permuted coordinates, times the product of -1 per exchanged odd pair (computed from inversions). The cache-blocked loop nest is also compiled with tiny cache lines (`small-cache`), so that the blocked paths occur inside the bounds.", 110),
 "C06": ("Merge then split, split alone, both with free groupings; oracle: table of (total charge, offset) -> element tuple built by lexicographic enumeration; bijectivity follows from comparing all elements.", 100),
 "C07": ("Reverse, merge, split with every combination of the exclusion sets; oracle: sign formulas over the parities, written out from the property (half-swap (n choose 2) sign for merges, parity for reversed arrows).", 90),
 "C08": ("One call of `edge_operator` with all steps against the sequence of calls with one step each, both on the real code, plus a cut oracle.", 110),
 "C09": ("Oracle: triple loop over all elements of both operands, symmetric ones with free charges. gemm is executed, not assumed. `single` repeats it for float.", 65),
 "C10": ("Oracle: for every value of the fused edge, the contraction of the slices; repeated/duplicated names and mismatched fuse edges must be handled as stated.", 25),
 "C11": ("Oracle: contraction with explicit Grassmann reordering signs of the tensors' edges; separately, associativity and independence of order, both on the real code.", 55),
 "C12": ("Oracle: sum over equal indices of the pairs; fermionic signs by the reference of C11; also trace(contract) = contract with pairs.", 25),
 "C13": ("All operators (unary, binary, scalar, in-place, with other scalar types and other edge order) against elementwise arithmetic on the tables; incompatible operands must throw and leave the operands unchanged.", 50),
 "C14": ("Norms, map, set, transform, to<>, conjugate against their definitions on the element tables; singular values too.", 40),
 "C15": ("LAPACK's gesvd is its contract. U·S·V against the tensor, isometry of U and V under contraction, ordering of the values and the choice made by the cut against a global sort.", 40),
 "C16": ("geqrf/orgqr as contracts (explicit Householder form for small sizes). Q·R against the tensor, isometry, and order of names/edges.", 46),
 "C17": ("The power series is finite for nilpotent operands, so the result is compared with the exact exponential; for numbers with the rational Padé approximant, squared the documented number of times.", 87),
 "C18": ("multiple / divide with free values against elementwise scaling along the named edge, for every direction and symmetric block.", 28),
 "C19": ("shrink/expand against coordinate selection; expand then shrink gives the tensor back; a later shrink of a fermionic tensor keeps the signs.", 44),
 "C20": ("identity of every pairing against the definition over all coordinates, including contraction with a free tensor.", 10),
 "C21": ("dump then load (tensors, edges, names, singular values, concatenated in one stream); every observable of the loaded one equals the dumped one; truncated input must throw.", 15),
 "C22": ("operator<< then operator>> through the real stream templates (instantiated in the translation unit so that characters stay symbolic); numbers are opaque tokens by the facets of `numbers.hpp`.", 47),
 "C23": ("Name tables with free characters and histories of lookups; oracle: equality of strings.", 18),
 "C24": ("Ranks run one after another against a mailbox stand-in of MPI (a rank that has to wait is rerun from its start); every value arrives once, roots and ranks free.", 30),
 "C25": ("Histories of set/reset/get/snapshot/restore with free values and free choice of steps; oracle: direct recomputation from the current inputs.", 30),
 "C26": ("`operator()` of the auxiliaries and the sampling lattice against the full contraction of the network, for each order of earlier queries; amplitudes with replaced sites and replaced pairs.", 80),
 "C27": ("Random numbers are symbolic inputs (the distributions are specialised in the harness); each sweep is compared with the Markov rule / the direct sampling weights / a table of observables; the ergodic statement is that each configuration is visited and weighted once.", 75),
 "C28": ("One step of each update is compared with the same step computed on the exact state vector; conversions between the lattices preserve every amplitude.", 100),
 "C29": ("Free request sizes and alignments and nesting; every returned block lies inside one live buffer, is aligned and disjoint from all live ones.", 18),
 "C30": ("Random numbers are symbolic inputs. Every site, edge name, dimension and term of a new lattice against a description written from the statement; spin terms against products of Pauli matrices acting on free states.", 38),
}

def gen():
    o = ["| property | units | quick, s |", "|---|---|---|"]
    props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
    for p in props:
        o.append("| %s %s | %s | %d |" % (p["id"], p["title"], ", ".join(u["name"] for u in units.PROPS[p["id"]]["units"]), HOW[p["id"]][1]))
    o.append("")
    for p in props:
        i = p["id"]; d = units.PROPS[i]
        o.append("### %s %s" % (i, p["title"])); o.append("")
        o.append("* Decided by: " + HOW[i][0])
        o.append("* Bounds:")
        for u in d["units"]:
            o.append("  * `%s`: %s" % (u["name"], u["bounds"]))
        out = d.get("outside")
        if out: o.append("* Outside: " + "; ".join(out) + ".")
        o.append("* Beyond the tests: " + p["why_tests_cant"])
        o.append("")
    return "\n".join(o)

f = os.path.join(root, "DESIGN.md")
t = open(f).read()
a, b = "<!-- generated by tools/mkdesign.py -->\n", "<!-- end of generated part -->\n"
h, r = t.split(a); _, e = r.split(b)
open(f, "w").write(h + a + "\n" + gen() + "\n" + b + e)
