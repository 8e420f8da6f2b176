#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONV = ["src/util/convert.rs", "src/util/scalar.rs"]
NUM = ["src/util/num.rs"]
BIT = ["src/util/bit.rs", "src/util/num.rs"]
BN = ["src/mp/bignat.rs"]
MED = ["src/btc_validation/median.rs"]
DIF = ["src/btc_validation/difficulty_update.rs"]
HDR = ["src/btc_validation/header_step.rs"]
EV = "The unit tests call this on a handful of values, always with the honest prover's own assignment; "
FORGE = "no test lets the prover choose the witness, so an assignment that satisfies the circuit without the claim being true is invisible to them."

# id, title, statement, over, quantifier text, why, files, mechanism[(name, where)]
P = [
("C01", "Conversions between numbers and field elements are exact or refused",
 "Converting a natural number to a field element and back gives the same number whenever it is less than the field's modulus, and is refused otherwise; converting a field element to a machine integer gives its exact value whenever it fits and is refused otherwise. No conversion silently truncates, wraps or rejects a representable value, in any field.",
 ["inputs", "configurations"], "every number and field element, in every prime field",
 "Tests convert a few small numbers in one field; the values next to the modulus and next to the integer width are never reached.",
 CONV + NUM, [("nat_to_f / f_to_nat / f_to_usize / usize_to_f", "src/util/convert.rs")]),
("C02", "A range check admits exactly the numbers of that many bits",
 "After a number is checked to fit in n bits, the constraints are satisfiable if and only if its value is less than 2^n, whatever the prover assigns to the witness, for every n the field can represent including 0. An honest prover with such a value always succeeds.",
 ["inputs", "configurations"], "every field, every width up to the field's capacity, every value, every prover assignment",
 EV + FORGE, NUM, [("fits_in_bits, fits_in_bits of constants and sums", "src/util/num.rs")]),
("C03", "Bit decompositions, bits and bitwise equality mean what their values say",
 "The bits obtained from a number recompose to it and no prover can obtain other bits, comparing a number with a bit vector holds exactly when the vector, as it is now, represents the number, and the outputs of bit operations are the boolean functions they are named for. Values reported to the caller always equal the values of the underlying linear combinations.",
 ["inputs", "histories", "configurations"], "every field, width, value, rearrangement of the bits and prover assignment",
 EV + FORGE, BIT, [("decompose, is_equal, Bit::alloc/not/constrain_value", "src/util/num.rs, src/util/bit.rs")]),
("C04", "Bit vectors keep values, allocations and constraints in step",
 "After any sequence of pushes, pops, inserts, appends, truncations, shifts, reversals, splits and complements, a bit vector's length, its allocated bits, its linear combinations and its values describe the same list of bits that the same operations give on a plain list, and its values are unknown as soon as one bit's value is.",
 ["histories"], "every sequence of operations, from every starting vector, with known and unknown bits",
 "No unit test exercises the bit vector operations at all, let alone their sequences.", NUM, [("Bitvector", "src/util/num.rs")]),
("C05", "A lazy cell evaluates its thunk at most once and serves every borrower",
 "A lazily computed value is computed at most once, by the first borrow, every borrow through any clone observes that same value, and borrowing never fails however borrows, releases and clones interleave.",
 ["histories", "schedules"], "every interleaving of borrows, releases, clones and drops on shared handles",
 "No unit test touches the lazy cell.", ["src/util/lazy.rs"], [("LazyCell::borrow", "src/util/lazy.rs")]),
("C06", "Limb encodings of a number are exact or refused",
 "Splitting a number into limbs and joining them returns the number when it fits in the limbs and is refused otherwise, allocating a number from a value or from limbs yields a number with exactly that value and those limbs, and every limb is an element below the limb bound.",
 ["inputs", "configurations"], "every field, limb width, limb count, number and limb vector",
 "Tests encode a few numbers with one limb width; overflow, negative numbers and other widths are not reached.",
 BN + CONV, [("nat_to_limbs / limbs_to_nat / alloc_from_nat / alloc_from_limbs", "src/mp/bignat.rs")]),
("C07", "A number read from a field element is that element, in limbs",
 "When a multi-limb number is derived from a field element, the constraints are satisfiable exactly when the element is representable in the limbs, and the only limbs any prover can obtain are those of the element's canonical value.",
 ["inputs", "configurations"], "every field, limb shape, element and prover assignment",
 EV + FORGE, BN, [("from_num", "src/mp/bignat.rs")]),
("C08", "Multi-limb numbers keep their own description true under every operation",
 "After any sequence of number operations, the value a number reports is the value of its limbs, each limb is within its declared bound, and its declared minimum and maximum bit lengths are true of its value.",
 ["histories", "configurations"], "every sequence of operations on numbers, from every starting pair",
 "Tests apply one operation to fresh numbers; wrong bounds only matter once a second operation relies on them.",
 BN, [("BigNatParams, scale/shift/truncate/add/concat/...", "src/mp/bignat.rs")]),
("C09", "Equality gadgets accept exactly equal numbers",
 "Asserting two multi-limb numbers or field elements equal is satisfiable exactly when they are, and the computed equality bit is 1 exactly when they are equal, for every prover.",
 ["inputs", "configurations"], "every field, shape, pair of numbers and prover assignment",
 EV + FORGE, BN + ["src/util/gadget.rs"], [("equal, is_equal, equals, assert_equal", "src/mp/bignat.rs")]),
("C10", "Equality with carries accepts exactly the numbers of equal value",
 "Comparing two numbers whose limbs may exceed the limb width is satisfiable if and only if the two represent the same integer, with or without regrouping of limbs, for all limb counts on either side and every prover.",
 ["inputs", "configurations"], "every field, shape, limb bound, pair of limb vectors and prover assignment",
 EV + FORGE, BN, [("equal_when_carried, equal_when_carried_regroup", "src/mp/bignat.rs")]),
("C11", "Products are the integer products",
 "The product of two numbers, as limbs, represents exactly the integer product, and no prover can obtain another.",
 ["inputs", "configurations"], "every field, shape, pair of numbers and prover assignment",
 EV + FORGE, BN, [("mult, verify_mult", "src/mp/bignat.rs")]),
("C12", "Modular products and reductions return the one quotient and remainder",
 "Multiplying modulo m, reducing modulo m and asserting a modular product yield the unique quotient and remainder with the remainder less than m, accept every valid input, and no prover can obtain another pair.",
 ["inputs", "configurations"], "every field, shape, operands, modulus and prover assignment",
 EV + FORGE, BN, [("mult_mod, red_mod, assert_product_mod", "src/mp/bignat.rs")]),
("C13", "Asserted divisibility holds exactly for divisors",
 "Asserting that one number divides another is satisfiable exactly when it does, whatever the prover assigns.",
 ["inputs", "configurations"], "every field, shape, pair of numbers and prover assignment",
 EV + FORGE, BN, [("divides", "src/mp/bignat.rs")]),
("C14", "Differences and minima are exact and cannot be forged",
 "Subtracting yields the natural difference and is unsatisfiable when it would be negative, and the minimum of two numbers is the smaller one, for every prover.",
 ["inputs", "configurations"], "every field, shape, pair of numbers and prover assignment",
 EV + FORGE, BN, [("sub, min", "src/mp/bignat.rs")]),
("C15", "Asserted minimum bit lengths hold",
 "Asserting that a number has at least a given bit length, or all its bits, is satisfiable exactly when it has, for every prover.",
 ["inputs", "configurations"], "every field, shape, bit length, number and prover assignment",
 EV + FORGE, BN, [("enforce_min_bits, enforce_full_bits", "src/mp/bignat.rs")]),
("C16", "Selection returns exactly the selected input",
 "Selecting between two inputs, from a tree of inputs, or switching a pair returns exactly the inputs the selector names, in value and in limbs, and no prover can obtain others.",
 ["inputs", "configurations"], "every field, shape, selector, inputs and prover assignment",
 EV + FORGE, BN + ["src/util/gadget.rs"], [("mux, mux_tree, switch", "src/util/gadget.rs")]),
("C17", "Polynomial sums and products are those of their coefficients",
 "The product and sum of two polynomials have exactly the coefficients of the polynomial product and sum, agree with it at every point, and no prover can obtain other coefficients.",
 ["inputs", "configurations"], "every field, pair of degrees, coefficients and prover assignment",
 EV + FORGE, ["src/mp/poly.rs"], [("alloc_product, sum, evaluate_at", "src/mp/poly.rs")]),
("C18", "Comparisons answer with the order of the integers",
 "For operands of the stated bit length, the strict comparison reports true exactly when the first is less than the second and the non-strict one exactly when it is not greater, for every bit length the field can hold, and the honest prover's constraints are satisfied either way.",
 ["inputs", "configurations"], "every field, bit length and pair of operands",
 "Two tests compare 11 with 14 at 32 bits; equal operands, the reverse order, other widths and the wide-number code path are not reached.",
 MED, [("less_than, leq", "src/btc_validation/median.rs")]),
("C19", "The answer of a comparison is forced on every prover",
 "Once two operands are fixed, no assignment to the comparison's witness makes its answer other than the order of the operands.",
 ["inputs", "configurations"], "every field, bit length, pair of operands and prover assignment",
 EV + FORGE, MED, [("less_than, leq", "src/btc_validation/median.rs")]),
("C20", "The median of timestamps is computed and recognised",
 "For an odd number of 32-bit timestamps in any order and with any repetitions, the computed median is the middle one of the sorted list, the median check answers true for it and false for every other value, and the honest prover satisfies its constraints in both cases.",
 ["inputs"], "every list of timestamps up to order and ties, every claimed median",
 "Two tests use one list each; ties, extremes, medians above and below and false claims are not reached.",
 MED, [("compute_median_timestamp, verify_median_timestamp", "src/btc_validation/median.rs")]),
("C21", "The median check cannot be satisfied by a false median",
 "Once timestamps and the claimed median are fixed, no assignment to the check's witness makes its answer true for a value that is not the median, or false for the median.",
 ["inputs"], "every list of timestamps up to order and ties, every claimed median and prover assignment",
 EV + FORGE, MED, [("verify_allocated_median", "src/btc_validation/median.rs")]),
("C22", "Difficulty updates are computed and accepted exactly",
 "For a previous target and an epoch time within a quarter and four times two weeks, the computed target is the integer part of target times time over two weeks, the honest prover is accepted with that target, and with any other target or any time out of the range it is rejected.",
 ["inputs"], "every previous target, epoch time and claimed target",
 "Three tests use one target and time each, none at a limit and none that must be rejected.",
 DIF, [("verify_difficulty_update, calculate_difficulty_update", "src/btc_validation/difficulty_update.rs")]),
("C23", "A wrong difficulty update cannot be forged",
 "Once the previous target and the epoch time are fixed, no assignment to the witness yields another target than the integer part of target times time over two weeks, nor satisfies the constraints with a time out of range.",
 ["inputs"], "every previous target, epoch time and prover assignment",
 EV + FORGE, DIF, [("verify_difficulty_update, calculate_difficulty_update", "src/btc_validation/difficulty_update.rs")]),
("C24", "The header step accepts every valid header and computes the next state",
 "For a header that links to the previous hash, is later than the median of the last eleven timestamps, has proof of work for its own target and the target the epoch requires, the honest prover is accepted and the output state is the header's hash, the shifted timestamps, the header's target, the epoch's start time, the next counter modulo 2016 and the accumulated work. This holds for every header in a chain, starting each step from the previous step's output.",
 ["inputs", "histories"], "every valid header, every chain of headers and every epoch position",
 "No test runs the header step at all; the example runs one header of one chain.",
 HDR, [("BlockHeader::synthesize", "src/btc_validation/header_step.rs")]),
("C25", "The header step cannot be satisfied for an invalid header",
 "With any of the conditions broken - wrong previous hash, time not after the median, hash not below the target, target not as required, or an epoch time out of range - no assignment to the witness satisfies the step's constraints.",
 ["inputs"], "every header, input state breaking a condition and prover assignment",
 EV + FORGE, HDR, [("BlockHeader::synthesize", "src/btc_validation/header_step.rs")]),
("C26", "The header step's output is forced on every prover",
 "Once the header and the input state are fixed, every assignment that satisfies the step yields the same output state, the right one.",
 ["inputs"], "every header, input state and prover assignment",
 EV + FORGE, HDR, [("BlockHeader::synthesize", "src/btc_validation/header_step.rs")]),
("C27", "The circuit does not depend on the witness",
 "Synthesizing a gadget or the header step for parameter generation, without values, or for any two different inputs of the same shape, yields the same variables and constraints, so that a proof made with one input's values verifies with the parameters made without them.",
 ["inputs", "configurations"], "every gadget, shape, input and the absence of one",
 "Tests only check that one run satisfies its own constraints; two runs are never compared and parameter generation is never run on most gadgets.",
 BN + MED + DIF + HDR + NUM, [("every gadget's synthesis", "src/mp/bignat.rs, src/util/num.rs, src/btc_validation/*.rs")]),
("C28", "Numbers made public are public with their own values",
 "Exposing a number as public inputs adds one public input per limb, in order, each forced to equal that limb for every prover, and converting a number to allocated elements forces each element to equal its limb.",
 ["inputs", "configurations"], "every field, shape, number and prover assignment",
 "No test exposes a number publicly.", BN + ["src/util/gadget.rs"], [("inputize, as_nums", "src/mp/bignat.rs, src/util/gadget.rs")]),
]
TECH = "explicit-state enumeration of every prover assignment of the constraint system the real gadget emits, over every input of the bounded domain"
HIST = "exhaustive enumeration of operation histories on the real type against a plain reference model"
INP = "exhaustive enumeration of executions of the real code over complete small domains and all boundary values of large ones, against an integer reference"
tech = {"C01": INP, "C04": HIST, "C05": HIST, "C06": INP, "C08": HIST, "C18": INP, "C20": INP, "C22": INP,
        "C24": "exhaustive enumeration of executions of the real circuit over a scenario alphabet of headers, chains and input states, against a plain reference model of the step",
        "C27": "exhaustive comparison of the constraint systems the real gadgets emit with and without values, over every input of the bounded domain"}
NOTE = {
 "tech": "Decides the property on every input of the stated bounds: for each, the search visits every assignment a prover could choose (only assignments that violate a constraint are pruned; the explorer is cross-checked against unpruned enumeration before every run) and solutions are replayed on bellpepper's own constraint system. Small fields and shapes are complete; production fields are covered at boundary values. Trusts bellpepper's gadgets' emitted constraints to be what nova proves.",
 "hist": "Every history up to the stated depth over the whole operation alphabet runs on the real type and is compared with the reference after every step. Histories beyond the depth are not covered.",
 "inp": "Every value of the small fields and every boundary combination in the production fields runs on the real code; other values of the production fields are not covered.",
}
def done():
    """the properties whose check is registered in check.sh"""
    s = open(V + "/check.sh").read()
    return set(re.findall(r"C\d\d", s.split("esac")[0]))
D = done()
with open(V + "/properties.jsonl", "w") as f:
    for (i, t, s, over, q, why, files, mech) in P:
        f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
checks = []
for (i, *_r) in P:
    if i not in D: continue
    t = tech.get(i, TECH)
    n = NOTE["hist"] if t == HIST else NOTE["inp"] if i in tech else NOTE["tech"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p[0], "reason": "model checking applies (as to its neighbours); its check is not built yet"} for p in P if p[0] not in D],
     "notes": "No hooks: the checks use the crate's public API only, and record the constraint systems it emits."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
