#!/usr/bin/env python3
"""Write MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
LOCK = "Each explored term is decided for all strings by the product of its complete derivative graph with a reference minimal DFA; the bounds are on the shape of the expression. Both build profiles."
T = {
 "C01": ("bounded-exhaustive enumeration of constructor programs on the real manager and wrappers; explicit-state product of each term's derivative graph with a reference minimal DFA; conflicts confirmed by str_in_re",
         "All expressions of depth 2 over three operator/leaf sets, depth 3 over small ones, loop nests, lists, ranges. " + LOCK),
 "C02": ("bounded-exhaustive enumeration of expressions; explicit-state product of the compiled automaton with the reference minimal DFA over every character class boundary",
         "Same expression families as C01; every state of the automaton and every representative character is stepped. Both build profiles."),
 "C03": ("bounded-exhaustive enumeration of expressions; explicit-state exploration of the complete derivative graph, every derivative operation of every term compared with reference quotients",
         "Same expression families as C01; class ids, ranges and set queries (valid, invalid, ambiguous) on every term of every graph. " + LOCK),
 "C04": ("exhaustive enumeration of all small DFAs (built with AutomatonBuilder) and of compiled expressions; minimize compared state by state with the Myhill-Nerode partition",
         "Every transition table and final set up to the listed sizes, structured larger ones, and the expression families. Both build profiles."),
 "C05": ("bounded-exhaustive enumeration of expressions; emptiness and witnesses of every term of the derivative graph compared with the reference language",
         "Same expression families as C01 plus products of stars with distant witnesses. " + LOCK),
 "C06": ("exhaustive enumeration of string arguments and integer arguments, executed on the real functions and compared with definitions transcribed from SMT-LIB",
         "All strings up to the listed lengths over small alphabets (incl. characters that alias modulo powers of two), all positions around the length and extreme integers; periodic long texts. Both build profiles."),
 "C07": ("enumeration of all histories (action sequences, creation orders, long fillers) of a manager, each replayed from a fresh manager; identity, equality and extracted languages compared with the same construction without the history",
         "All sequences of up to 3 (4) actions, all creation orders of up to 4 (5) operands, fillers up to 2^17 (2^20) terms. Both build profiles."),
 "C08": ("exhaustive enumeration of literal texts and strings, executed on parser and printer and compared with a direct transcription of the SMT-LIB escape grammar",
         "All texts up to the listed lengths over the characters the grammar distinguishes, all hex values, all characters in context. Both build profiles."),
 "C09": ("exhaustive enumeration of strings and integers, executed on the real functions in builds with and without overflow checks",
         "All pairs of short strings, all digit strings up to the listed length, all values around the limits; thorough: all 2^32 integers."),
 "C10": ("bounded-exhaustive enumeration of (expression, string, replacement) through the wrappers, compared with the definition of leftmost shortest match",
         "All expressions of depth <= 1 with all strings up to length 6 (8), all expressions of depth 2 with all strings up to length 3 (4), long periodic strings. Both build profiles."),
 "C11": ("exhaustive enumeration of cell partitions, build orders and query sets on the real CharPartition",
         "All partitions of a window of cells in several layouts, all query sets between cell representatives; complete inside those bounds."),
 "C12": ("exhaustive enumeration of pairs and lists of cell partitions against the canonical coarsest refinement",
         "All pairs/triples of partitions of a window of cells; complete inside those bounds."),
 "C13": ("exhaustive enumeration of builder call sequences and specifications, verdict and transition function compared with the set-theoretic reading of the calls",
         "All specifications of one state over up to 5 cells, all pairs of states over 3 cells, all call sequences up to the listed length. Both build profiles."),
 "C14": ("exhaustive enumeration of all small automata and of compiled expressions; pruning, alphabet, successor table and edges compared with next on every state and representative character",
         "Every transition table up to the listed sizes, wide alphabets, sparse rows, and the expression families. Both build profiles."),
 "C15": ("exhaustive enumeration of pairs and triples of loop ranges compared with arithmetic on integer sets, plus critical bounds near 2^32",
         "All ranges with bounds up to the listed value; around the limits by closed-form arithmetic in 128 bits. Both build profiles."),
 "C16": ("exhaustive enumeration of ordered pairs of expressions; every claimed inclusion decided by the product of reference DFAs; unions checked against their operands",
         "All ordered pairs of concatenations up to the listed length over several symbol sets, loops and complements, depth 2 terms. Both build profiles."),
 "C17": ("exhaustive enumeration of characters, integer and text arguments of every constructor and of operand tuples of every function that returns a string",
         "All characters and integers to 0x120000 (thorough: all 2^32), all escapes, all triples of short extreme strings, the length limit. Both build profiles."),
 "C18": ("bounded-exhaustive enumeration of expressions; start_char and start_class of every term of the derivative graph compared with emptiness of the reference quotient",
         "Same expression families as C01. " + LOCK),
 "C19": ("bounded-exhaustive enumeration of expressions; the derivative graph explored independently and compared with iter_derivatives and with try_compile at every bound around its size",
         "Same expression families as C01. Both build profiles."),
 "C20": ("exhaustive enumeration of interval pairs and lists against set algebra on elementary cells",
         "All intervals with bounds in dense windows at both ends of the alphabet and around critical code points; complete inside those bounds, both build profiles."),
}
checks = []
for p in sorted(T):
    tech, note = T[p]
    checks.append({"property": p,
                   "quick_cmd": "python3 run.py check %s quick" % p,
                   "thorough_cmd": "python3 run.py check %s thorough" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
allp = ["C%02d" % i for i in range(1, 21)]
na = [{"property": p, "reason": "check under construction"} for p in allp if p not in T]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API only. Every check runs in two build profiles (debug assertions and overflow checks on / off)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
