#!/usr/bin/env python3
"""Write COVERAGE.md: per check and family, the bounds and the counts of the last runs (evidence/*.json).
Run by hand after `run.py check Cxx quick` of all checks; nothing reads COVERAGE.md."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
out = ["# Families enumerated by each check (%s tier)\n" % "quick",
       "Generated by `gen_coverage.py` from evidence files; counts are per build profile. `cases` = programs, automata,",
       "histories, pairs ... executed on the real code; `states` = states of the explored graphs (terms x languages, DFA",
       "states, cells); `transitions` = edges and queries compared with the oracle.\n"]
for i in range(1, 21):
    p = "C%02d" % i
    f = os.path.join(HERE, "evidence", p + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    out.append("## %s (%s): %s states, %s transitions, %s replays, undecided %s\n" % (
        p, e["tier"], format(c["states"], ","), format(c["transitions"], ","), format(c["traces_validated_against_impl"], ","), c["undecided_cases"]))
    out.append("| family | bound | cases | states | transitions |\n|---|---|---|---|---|")
    for x in c["families"]:
        out.append("| `%s` | %s | %s | %s | %s |" % (x["name"], x["bound"].replace("|", "/"), format(x["cases"], ","), format(x["states"], ","), format(x["transitions"], ",")))
    out.append("")
open(os.path.join(HERE, "COVERAGE.md"), "w").write("\n".join(out))
