#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("generated journals vs a reference model of exact sums","Random search over journals; the tolerance is a proven bound of the rounding error of summing doubles."),
"C02":("generated balanced and unbalanced journals, oracle: acceptance and zero totals","Random search; imbalances smaller than what doubles can tell apart aren't generated."),
"C03":("metamorphic: blank posting vs the amount written out; model","Random search over entries with blanks at every position, costs and currencies."),
"C04":("fault injection into generated valid journals; refusal and no effects","Random search over kind of fault x position x subcommand."),
"C05":("metamorphic over notations of one value, exact decimal oracle","Random search; values of at most 15 significant digits."),
"C06":("metamorphic: reports with and without comments, blank lines and whitespace","Random search; byte-identical reports."),
"C07":("metamorphic: permuted entries and include layouts","Random search."),
"C08":("round trip through the journal file plus reference model","Random search over fills and imports."),
"C09":("fault enumeration over the write-like calls of generated runs (LD_PRELOAD)","For each generated run, every write-like libc call is hit by every kind of fault; the runs themselves are sampled. Trusts that the kernel keeps what was written before a kill."),
"C10":("stateful histories of days vs bounds from the model","Random search over histories under a simulated clock."),
"C11":("generated journals vs reference model of the funding methods","Random search under a simulated clock."),
"C12":("stateful histories with repeated runs, idempotence oracle","Random search under a simulated clock."),
"C13":("simulated day-by-day histories, invariant at each due date","Random search over schedules and skipped days."),
"C14":("generated schedules vs day-by-day calendar search","Random search over schedules and days; independent calendar."),
"C15":("generated movements vs reference model","Random search."),
"C16":("generated entries vs reference model of the inference","Random search."),
"C17":("invariant between two reports over generated histories","Random search."),
"C18":("generated rules and csv files vs a reference interpreter of the rules","Random search over the supported rules."),
"C19":("generated imports with bad records or hostile text; all-or-nothing oracle","Random search."),
"C20":("generated journals vs reference model of the register","Random search; terminal simulated by LD_PRELOAD."),
"C21":("structure-aware fuzzing of all inputs, crash oracle","Random search; a run that uses 10 s of CPU time counts as not ending."),
"C22":("generated combinations of flags, environment and directories","Random search."),
"C23":("generated instants and time zones around midnight vs model of the local date","Random search; clock simulated by LD_PRELOAD, zones as POSIX TZ strings."),
"C24":("generated journals and command lines, byte-identity oracle, unwritable files","Random search."),
"C25":("generated assertions, true or off, oracle: acceptance","Random search; running balances computed exactly."),
"C26":("model of the whole envelopes report over generated journals","Random search; shares within rounding of a column boundary are left out."),
"C27":("metamorphic: the same journal in two environments, oracle: identical output","Random search over environments; depends on per-process hash seeds for order."),
}
ids=[json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m=dict(version=1,setup_cmd="bash check.sh --setup",
 checks=[dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
   technique="property-based testing: "+T[i][0]+"; coverage-guided variation of generated cases",level="fault_enumeration" if i=="C09" else "exploration",
   level_note=T[i][1]+" Runs the real binary, built from /repo's working tree; nothing is proved beyond what was generated.") for i in ids],
 not_applicable=[],
 notes="No hooks in /repo: everything is observed at the command line. known_findings.txt lists the defects that were found and fixed.")
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1); print(len(ids))
