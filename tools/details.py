HEAD = '''
# Static verification of grammarsoft/cg3

Technique family: static analysis only.  Every verdict is computed from /repo's current sources by parsing them with clang and analysing the type-checked AST, the control-flow graphs and the call
graph.  Nothing of cg3 is executed by a check, no path is handed to a solver, and no check looks at source text other than through the compiler's front end.

## Machinery

* `extractor/cg3x.cpp` — a LibTooling program (linked against the installed clang 18 libraries).  It parses every translation unit of `/repo/src` (compile flags are derived by `cg3v/extract.py`; headers
  generated by the build are not needed) and dumps functions (AST with resolved declarations, constant values, implicit casts removed, lambdas, template instantiations, CFG), records with fields, enums and
  globals as JSON lines.  The dump is keyed by a hash of the extractor and of all sources, so it is always that of the current tree; all checks share it.
* `cg3v/ir.py` — program model: AST nodes, CFGs (conditions of joined short-circuits are split so that `!(a||b)` and `!a && !b` give the same graph), class hierarchy, call targets (virtual calls go to all overriders).
* `cg3v/flow.py`, `cdep.py`, `slices.py` — leaf conditions, worklist dataflow, control dependence, interprocedural backward slices over reaching definitions.
* `cg3v/paths.py`, `effects.py`, `engine.py` — path-set effect analysis: what a function or a rule action may have changed at its end, with object identities (roots), followed through helpers and lambdas; specialisation to
  one rule type by folding comparisons of `Rule::type`.
* `cg3v/model.py` — conditional constant propagation under assumed values of members, list sizes, flags and rule type ("is this call reachable if the cohort is removed?").
* `cg3v/serial.py`, `serialcmp.py`, `stream.py` — interpretation of code that writes or reads bytes into format descriptions (sequence, repetition, option, width, member) and their comparison.
* `cg3v/bounds.py` — linear forms over sizes of strings, vectors and arrays, with facts from dominating branches and summaries of what functions write through their parameters.
* `cg3v/run.py` — driver.  A check declares rules with a least number of instances; fewer means that what the rule is about has vanished: `ANALYSIS-BROKEN`, exit 3 (neither 0 nor 1).  Exit 1 comes with the violations (file,
  line, function, construct) in `evidence/<id>.report.txt`.  Quick and thorough tiers are the same analysis: it is exhaustive over the program in both, and takes 2–20 seconds.
* `known_findings.txt` — `known:` entries suppress exactly one violation key of one property; `fixed:` entries are a record only.
* `tools/props.py` → `properties.jsonl`, `MANIFEST.json` (`tools/gen.py`), this file (`tools/design.py` with `tools/details.py`).  `tools/seed.sh` confirms planted bugs; `tools/mut.py`, `pmut.py` run mutations.

### Rules for all checks

* What code does, not how it is written: members, enumerators, types and calls are resolved by the compiler; helpers and lambdas are followed; order of independent statements, loop forms, early returns, names of locals and
  extracted functions do not matter.  Every check was run against mutations that break its property and against refactorings that do not (helper extracted or inlined, `if` inverted, loop rewritten, statements reordered).  All checks were also run on two copies of the whole source rewritten by script: every one-line `if` with a plain `else` inverted (296 places), and every `if (a && b)` without `else` split into nested `if`s (424 places); what raised an alarm there (C01, C02, C03, C29) was corrected.
* Exceptions are frozen tables in the check (`EXEMPT`, `ALLOWED`, ...), each with its reason.  A new place that needs an exception is an alarm until somebody argues for it.
* A rule is only stated if it holds on the whole tree, after genuine defects were repaired.
'''

DETAILS = {
'C01': '''writeBinaryGrammar and the reader are interpreted into byte formats: every primitive that puts out or takes in bytes is an item with width and origin or destination member, loops become repetitions with their count, conditions become
 options with the presence bit they set or test.  The descriptions are compared item by item.  The second half is def-use over the call graph: every member of Tag, Set, Rule, ContextualTest and Grammar that the applicators read must be
 written by the reader or rebuilt by reindex.  Exceptions: members that only matter at parse time (table RUNTIME_OK), conditions under which a member has its default anyway (GATE_OK), values that are never 0 (NONZERO).''',
'C02': '''As C01 for BinaryApplicator.  Counts are checked by a counting analysis of the writing loops: per iteration the counter is raised exactly if the element is written, and skipping depends only on the conditions of the table of what is not to be
 printed.  Profiling is assumed to be off.  Variable modes, stream commands and packets are matched code by code.  The meaning of the numbers (a parent of 0 is the root) is not judged.''',
'C03': '''Sender (pipeOut*) and receiver (pipeIn*) are interpreted as in C01 and compared with each other and with the documented format (table DOC, from the manual) and its flag bits (BITS).  The conditions for tags that are not sent (TAGSKIP) are those of the
 documentation.  `untouched` is reachability of writes to the reading under "flag not set".  `trust` wants each number of a reply to be compared before it indexes anything.''',
'C05': '''For each pooled class: members that the constructor sets and the value, by forward must-analysis over clear() and over the allocation function, copying functions member by member.  What may differ is in EXEMPT_CLEAR with reasons (capacity, numbers set by whoever
 allocates); FRESH_IN_COPY lists members that a copy is to have empty.''',
'C06': '''Effect analysis with identities of readings per rule type: a direct edit of the tag list or an index without a following reflow (or equal edit of all indexes and rehash) on some path is reported.  addTagToReading/delTagFromReading are summarised by kind of tag: for each kind
 the set of indexes it enters.  `hash` follows what goes into hash and hash_plain through Reading::rehash, with and without mapping tag and subreading, and has the line of tags hashed after it was changed.  `bag`: null-state of Reading::parent in functions reachable with the bag of tags.  `lost`: dead stores of match results.''',
'C07': '''Per rule type (RuleSpec folds the comparisons) each path through the reading and cohort callbacks is summarised by its effects; a path with a change of readings, tags or cohorts needs an append to hit_by.  Printing functions are checked for covering hit_by where they print traces.''',
'C08': '''As C07 with the effects "changes something contextual tests can see" (table OBS of members), "clears the remembered negative results", "reports a change".  QUIET lists rule types whose change is not to repeat a section.  STOP stops the descent at the engine itself.''',
'C09': '''`pair` follows every store to Cohort::dep_parent: on every path the old parent's children lose, the new parent's gain the number.  INPUT exempts the readers, whose numbers become links in reflowDependencyWindow.  `role` tracks which cohort is the target and which the found one through swaps
 to the arguments of the linking functions, for each dependency and relation rule type.  `inner` takes each place where wouldParentChildLoop and wouldParentChildCross decide on an answer
 with the comparisons that lead to it, in terms of the child, the parent, what is above it and what lies between (through locals and helpers).  `inner/cross:between` is a known finding: the crossing test looks up the
 grandparent instead of the cohorts between; a repair (tried) changes what T_Dependency_Loops expects.''',
'C10': '''Typestate of windows per rule type: edited → numbered anew → linked anew before the action is over, with symbolic terms for "the window of this cohort".  Map lookups need a comparison with end() on all paths.  DELIMIT is checked for handing over everything that follows.''',
'C11': '''Every bulk write, printf/scanf into memory and store into a constant-size array gets an obligation: length ≤ room, over linear forms whose facts come from dominating branches, resizes, ICU contracts and loop bounds.  Functions that write through a pointer parameter get a
 summary that is discharged at their callers.  There are no exceptions; one destination is not resolved (FSTApplicator, std::copy to a back_inserter, which grows).''',
'C12': '''Must-assign analysis of reused objects; definite emptying of static and thread_local scratch variables before use on all paths; re-entrancy over the call graph; members that printers write (MEMBERS says what makes each anew); storage class of every global that library code changes.
 KEPT lists what is meant to be kept between uses.''',
'C13': '''Calls of clocks, random numbers and environment outside of LIBRARY/PROGRAM; conversions of pointers to numbers and ordered comparisons of pointers (ADDRESS: one for a hash that only decides a bucket); iteration over containers ordered by address whose body is not order-free; constructors that leave
 a plain member without value; locals used before they are set.  Exempt with reasons: the random suffix in Set::setName for unnamed sets, ContextualTest::rehash over tmpl (it holds a hash while a grammar is parsed), and a number in BinaryApplicator that travels in a pointer.''',
'C17': '''Tables of options are compared with their enums; the frozen table APPLY/MAIN/CONV says for every option which member gets which value.  Every assignment is sliced to the option condition that guards it; merging of default and override options is checked for precedence.''',
'C18': '''Typestate of each UErrorCode: unset, clean, maybe failed and not looked at, looked at.  Data-dependent operations (DATA) must be looked at; those with enough room (ROOMY) are proved by the bounds of C11.  EXEMPT: one, a single unit that always fits.''',
'C20': '''Initialisers of the tables are evaluated by the compiler and compared entry by entry with the enums; every use of a flag word is checked for constants of its own family (FAMILIES); rule types created by the parser must be dispatched on.''',
'C21': '''Constant propagation in runSingleRule and the callbacks under assumed sizes (all readings active, none, one), flags and rule types; per path effects pair "taken out of readings" with "put in exactly one list" and the mark.  `whole`: lists are handed over from begin to end, whether a reading is listed or marked depends (control dependence inside the loop) only on what was selected or collected, and the reading marked is the one listed.''',
'C22': '''For each forbidding state (removed, ignored, parenthesised, wrong type ...) the action must be unreachable with that state assumed; for `open`, reachable with all those false.  `fresh`/`carry`: loop-carried definitions; flags of the reading loop must be set for the reading at hand before they are looked at (boolean constant tracking per path).''',
'C24': '''FOLLOW (source member, by which call, in which function) and NUMBERED are tables of references; each must flow into the marking or numbering call, and the conditions on the way may only concern the member itself, its mark and the flags of FLAGS.  `entries`/`path`: walks over tries go down under
 the condition that there is something below, and every push has its pop.  `replaced`: what is replaced in the tests of rules is replaced in all members of that type.''',
'C25': '''Messages are string literals that say "Error:" or "Could not"; from each, all paths are followed (through helpers that come back, up to three callers) to their end.  No-return functions and exit codes are inferred.  GOES_ON lists the recoveries by design.  The escape analysis walks the call graph backwards
 from throws in the parser, cutting at try blocks and at calls that parse names built into the program.''',
'C27': '''For each stack (STACKS) the pushes and pops of every path balance; each member of FIELDS that is set for a while is put back from the saved value on all paths; RAII guards must be named objects.  Exceptions of the parser end the grammar and are not followed.''',
'C28': '''Same effect analysis as C08 with "readings or numeric tags changed" and "cohort no longer marked CT_NUM_CURRENT"; EXEMPT lists functions working on readings that are in no cohort or only printed.''',
'C32': '''The documented table of letters is in the check. Parser: each place that sets position bits is traced to the characters its conditions ask for, the bits it clears and how far it moves. Writer: each printed text is traced to the bits its conditions test, positively and as an else-branch.''',
'C29': '''Every recognition site is analysed in both spellings: constant propagation of the parse position until the next read; words that can be tested at the same position are checked for prefixes.''',
'C30': '''Write effects of everything reachable from matching (LOOKING) restricted to STATE classes; ALLOWED are caches and marks.  For options (OPTIONS) any change of a window control-dependent on one is reported; TRACED/PRINTED say what tracing and printing may record.''',
'C14': '''Each reader is interpreted path by path from its entry over an abstract state: for every window and word variable what it denotes (null, the pending word, the word
added last, an older one, the window being filled, a window that has been moved up, freed), whether a word is pending and has its end tag, whether the current window has been run, whether `next` and `previous` are known to be empty,
the local bools set together with those variables, and bool fields the reader never assigns (`is_conv`).  Branches on null tests, on emptiness of the queues and on `next.size() > E` refine the state; lambdas, by-reference
helpers and member helpers that take part are followed with the state at the call (up to depth 5).  The states are finite and the exploration is exhaustive (a few thousand states per reader).  `taken` is decided per loop: all ways through one iteration.
Six defects were found and repaired (JSONL ran the last window twice; FST crashed at a soft delimiter; FLUSH without a pending word left pointers to freed windows; `--num-windows 0` ran empty windows in five readers; FST and plain text lost the
end tag at the end of input).  Not judged: that plain text input never breaks a window at a delimiter (its cohort variable is always empty when delimiters are tested); no statement promises it.''', 'C15': '''(see rules)''', 'C16': '''(see rules)''', 'C19': '''(see rules)''', 'C23': '''(see rules)''', 'C04': '''(see rules)''', 'C31': '''(see rules)''',
}

TAIL = '''
## False alarms

Where a check alarmed on code that is right, the rule was corrected rather than the code listed.  The corrections that shaped the machinery: conditions of short-circuit operators are split in the CFG (an inverted `if` is the
same graph); reachability under assumed values took the place of looking for guards in one function; effects are joined at the end of a rule action, not of a helper; walks and replacements are recognised by what flows where (slices),
not by the form of loops; in C25 names built into the program cannot fail to parse and are cut from the escape analysis.  No false alarm is listed as a known finding.

## What is not covered

Which analyses come out is decided by matching tags against data; static rules here decide that the machinery around it (state, indexes, formats, references, options) stays consistent, not that a given test matches.  Timing, memory
growth and termination are not judged.  Python bindings are only looked at as far as named in a property.
'''
