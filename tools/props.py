PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=qtext, why=why, files=files, mech=mech, **kw))


P('C01', 'A binary grammar loads back as the grammar that was written',
  '''Whatever the binary-grammar writer emits, the binary-grammar reader of the same version consumes in the same order, with the same
  widths, under the same presence bits and counts, and stores in the same place, for every tag, set, rule, contextual test and global
  setting.  A value is left out of the file, or stored in fewer bytes than it has in memory, only when that loses nothing.
  Everything the disambiguation engine looks at in a grammar is either in the file or rebuilt while loading it.''',
  ['programs', 'inputs'], 'all grammars that can be compiled, with every combination of rule types, flags, tag kinds, set kinds and nested contexts',
  'The tests compile a fixed handful of grammars to binary; each presence bit, narrow encoding and rarely used member is met by few or none of them.',
  ['src/BinaryGrammar_write.cpp', 'src/BinaryGrammar_read.cpp', 'src/inlines.hpp', 'src/TagTrie.hpp', 'src/Grammar.hpp', 'src/Grammar.cpp', 'src/Tag.hpp', 'src/Set.hpp', 'src/Rule.hpp', 'src/ContextualTest.hpp'],
  [('writer', 'src/BinaryGrammar_write.cpp writeBinaryGrammar, writeContextualTest, trie_serialize'), ('reader', 'src/BinaryGrammar_read.cpp parse_grammar, readContextualTest, trie_unserialize')],
  technique='abstract interpretation of writer and reader into byte-format descriptions, structural comparison, plus def-use completeness over the call graph',
  note='Both sides are walked in full (all functions that touch the stream inlined); every emitted item, presence bit, count and member is matched. Trusts ICU conversions and the model of the stream primitives; the loader for pre-2018 format revisions is not covered.')

P('C20', 'Keyword, flag and operator tables stay in step with the values they name',
  '''Every keyword, rule flag, section flag and regular-expression flag text in the tables of the grammar language denotes the value the rest of the program uses for it: entry
  number n of each table is the n-th constant, every flag has its own bit, and the families of mutually exclusive flags contain exactly flags
  of that family.  No two bits of one flag word overlap, a flag word is only ever combined with flags of its own family (a mask, never a bit position),
  and every rule type the grammar parser can create is acted on by the rule runner.  A flag computed from its position is as wide as the flag word;
  two flags of a family on one rule are rejected, and a section flag is passed on to a rule only where no flag of its family is set.''',
  ['configurations', 'programs'], 'all keywords and flags of the grammar language, all bits of rule flags, contextual positions, tag types, set types, cohort types',
  'A test exercises a keyword through one grammar; an off-by-one in a parallel table shows only for the entry nobody wrote a test for.',
  ['src/Strings.hpp', 'src/Strings.cpp', 'src/Rule.hpp', 'src/Tag.hpp', 'src/Set.hpp', 'src/ContextualTest.hpp', 'src/Cohort.hpp', 'src/TextualParser.cpp', 'src/GrammarWriter.cpp'],
  [('tables', 'src/Strings.hpp KEYWORDS/FLAGS, src/Strings.cpp keywords/g_flags'), ('bits', 'src/Rule.hpp RULE_FLAGS, _flags_excls')],
  technique='table/enum alignment lint over constant-evaluated initialisers of the type-checked AST',
  note='All entries of all tables are compared; the correspondence of text to constant name is by normalised spelling with a frozen list of exceptions.')

P('C29', 'Keywords are recognised in full and consumed exactly',
  '''Wherever the grammar parser or the numeric-expression parser recognises a keyword, flag, option, position modifier or function name,
  it accepts the upper-case and the lower-case spelling alike (options: as written), only at a word end for section and rule keywords, no shorter word that is tested earlier
  swallows a longer one, the parser continues exactly behind the word, and the word has the meaning of its name: the rule type, flag, section, option
  or function that is called that.''',
  ['inputs'], 'all words of the grammar language in either spelling at every place where they may stand',
  'Tests use one spelling of a word at one place; a wrong length or a shadowed word only shows for the word and spelling nobody wrote.',
  ['src/TextualParser.cpp', 'src/MathParser.hpp', 'src/inlines.hpp', 'src/uextras.hpp', 'src/Strings.hpp', 'src/Strings.cpp'],
  [('recognisers', 'src/inlines.hpp IS_ICASE, src/uextras.hpp ux_simplecasecmp'), ('use', 'src/TextualParser.cpp parseFromUChar, maybeParseRule, parseRule, parseRuleFlags, parseContextualTestList')],
  technique='path analysis over the control-flow graph from every recognised edge with constant propagation of the parse position; prefix analysis of co-reachable recognisers',
  note='Every recognition site is analysed in both spellings on all paths up to the next read; how the rest of a construct is parsed is not covered.')

P('C02', 'Binary stream output is what binary stream input reads',
  """Whatever a window holds for printing is written to a binary stream in the order, width and with the counts and flag bits the reader takes it in by, and every value goes back to the member it came from: variables
  set to a value, to any or removed, text and blanks, each cohort with its number, the number of its parent, relations and related flag, static tags, each reading with base form and tags, and chains of subreadings.
  Left out are only removed cohorts, the >>> cohort, readings not to be printed, and tags that are given elsewhere or are duplicates under --unique-tags; a count says exactly how many elements follow.  All that is read
  is put in its place once.  Stream commands and text between windows come back as what they were, the header is written once and first, and what does not fit its 16 bits is an error and not a broken stream.""",
  ['inputs'], 'all windows that can be printed: any number of cohorts, readings, subreadings, tags, variables, relations',
  'Writer and reader are two pieces of code that must agree on every optional part; round trips of samples miss combinations of flags, counts and orders.',
  ['src/BinaryApplicator.cpp', 'src/inlines.hpp'],
  [('writer', 'BinaryApplicator::printSingleWindow, printStreamCommand, printPlainTextLine'), ('reader', 'BinaryApplicator::readWindow, readPacket, runGrammarOnText')],
  technique='symbolic-free layout extraction of writer and reader from the syntax tree and comparison token by token; per-iteration counting analysis of the writing loops over the CFG; reachability per packet, command and variable mode',
  note='Reading numbers and which word wrote a text are not part of the format.  The text of a tag and its meaning are C18/C01 matters.')

P('C03', 'External programs get whole windows; replies change only what they mark',
  """An EXTERNAL rule sends the window in the documented format: version once after starting the process, then per call a length-prefixed window with its number and count of cohorts, per cohort number, flags, parent,
  word form, count of readings and text, per reading flags, base form, count of tags and tags; each optional part is there exactly when its flag says so, each count is the number of elements that follow, and the packet is
  flushed.  The reply is taken in by the same layout into the members the values were sent from.  Numbers and counts in it are compared with the window before anything is indexed by them.  A reading not marked as
  modified is not changed unless the word form changed; a marked one gets its flags, base form and tags replaced and is recomputed.  An empty reply changes nothing.  ONCE sends a window once, ALWAYS every time.""",
  ['inputs', 'environment'], 'all windows and all replies of an external program',
  'The only test drives one script that marks one reading; other combinations of flags, counts and marks are never exchanged.',
  ['src/GrammarApplicator.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/inlines.hpp', 'src/version.hpp'],
  [('writer', 'GrammarApplicator::pipeOutSingleWindow, pipeOutCohort, pipeOutReading'), ('reader', 'GrammarApplicator::pipeInSingleWindow, pipeInCohort, pipeInReading'), ('call', 'K_EXTERNAL_ONCE / K_EXTERNAL_ALWAYS in runGrammarOnSingleWindow')],
  technique='layout extraction of sender and receiver from the syntax tree, compared with each other and with the documented format; reachability under fixed flag values; control dependence for counts',
  note='Which tags a text stands for is not judged, nor the empty packet at shutdown.')

P('C05', 'Recycled readings, cohorts and windows behave like new ones',
  '''A reading, cohort or window that comes out of the recycling pool cannot be told from a freshly built one: clearing it resets every member on
  every path, in an order in which nothing already reset is still needed, gives back and deregisters exactly what the destructor would,
  the allocation functions (fresh, or copied from another reading) set the same member values whether or not the pool had an object, copies cover
  every member, and nothing stays referenced from the pool or from the pointer it was freed through.  Scratch containers are cleared before their slot is reused.''',
  ['histories', 'inputs'], 'all sequences of windows, cohorts and readings that are created, removed, copied and recycled in one process',
  'Recycling starts to matter after several windows of particular content; a test input is a handful of windows and a stale member rarely shows.',
  ['src/pool.hpp', 'src/Reading.cpp', 'src/Cohort.cpp', 'src/SingleWindow.cpp', 'src/scoped_stack.hpp', 'src/bloomish.hpp'],
  [('recycling', 'src/pool.hpp pool::put/get'), ('reset', 'Reading::clear, Cohort::clear, SingleWindow::clear'), ('allocation', 'alloc_reading, alloc_cohort, alloc_swindow')],
  technique='forward must-dataflow of member resets over the CFG of clear(), symbolic comparison of constructor and pooled allocation, effect comparison of destructor and clear()',
  note='Covers every member of every pooled class. Pointers to recycled objects that are kept elsewhere (rule caches, relation maps) are only covered as far as destructor and clear() deregister them.')

P('C13', 'The same grammar and input give the same result in every run',
  """Results depend on nothing but grammar, options and input.  Nothing the library does asks for the time, for random numbers or for what the process is (an unnamed set gets a random name, which nothing can refer to);
  no number is made from an address, no addresses are compared, sorted by, hashed or written; containers kept in the order of addresses are not gone through in a way that shows the order, and what sorted containers
  compare is in the objects; every constructor gives every plain member a value, and a plain local variable has a value on every path to its use.""",
  ['runs', 'configurations', 'inputs'], 'all functions of the library and programs; all classes and constructors; all containers keyed by address; all locals without initial value',
  'A test sees one layout of memory; a dependence on addresses or leftovers shows only in another.',
  ['src/Tag.hpp', 'src/SingleWindow.hpp', 'src/Reading.cpp', 'src/ContextualTest.hpp', 'src/ContextualTest.cpp', 'src/Set.cpp', 'src/Grammar.cpp', 'src/BinaryApplicator.cpp', 'src/TextualParser.cpp'],
  [('order', 'compare_Tag, less_Cohort, Reading::cmp_number, freq_sorter'), ('members', 'ContextualTest, Rule, Cohort, Reading, Set, Tag'), ('chance', 'Set::setName, main')],
  technique='taint-free source lint over the call graph of the library, type-resolved order lint, definite assignment of members and locals',
  note='External programs and files named in options are input. That std containers behave the same for the same content is taken for granted.')
P('C14', 'No word that is read is lost; each window is run once and printed once',
  """In every stream reader (CG, Apertium, binary, FST, JSONL, Matxin, niceline, plain text), whatever the input, limits, delimiters and flush commands: each word that is begun is added to a window, once, before
  the next one begins (or, where words are only converted, printed and freed); words are only added to a window whose rules have not been run yet; each window moved up is run exactly once;
  at a flush and at the end of input all windows that are held are run and then printed, each once, and then freed (the EXIT command is documented to discard them); nothing
  points to a freed window or word afterwards.  Before a window is closed or run the readings of its last word have been given the end tag.""",
  ['inputs', 'histories'], 'all input streams in all formats, with all combinations of delimiters, limits, --num-windows and stream commands',
  'The tests feed each reader a few short files; where windows break, flushes fall and input ends relative to pending words and half-filled windows is unlimited.',
  ['src/GrammarApplicator_runGrammar.cpp', 'src/ApertiumApplicator.cpp', 'src/BinaryApplicator.cpp', 'src/FSTApplicator.cpp', 'src/JsonlApplicator.cpp', 'src/MatxinApplicator.cpp', 'src/NicelineApplicator.cpp', 'src/PlaintextApplicator.cpp', 'src/Window.cpp', 'src/GrammarApplicator_runRules.cpp'],
  [('readers', 'runGrammarOnText of GrammarApplicator and of each applicator that overrides it'), ('window queue', 'Window::allocAppendSingleWindow, shuffleWindowsDown'), ('output', 'runGrammarOnWindow, printSingleWindow, free_swindow')],
  technique='path-sensitive typestate analysis of the readers (pending word, window being filled, window run, windows held) over the CFG, helpers and lambdas followed',
  note='What a line means (word, reading, text) is not judged, nor where windows break; the library API, where the caller owns the windows, and MWE splitting are not covered.')

P('C17', 'Command-line options do what their names say in every program',
  """In vislcg3, cg-conv, cg-proc and cg-mwesplit every entry of the option table is the option its constant is named after, no two options share a name, every option
  a program accepts is looked at by that program, and it makes exactly the settings it stands for; no other option makes them, and nothing resets them afterwards. Whether it makes them depends on no other option, except one that ends the program or asks for another format, and a number given as its argument is taken as it stands.
  The argument of an option is only read where the option was given and can have one, and an optional argument only when it is there.
  Defaults (environment, grammar) fill in only options that were not given; forced options (environment) always win; forced grammar options yield only to those.
  A rule selected by name is selected by the same key the engine filters rules by.""",
  ['configurations', 'inputs'], 'all options of all programs, in every combination from command line, environment and grammar',
  'The tests use a few options each alone; a shifted table entry, a wrong guard or a wrong precedence shows only for the options and combinations nobody tried.',
  ['src/options.hpp', 'src/options.cpp', 'src/options_conv.hpp', 'src/main.cpp', 'src/cg-conv.cpp', 'src/cg-proc.cpp', 'src/cg-mwesplit.cpp', 'src/GrammarApplicator.cpp'],
  [('tables', 'src/options.cpp options, src/options_conv.hpp options_conv'), ('settings', 'GrammarApplicator::setOptions, main'), ('precedence', 'main.cpp, cg-proc.cpp, cg-conv.cpp merge loops')],
  technique='table/enum alignment, control-dependence analysis of every setting on option guards (through helpers), order analysis of merge loops',
  note='The meaning of each option is a frozen table (option, member, value). How the engine behaves under a setting is not covered; values are not range-checked.')

P('C11', 'No input overflows a fixed-size array or a buffer the code sized itself',
  """Whatever the grammar, the input text, the binary stream or the command line holds, a bulk write into memory (ICU conversions and string functions, stream reads, memcpy and friends, std::copy,
  printf and scanf into memory) writes at most as many units as its destination holds from the position it starts at, and a store into a fixed-size array of numbers, characters or pointers, or into one of the
  shared conversion buffers, uses an index below its size: long tags, tokens, names, paths, numbers, regex captures, lines and packets are limited, grown for, or refused.
  This holds through helper functions that are handed a buffer and its size, and for the C API's text conversions.""",
  ['inputs'], 'all lengths of tokens, tags, names, numbers, lines, captures, packets and arguments',
  'An overflow needs an input longer than what the author had in mind; the tests hold none, and a small overflow does not change the output.',
  ['src/TextualParser.cpp', 'src/Tag.cpp', 'src/uextras.cpp', 'src/BinaryApplicator.cpp', 'src/BinaryGrammar.cpp', 'src/GrammarApplicator_matchSet.cpp', 'src/FSTApplicator.cpp', 'src/MathParser.hpp', 'src/libcg3.cpp', 'src/streambuf.hpp', 'src/GrammarWriter.cpp', 'src/cg-annotate.cpp'],
  [('tokens', 'TextualParser::copyToken'), ('captures', 'GrammarApplicator_matchSet.cpp captureRegex'), ('lines', 'uextras.cpp get_line_clean, u_fgets'), ('messages', 'uextras.cpp _u_fprintf'), ('numeric tags', 'Tag::parseNumeric'), ('C API', 'libcg3.cpp cg3_tag_create_*, cg3_tag_gettext_*')],
  technique='symbolic size analysis: reaching definitions, linear forms over lengths, sizes of strings and vectors, facts from dominating branches, and per-function write summaries instantiated at every call',
  note='Reads and element accesses of growing containers are not judged. A destination the analysis cannot resolve is listed as a note in the evidence (one at present: an iterator that appends).')

P('C10', 'Words stay numbered, linked and registered when rules edit a window',
  """Cohorts of a window carry their place in the list of active cohorts, are linked to their neighbours, are in the list of all cohorts, and are found by number in the maps of the stream.
  Every rule type that edits the list of active cohorts (ADDCOHORT, COPYCOHORT, SPLITCOHORT, MERGECOHORTS, REMCOHORT, REMCOHORT IGNORED, MOVE, SWITCH, DELIMIT) re-establishes all of that
  before it is done, on every path, in the window the cohort is in (which with attach-to is not always the one the rules run on): new cohorts get a number and enter both lists and both maps; removed ones are
  marked, detached and erased from the active list, the map, the rule index and (unless only ignored) the children of others, but stay in the list of all cohorts, so their text stays;
  moved ones are moved in both lists; a window that is dropped hands its cohorts and text to a neighbour; DELIMIT hands all that follows to a window put right after it, with removed, enclosed and
  ignored cohorts kept as such; ignored cohorts come back at the end of the window.  A cohort looked up by number is used only if it was found, and a cohort's place is used only in the list of its own window.""",
  ['inputs', 'histories'], 'all rule types that edit the list of cohorts, on every path of their actions, in any window',
  'A stale place or link only shows when a later rule or test of the same window walks over it; the tests edit windows in a handful of ways and rarely across window borders.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator_runContextualTest.cpp', 'src/Window.cpp', 'src/SingleWindow.cpp'],
  [('edit', 'GrammarApplicator_runRules.cpp add_cohort, rem_cohort, ignore_cohort, reindex, cohort_cb'), ('delimit', 'GrammarApplicator::delimitAt'), ('unignore', 'GrammarApplicator::runGrammarOnWindow'), ('lookup', 'uses of Window::cohort_map and dep_window')],
  technique='interprocedural path-set typestate analysis per rule type (edited -> renumbered, relinked, registered), symbolic window terms for cohorts and lists, must-check dataflow for map lookups',
  note='Windows are told apart as far as the source says where a cohort comes from; a numbering loop is recognised by writing the number of every member of the list it runs over. The position chosen for an insertion is not judged.')

P('C08', 'Failed rule tests are forgotten, and sections repeated, when the window changes',
  """The engine remembers which (rule, cohort) pairs did not match and skips them.  On every path on which a rule action changes anything that targets or
  contextual tests can see (readings and their lists, tags, mapping and protection state, cohorts and their order, dependencies, relations, variables, word forms),
  everything remembered is forgotten before another rule is tried.  Each pass over a window starts with nothing remembered.  What is remembered is keyed by rule and cohort, and neither recorded
  nor used for rules nested in WITH.  Every such change by a rule is also reported, through the cohort or reading action up to the section loop, so that the section is run again,
  except for rule types that never report (PROTECT, UNPROTECT, SETVARIABLE, REMVARIABLE, RESTORE, REMPARENT, SWITCHPARENT, and WITH by itself).""",
  ['histories', 'inputs'], 'all sequences of rule applications of every rule type on any window, on every path through the rule actions',
  'A stale negative result only shows when a rule failed before, is retried in the same pass, and the change between was of the one kind that forgot to clear.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator.hpp', 'src/GrammarApplicator_reflow.cpp'],
  [('cache', 'GrammarApplicator::index_ruleCohort_no'), ('actions', 'GrammarApplicator_runRules.cpp runRulesOnSingleWindow reading_cb, cohort_cb'), ('report', 'runSingleRule, runRulesOnSingleWindow, runGrammarOnSingleWindow')],
  technique='interprocedural path-set effect analysis over the CFG (per rule type), typestate change -> forget and change -> report',
  note='Every rule type is analysed on every path of the rule actions and the helpers they call. Changes are those of a frozen table of observable members; changes hidden in other members are not seen.')

P('C07', 'Every change a rule makes is recorded under its number, and --trace prints it',
  """Whatever a rule of any type does to a window, its number is recorded in the trace list of at least one reading it acted on, on every path on which something changed;
  readings that a rule makes carry its number too; readings handed on to be selected or removed have theirs recorded.  The list of numbers is only appended to, and reset only where
  a reading is recycled.  With tracing on, every output format that prints traces prints every number of the list with the rule type and line, and wherever it prints removed readings it prints
  both the deleted and the delayed ones; removed readings are kept, not freed, when tracing.""",
  ['inputs', 'histories'], 'all rule types on every path of their actions, all readings, all output formats that print traces',
  'Trace output of a few rules is compared in the tests; a path that changes readings without leaving its number is only seen by someone reading a trace of that very path.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator.cpp', 'src/ApertiumApplicator.cpp', 'src/JsonlApplicator.cpp', 'src/NicelineApplicator.cpp', 'src/Reading.hpp'],
  [('record', 'GrammarApplicator_runRules.cpp reading_cb, cohort_cb, TRACE'), ('print', 'GrammarApplicator::printTrace, printReading, printCohort')],
  technique='interprocedural path-set effect analysis over the CFG (per rule type): change implies recorded number; coverage analysis of the printing functions',
  note='All rule types and printing functions are analysed. Which reading should carry the number is only decided for readings that are made, selected or removed.')

P('C09', 'Dependency and relation rules connect the right words, both ways',
  """A word's parent and the parent's list of children always agree: whatever gives a cohort another parent (SETPARENT, SETCHILD, REMPARENT, SWITCHPARENT, REMCOHORT handing children on, reflowing
  dependencies, an external program) takes it from the children of the old parent and puts it among those of the new one.  A link that would make a loop or a crossing branch is not made unless the rule
  says ALLOWLOOP or ALLOWCROSS or the test is switched off, and is not refused otherwise: the
  test for loops looks for the child among the parent and all its ancestors (it gives up after 1000), that for crossings for links that leave the stretch between the two on either side.  SETPARENT makes the found cohort the parent and SETCHILD the child, ADD/SET/REMRELATION put the relation on the target with the
  number of the found one, the RELATIONS forms also the other way with their second list, each with its own operation and relation tag; REVERSE exchanges the two.  A cohort is removed only after its children were handed on.""",
  ['inputs', 'histories'], 'all sequences of rules and windows',
  'A link that only one side knows of shows in a later rule that follows the other side; tests look at the output, where only the parent is printed.',
  ['src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator.cpp', 'src/Cohort.cpp'],
  [('links', 'GrammarApplicator::attachParentChild'), ('dependencies', 'reflowDependencyWindow'), ('removal', 'rem_cohort'), ('external', 'pipeInSingleWindow')],
  technique='typestate of the parent link over the CFG through helpers, and per-rule-type reachability with role tracking of the cohorts at the linking calls; the answers of the loop and crossing tests by the comparisons that lead to them',
  note='Numbers as they come from input are links only after reflowDependencyWindow; the input readers are exempt by a fixed table.  One known finding: the test for crossings looks at the wrong cohorts.')

P('C24', 'What a grammar refers to is followed everywhere when it is indexed',
  """Indexing a grammar leaves nothing out: everything that rules, tests, sets, static sets, delimiters, parentheses, preferred targets and varstring tags refer to is marked as used, also through
  templates, OR'ed and linked tests, barriers and sets of sets; every reference to a set by hash becomes the number of that set; all tags of a set and the sets in it are indexed for the rules and
  sets they may match, special and unifying sets under any tag; a set with special, unifying or mapping tags or sets in it is so itself; rules whose lists or tests use unification or varstrings
  anywhere below keep the order of their tests.  Whether a reference is followed depends on nothing but that it is there.  Walks over the tags of a set (for indexing, matching, printing, copying
  and relabelling) go down into every entry, with all they need, and what they collect on the way are the tags of that entry.  A test that is replaced by another while a grammar is
  read is replaced wherever tests are referred to.""",
  ['inputs'], 'all grammars: any combination of rules, tests nested to any depth, templates, sets of sets and entries of several tags',
  'A reference that is not followed shows only in grammars that reach a set or tag in no other way; the rule is then missed, or a hash is used as an index.',
  ['src/Grammar.cpp', 'src/Set.cpp', 'src/Set.hpp', 'src/ContextualTest.cpp', 'src/Tag.cpp', 'src/TagTrie.hpp', 'src/Relabeller.hpp', 'src/TextualParser.cpp'],
  [('indexing', 'Grammar::reindex'), ('sets', 'Set::reindex'), ('tests', 'ContextualTest::markUsed'), ('entries', 'trie_getTags')],
  technique='backward slicing over reaching definitions and control dependence, interprocedural; push/pop balance over the CFG',
  note='Each member is to flow into the marking, numbering or indexing call on a path whose conditions are about that member, its visited mark and the binary flag only.')

P('C25', 'A reported error is never taken for success',
  """Whoever reports an error (by a message that says so) does not go on as if nothing had happened: on every path after the message the program ends with a status other than 0, an exception is thrown, the error
  is counted in the grammar parser, or the function returns the value by which it says that it failed (nothing, false, CG3_ERROR), except where data is skipped by design (malformed JSON and Matxin values, malformed tags met at run time).
  The grammar parser counts every error before it throws it, the count only grows, no error leaves the parser as an exception, and the count is what the parser returns.  Every program and library function that
  parses a grammar takes any count other than zero for a failure: it neither runs, compiles nor returns that grammar; a result that may be null
  after an error is looked at before it is used.  The exit code that is asked for is the one the program ends with.""",
  ['inputs', 'environment'], 'all error messages of all programs and the library, on all paths after them',
  'Tests run good grammars on good input; of the more than 250 places that report an error they reach hardly any, and what happens after the message is not looked at.',
  ['src/TextualParser.cpp', 'src/parser_helpers.hpp', 'src/inlines.hpp', 'src/main.cpp', 'src/cg-comp.cpp', 'src/cg-proc.cpp', 'src/cg-relabel.cpp', 'src/libcg3.cpp', 'src/GrammarApplicator.cpp', 'src/BinaryGrammar_read.cpp'],
  [('counting', 'TextualParser::incErrorCount, error, parse_grammar'), ('ending', 'CG3Quit'), ('callers', 'main of vislcg3, cg-comp, cg-proc; cg3_grammar_load')],
  technique='interprocedural path analysis over the CFG from every message: no-return inference, constant exit codes, exception escape over the call graph',
  note='Which conditions count as errors, and failures nobody reports, are not judged.')

P('C27', 'Nested rules, tests and included grammars leave the outer state as it was',
  """While a rule is tried on a cohort, its context, cohort set and position lie on stacks of the engine; while a template is tested, links wait on another and its position, offset and barriers may be
  overridden; nested rules take the place of the rule they belong to; parsing a WITH block, an option-limited construct or an INCLUDE changes what the parser works on.  All of it is put back on every
  path - also where the rule fails, is skipped, is broken off or its scope is left early - so whatever runs next sees the context, rule, template, file name, line and sections it had, and a failing
  test takes back the regular expression groups it captured.""",
  ['inputs', 'histories'], 'all grammars, windows and control paths',
  'Stale state only shows in what happens to run next; tests run few combinations of failing, nested and repeated constructs.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_runContextualTest.cpp', 'src/GrammarApplicator_matchSet.cpp', 'src/TextualParser.cpp', 'src/scoped_stack.hpp'],
  [('contexts', 'runSingleRule'), ('templates', 'runContextualTest_tmpl'), ('nested rules', 'runRulesOnSingleWindow'), ('INCLUDE', 'TextualParser::parseFromUChar')],
  technique='path-sensitive balance and save-restore analysis over the CFG per stack and member, through helpers, lambdas and scope guards',
  note='Exceptions thrown by the parser end the grammar and are not followed.  The list of stacks and members is fixed in the check; a vanished one is reported.')

P('C18', 'A failed text conversion or pattern is never taken for a result',
  """Every ICU function in the code is given a status that has been set and that does not still hold the failure of an earlier call (given that, ICU does nothing).  Wherever text, options, a grammar or a
  pattern can make one fail - conversions between encodings (invalid or half characters, or a result that does not fit its room), opening a pattern that is not a constant, running or capturing from
  the pattern of a tag or text delimiter - the failure is looked at before the status is set anew or dropped, or cannot happen: the result is proven to fit, or half characters are replaced.
  So bad text, file names, patterns or streams end in an error or a replacement character, not in silently empty, stale or missing text, and one failure does not disable what follows.""",
  ['inputs', 'configurations'], 'all texts, lengths, patterns and control paths',
  'Conversions fail only for invalid or very long text; tests use valid, short text, for which the status never matters.',
  ['src/uextras.cpp', 'src/inlines.hpp', 'src/GrammarApplicator_matchSet.cpp', 'src/TextualParser.cpp', 'src/BinaryGrammar_read.cpp', 'src/BinaryApplicator.cpp', 'src/libcg3.cpp'],
  [('streams', 'u_fgetc'), ('captures', 'captureRegex'), ('grammars', 'TextualParser::parse_grammar'), ('binary text', 'readUTF8_LE')],
  technique='typestate analysis of UErrorCode over the CFG, through helper functions and lambdas, with the linear bounds analysis of C11 for results that always fit',
  note='What is done about a failure (message, exit, replacement) is not judged, only that it is looked at.  Patterns that classify tags (regex_tags, icase_tags, --nrules) may fail to run unnoticed.')

P('C22', 'A rule is applied only where it may be, and wherever nothing forbids it',
  """Rules leave alone: removed, ignored and enclosed cohorts, the one that starts the window, cohorts of other windows or without readings; with ENCL_INNER/OUTER those outside/inside the current
  enclosure; SETPARENT SAFE and NOPARENT rules those that have a parent, REMPARENT and SWITCHPARENT those that have none; DELIMIT the last cohort.  SELECT, and REMOVE and IFF unless unsafe,
  leave the only reading of a cohort alone, unsafe ones the placeholder reading; UNMAP SAFE cohorts with several readings.  Of the readings, MAP, ADD, REPLACE and NOMAPPED rules leave mapped ones
  alone, all rules placeholder ones (unless allowed) and, but for UNPROTECT, protected ones.  The reading action runs only for readings whose target and (but for IFF) contexts matched, settled anew
  each time.  Rules switched off (not among those asked for, ignored, mappings or corrections switched off, ENCL_FINAL before, others in the final enclosure pass) are not run.
  Where none of this holds, the action can be reached.  The kind an IFF settled on counts for one cohort only.""",
  ['inputs', 'configurations'], 'all grammars and inputs: every rule type, flag and state of cohorts, readings and engine named in the statement',
  'The filters interact with rule type, flags and state; each test fixes one combination, and a filter lost for one rule type changes only windows with that very state.',
  ['src/GrammarApplicator_runRules.cpp'],
  [('cohorts and readings', 'GrammarApplicator::runSingleRule'), ('rules', 'GrammarApplicator::runRulesOnSingleWindow')],
  technique='conditional constant propagation over the CFG under an assumed state: is the action (not) reachable; loop-carried definition analysis',
  note='Conditions are evaluated on the assumed values of members, sizes, rule type and flags, through helpers; what is not assumed stays open. Does not decide whether targets and contexts are matched correctly.')

P('C21', 'No cohort is emptied against its rule, and readings taken out are kept',
  """A SELECT that selects no reading or every reading, a REMOVE that matches none, and an IFF that selects all or matches none leave the cohort alone; so do REMOVE and IFF of all readings, unless unsafe (UNSAFE, or the engine's
  unsafe mode without SAFE).  In all other cases the readings are taken out.  Every reading taken out goes to exactly the list its rule names (deleted, delayed with DELAYED, ignored with IGNORED), is marked as
  removed, and leaves the readings of the cohort; RESTORE takes readings from the list its flags name, puts them back among the readings and unmarks them.  A cohort left without readings gets the placeholder reading.
  What was collected for one cohort is forgotten before the next.  REMOVE UNMAPLAST unmaps, and keeps, the reading that would be the last to go.""",
  ['inputs', 'configurations'], 'all grammars and inputs: every combination of rule type, flags, unsafe mode, number of readings and number of matches named in the statement',
  'Losing the last reading, or losing track of a removed one, needs a particular combination of flags, number of readings and matches; output only shows removed readings with --trace or when restored.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp'],
  [('cohort action', 'GrammarApplicator::runRulesOnSingleWindow cohort_cb'), ('reading action', 'GrammarApplicator::runRulesOnSingleWindow reading_cb (RESTORE, REMOVE)')],
  technique='conditional constant propagation under assumed list sizes, flags and rule type; per-path effect pairing over the CFG (list transfer, mark, refill)',
  note='Which readings are collected as matched is C22; this decides what then happens to them.  REMCOHORT and SPLITCOHORT are not covered here.')

P('C06', 'What is derived from the tags of a reading always follows its list of tags',
  """The tag indexes and hashes a reading is matched, compared and printed by (all tags, plain, textual and numeric tags, the filters in front of them, mapping tag, base form, the line of tags of ordered grammars,
  hash) always stand for exactly the tags in its list: adding a tag of any kind files it everywhere it belongs, in the reading and in the bag of tags of its window; taking one away removes it from everywhere;
  and whatever edits the list directly (SUBSTITUTE, REPLACE, ADD/COPY BEFORE/AFTER, relation tags, readings made from subreadings, readings from external programs) has the reading indexed anew, or edits list and indexes
  alike, on every path. The hash of a reading is made of all its tags, its mapping tag (which the plain hash leaves out) and its subreadings; that of the line of tags is made of the line as it is; the sets a new
  tag may be in are noted as possible for the cohort. A match in the bag of tags needs no cohort, and no result of matching is thrown away unseen.""",
  ['histories', 'inputs'], 'all grammars and inputs: every kind of tag, every rule type, every path that edits the tags of a reading',
  'A tag that is in the list and not in an index shows only when a later rule asks for it in just the way that index serves.',
  ['src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_matchSet.cpp', 'src/Reading.hpp'],
  [('primitives', 'GrammarApplicator::addTagToReading, delTagFromReading, reflowReading'), ('edits', 'GrammarApplicator::runRulesOnSingleWindow, get_sub_reading, splitMappings, pipeInReading'), ('bag of tags', 'GrammarApplicator::doesTagMatchReading, runContextualTest')],
  technique='per-path effect analysis over the CFG with object identities (edit followed by reindexing) for every rule type; conditional effect summaries of the primitives per kind of tag; null-state analysis; dead-store analysis of match results',
  note='The filters are only required to hold at least what the index holds. GrammarApplicator::mergeReadings, which makes readings that are only printed, is exempt.')

P('C28', 'Cached numeric minimum and maximum of a cohort are never stale',
  """Whenever a rule or a helper changes the list of readings of a cohort that may have been asked for its numeric minimum or maximum, or the numeric tags of a reading in one, the cohort is marked as not computed
  afterwards, before the next numeric comparison; the cached values are read only after making sure they are computed; and the cohort is marked as computed only where both extremes were emptied and all readings have just been looked at, the smaller value going into the minimum and the larger into the maximum.""",
  ['histories', 'inputs'], 'all grammars and inputs: every rule type, every way in which the readings of a cohort or their tags change',
  'A stale extreme shows only when the same cohort is asked for MIN/MAX before and after a change that moves it.',
  ['src/Cohort.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator_matchSet.cpp'],
  [('cache', 'Cohort::updateMinMax, getMin, getMax'), ('changes', 'GrammarApplicator::runRulesOnSingleWindow, reflowReading, addTagToReading, delTagFromReading')],
  technique='per-path effect analysis over the CFG for every rule type (change followed by invalidation), typestate of the computed mark',
  note='Functions that only build or merge readings outside rule application are exempt with reasons in the check.')

P('C12', 'Recycled objects, scratch variables and printers start afresh every time',
  """Readings, cohorts and windows are recycled through pools, containers are lent from stacks, and many functions keep scratch variables for the next call.  None of it carries anything over: a recycled object is, member for
  member, what a new one would be (copies included), a lent container is empty, a variable that outlives its call is emptied on every path before it is used and is not in use across a call that can come back to its function, and
  what a printer keeps in its object is made anew for each window.  What library code changes outside of objects belongs to one thread, so that threads with objects of their own do not disturb each other.
  So results do not depend on what was processed before.""",
  ['histories', 'schedules', 'inputs'], 'all members of recycled classes, all function-local variables with static storage, all printers, all variables outside of functions that the library changes',
  'What is left over shows only when a particular earlier window had set it, or two threads meet.',
  ['src/Reading.cpp', 'src/Cohort.cpp', 'src/SingleWindow.cpp', 'src/pool.hpp', 'src/scoped_stack.hpp', 'src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator.cpp', 'src/libcg3.cpp'],
  [('recycling', 'Reading::clear, Cohort::clear, SingleWindow::clear, alloc_reading, alloc_cohort, alloc_swindow'), ('lending', 'scoped_stack::proxy'), ('scratch', 'mergeReadings, splitAllMappings, generateVarstringTag, printReading'), ('threads', 'cg3_* of libcg3.cpp')],
  technique='must-assign dataflow over resets, definite-emptying before use, re-entrancy over the call graph, storage-class lint of written globals',
  note='Known finding: the conversion buffers gbuffers and cbuffers are shared by all threads. Members of the applicator other than those printers write are not covered.')
P('C30', 'Tests, tracing, debugging and profiling change nothing in the windows',
  """Matching sets and running contextual tests (templates, linked, barrier and dependency tests included) change nothing in windows, cohorts, readings, rules, sets or the grammar, but for marks of the rule being tried
  and caches; a template overridden by a test is put back on every path; a set is struck out for a word only where its readings were all looked at.  What --debug-rules, --profile, --verbose, --debug and --trace
  switch on changes nothing of the kind either, and decides over no such change: windows shown in the middle of a run are shown without merging, sorting, turning round or restoring readings, in all output formats.
  So results do not depend on how many tests were run or on who was looking.""",
  ['inputs', 'configurations', 'histories'], 'all grammars and inputs; every function reached from matching and tests; every condition on these options in readers and engine',
  'Tests run without profiling and debugging; a test that leaves something changed shows only in later rules of certain windows.',
  ['src/GrammarApplicator_runContextualTest.cpp', 'src/GrammarApplicator_matchSet.cpp', 'src/GrammarApplicator.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/ApertiumApplicator.cpp', 'src/BinaryApplicator.cpp', 'src/JsonlApplicator.cpp'],
  [('tests', 'GrammarApplicator::runContextualTest, runContextualTest_tmpl'), ('matching', 'GrammarApplicator::doesSetMatchCohortNormal'), ('looking', 'GrammarApplicator::printDebugRule, addProfilingExample'), ('printing', 'printSingleWindow, printCohort of all formats')],
  technique='interprocedural write-effect analysis (members written by everything reachable), control dependence on options, path analysis for restoring',
  note='Rule positions to stop at (--trace N), -A and other options meant to change the run are not covered. Member tables of allowed caches and marks are in the check. Known finding: --trace shows placeholder readings to rules.')

P('C32', 'Position letters mean what they say, and are written as they are read',
  """Each letter of the position of a contextual test (c, cc, p, pp, s, S, l, ll, r, rr, *, **, @, C, N, W, <, >, O, o, L, R, X, x, jM, jA, jT, jC, D, d, I, A, w, ?, f, T, t, B, r:) sets the position bit documented for it and no
  other, whatever letters stood before it, and the parser continues exactly behind it; no letter is dropped.  What the text grammar writer writes for a position bit is the letter of that bit, it is written whenever the bit is set,
  alone or with others, and every bit that a letter can set is written; an offset is written exactly with the positions that can have one, and target, barriers, links, templates and alternatives of a test are written whenever they are there, each behind its own word.  A scan (* or **) of children or siblings becomes a deep scan and nothing else.""",
  ['inputs', 'programs'], 'all letters of positions, all combinations of position bits',
  'Tests use a dozen positions; a wrong letter or a modifier lost in a written grammar shows only for the combination nobody wrote.',
  ['src/TextualParser.cpp', 'src/GrammarWriter.cpp', 'src/ContextualTest.hpp'],
  [('parser', 'TextualParser::parseContextualTestPosition'), ('writer', 'GrammarWriter::printContextualTest')],
  technique='syntax-tree query over conditions and the bits, characters and texts they govern, compared with the documented table of letters, with lambda and helper parameters bound at their calls',
  note='Values of offsets, sub-reading positions and the tests that positions are combined with are not judged. POS_NUMERIC_BRANCH (f) never remains in a finished test and need not be written.')

P('C40', 'Contextual tests and set operators match what the language defines',
  """For every window, a contextual test with its position, scan, barriers, careful and negated modes, links and templates is true exactly if the manual says so, and a set matches a reading exactly if its tags and operators say so.""",
  ['inputs'], 'all windows and all tests', 'The space of windows and tests is unbounded; samples settle samples.', ['src/GrammarApplicator_runContextualTest.cpp', 'src/GrammarApplicator_matchSet.cpp'], [('tests', 'GrammarApplicator::runContextualTest')],
  na="""the outcome is a function of run-time tag hashes, positions and regular expressions; a static rule could only restate the code.  The consistency of what matching relies on (indexes, caches, saved state, flags) is decided by C06, C08, C20, C24, C27, C28 and C30.""")

P('C41', 'Sections end: rules do not repeat for ever',
  """Running the sections of any grammar on any window ends, or is cut off by the loop guards.""",
  ['inputs'], 'all grammars and windows', 'Non-termination needs a particular interplay of rules.', ['src/GrammarApplicator_runRules.cpp'], [('sections', 'GrammarApplicator::runRulesOnSingleWindow')],
  na="""termination depends on how often rules succeed on data; no measure in the source decreases (ADD and REMOVE can undo each other by design), so no sound static argument is in reach.""")

P('C42', 'Text formats come back as they were when printed and read again',
  """What is printed as CG, Apertium, FST, Niceline, JSON or plain text is read back as the same window as far as the format can hold it.""",
  ['inputs'], 'all windows and formats', 'Escapes, empty parts and odd characters are combined in ways samples miss.', ['src/GrammarApplicator.cpp', 'src/ApertiumApplicator.cpp', 'src/FSTApplicator.cpp', 'src/NicelineApplicator.cpp', 'src/JsonlApplicator.cpp'], [('printing', 'printCohort, printReading'), ('reading', 'runGrammarOnText')],
  na="""the readers are scanners over free text (searches for brackets, blanks, escapes), not field-by-field readers; there is no layout to extract and compare as for the binary format (C02), and whether a text survives depends on its characters.""")

P('C43', 'Numeric tests and expressions compute the right numbers',
  """Comparisons and expressions of numeric tags give the mathematical result for every value.""",
  ['inputs'], 'all numbers and expressions', 'Values and rounding are unbounded.', ['src/MathParser.hpp', 'src/Tag.cpp'], [('expressions', 'MathParser')],
  na="""a question about floating-point values at run time; the names of functions and the freshness of cached extremes are decided by C29 and C28.""")
