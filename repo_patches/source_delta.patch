From e88c8a371216f12c5e073c6438a0a16f7938e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 01/55] fix: test the CAPTURE_UNIF flag by its mask, not by its
 position

FL_CAPTURE_UNIF is the position 25, so the three tests actually looked at
NEAREST, IMMEDIATE and LOOKDELETED; rules with those flags never rolled
unification back.
---
 src/GrammarApplicator_matchSet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..fb320a3 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -902,7 +902,7 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	auto usets = ss_usets.get();
 	uint8_t orz = (context_stack.empty() ? 0 : context_stack.back().regexgrp_ct);
 
-	if (context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
+	if (context && !(current_rule->flags & RF_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		*utags = *context_stack.back().unif_tags;
 		*usets = *context_stack.back().unif_sets;
 	}
@@ -930,10 +930,10 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 			}
 		}
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
+	if (!retval && context && !(current_rule->flags & RF_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
 		context_stack.back().unif_tags->swap(utags);
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
+	if (!retval && context && !(current_rule->flags & RF_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
 	if (!retval && !context_stack.empty()) {
-- 
2.43.0


From 058726ad4fc3b9e34bad4fbe821baf6a49eba4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 02/55] fix: restore the expression offset of numeric
 expression tags when loading a binary grammar

---
 src/BinaryGrammar_read.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 9d37e63..2dbc339 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -231,6 +231,10 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		if (fields & (1 << 14)) {
 			t->context_ref_pos = readBE<uint32_t>(input);
 		}
+		if (t->type & T_NUMERIC_MATH) {
+			// The position of the expression inside the tag is not stored, so find it again
+			t->parseNumeric(true);
+		}
 
 		grammar->single_tags[t->hash] = t;
 		grammar->single_tags_list[t->number] = t;
-- 
2.43.0


From c5c5a02391e85b2c4e37f6cd6093368d136275c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 03/55] fix: recognise lower-case olist as an ordered list

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..bec954b 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2218,7 +2218,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				s->line = result->lines;
 				bool ordered = false;
 				AST_OPEN(List);
-				if (*p == 'O') {
+				if (*p == 'O' || *p == 'o') {
 					++p;
 					ordered = true;
 				}
-- 
2.43.0


From 44dd5fbf7873b2181884628e255827a755ce02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 04/55] fix: compare whole function names in numeric
 expressions

---
 src/uextras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uextras.hpp b/src/uextras.hpp
index cb52fbe..64ac940 100644
--- a/src/uextras.hpp
+++ b/src/uextras.hpp
@@ -180,7 +180,7 @@ inline bool ux_simplecasecmp(const UChar* a, const UStringView& b) {
 }
 
 inline bool ux_simplecasecmp(const UStringView& a, const UStringView& b) {
-	return ux_simplecasecmp(a.data(), b.data(), b.size());
+	return a.size() == b.size() && ux_simplecasecmp(a.data(), b.data(), b.size());
 }
 
 inline bool ux_strCaseCompare(const UString& a, const UString& b) {
-- 
2.43.0


From 1ba264383577fa92402da8fda2d362129bf3a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 05/55] fix: copy the protection and activity state also into
 recycled readings

---
 src/Reading.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Reading.cpp b/src/Reading.cpp
index a0dad37..83b85b3 100644
--- a/src/Reading.cpp
+++ b/src/Reading.cpp
@@ -48,8 +48,8 @@ Reading* alloc_reading(const Reading& o) {
 		r->noprint = o.noprint;
 		r->matched_target = false;
 		r->matched_tests = false;
-		r->immutable = false;
-		r->active = false;
+		r->immutable = o.immutable;
+		r->active = o.active;
 		r->baseform = o.baseform;
 		r->hash = o.hash;
 		r->hash_plain = o.hash_plain;
-- 
2.43.0


From ceb715c6eb04863e93e410f14a9c4e18db142397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 06/55] fix: forget ignored readings when a cohort is recycled

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From 8cad0c67d9c8864ecf0359f9684b0726fd60dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 07/55] fix: --rule NAME runs only the rules with that name

---
 src/GrammarApplicator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..73c3c64 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -987,11 +987,12 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			auto len = ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(len);
 
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line);
 				}
 			}
 		}
-- 
2.43.0


From 2c35abaa7f1493ca907804dd2637be6f29d6669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 08/55] fix: cg-proc -r NAME runs only the rules with that name

---
 src/cg-proc.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..dcf0908 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -145,10 +145,7 @@ int main(int argc, char* argv[]) {
 			break;
 
 		case 'r': {
-			// strdup() is Posix
-			size_t len = strlen(optarg) + 1;
-			single_rule.reserve(len);
-			std::copy(optarg, optarg + len, std::back_inserter(single_rule));
+			single_rule = optarg;
 			break;
 		}
 		case 's':
@@ -339,10 +336,12 @@ int main(int argc, char* argv[]) {
 	if (!single_rule.empty()) {
 		auto sn = SI32(single_rule.size());
 		UString buf(sn * 3, 0);
-		u_charsToUChars(single_rule.data(), &buf[0], sn);
+		UConverter* conv = ucnv_open(ucnv_getDefaultName(), &status);
+		buf.resize(ucnv_toUChars(conv, &buf[0], SI32(buf.size()), single_rule.c_str(), sn, &status));
+		ucnv_close(conv);
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-				applicator->valid_rules.push_back(rule->number);
+				applicator->valid_rules.push_back(rule->line);
 			}
 		}
 	}
-- 
2.43.0


From 3abc49573bc4a31591fd82741b03f3073f3677b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 09/55] fix: forget negative rule/cohort results after every
 kind of state change

---
 src/GrammarApplicator_runRules.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..859b072 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1433,6 +1433,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1443,6 +1444,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
 				variables[names.front()->hash] = values.front()->hash;
+				index_ruleCohort_no.clear();
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
@@ -1514,8 +1516,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
@@ -1545,6 +1547,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_UNPROTECT) {
 				TRACE;
 				get_apply_to().subreading->immutable = false;
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_UNMAP) {
 				if (unmapReading(*get_apply_to().subreading, rule->number)) {
@@ -1882,6 +1885,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				if (did_restore) {
+					index_ruleCohort_no.clear();
 					TRACE;
 				}
 				finish_reading_loop = false;
@@ -2447,6 +2451,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					reindex(attach->parent);
 					indexSingleWindow(*attach->parent);
+					index_ruleCohort_no.clear();
 					readings_changed = true;
 					reset_cohorts_for_loop = true;
 				}
@@ -2657,12 +2662,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_REMPARENT) {
 				// this is a per-cohort rule
 				finish_reading_loop = false;
+				index_ruleCohort_no.clear();
 				TRACE;
 				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
 				finish_reading_loop = false;
+				index_ruleCohort_no.clear();
 				TRACE;
 
 				// collect cohorts
@@ -2854,6 +2861,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 								iter->hit_by.push_back(rule->number);
 							}
 						}
+						index_ruleCohort_no.clear();
 						readings_changed = true;
 						sorter.do_sort = true;
 					}
-- 
2.43.0


From fec09997243a1e61682797b199934cac443e2e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 10/55] fix: a WITH inside a WITH no longer lets the remaining
 sub-rules of the outer run on all cohorts

---
 src/GrammarApplicator_runRules.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 859b072..b3a8f2c 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2871,6 +2871,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				TRACE;
 				bool any_readings_changed = false;
 				readings_changed = false;
+				bool nested_was = in_nested;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
 					Rule* cur_was = current_rule;
@@ -2886,7 +2887,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					current_rule = cur_was;
 					rule = rule_was;
 				}
-				in_nested = false;
+				in_nested = nested_was;
 				readings_changed = any_readings_changed;
 				finish_reading_loop = false;
 			}
-- 
2.43.0


From 8e9471b7f408a3c215111b9bf0d69da81f188478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 11/55] fix: nested rules are not skipped because they did not
 match in another context

---
 src/GrammarApplicator_runRules.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b3a8f2c..8b2adaf 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -479,11 +479,14 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// Check if on previous runs the rule did not match this cohort, and skip if that is the case.
 		// This cache is cleared if any rule causes any state change in the window.
-		uint32_t ih = hash_value(rule.number, cohort->global_number);
-		if (index_ruleCohort_no.contains(ih)) {
-			continue;
+		// The outcome of nested rules also depends on the context of the outer rule, so those can't be cached.
+		if (!in_nested) {
+			uint32_t ih = hash_value(rule.number, cohort->global_number);
+			if (index_ruleCohort_no.contains(ih)) {
+				continue;
+			}
+			index_ruleCohort_no.insert(ih);
 		}
-		index_ruleCohort_no.insert(ih);
 
 		size_t num_active = 0;
 		size_t num_iff = 0;
-- 
2.43.0


From ae86965b72bf322b76bc4e33bc8555973a69d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 12/55] fix: an IFF rule starts as IFF on every cohort, also
 after one that it selected on

---
 src/GrammarApplicator_runRules.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8b2adaf..3e520fc 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -344,7 +344,6 @@ Reading* GrammarApplicator::get_sub_reading(Reading* tr, int sub_reading) {
 bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, RuleCallback reading_cb, RuleCallback cohort_cb) {
 	finish_cohort_loop = true;
 	bool anything_changed = false;
-	KEYWORDS type = rule.type;
 	const Set& set = *(grammar->sets_list[rule.target]);
 	CohortSet* cohortset = &current.rule_to_cohorts[rule.number];
 
@@ -380,6 +379,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		Cohort* cohort = cohortset->at(rocit);
 		++rocit;
 
+		// May turn from Iff into Select or Remove, but only for this cohort
+		KEYWORDS type = rule.type;
+
 		finish_reading_loop = true;
 
 		if (debug_level > 1) {
-- 
2.43.0


From f698e63a4ed87c3ef3d64756b92a3e9fcc09baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 13/55] fix: the readings collected for one cohort are no
 longer removed with those of the next

IFF where the contexts fail for all readings of a cohort (or for some of them while others match) left
the list of readings to remove filled; the next cohort that the rule touched then took them over, so
that readings turned up under two cohorts and were freed twice.
---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3e520fc..474ee33 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1372,6 +1372,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings_changed = true;
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (!removed.empty() && (removed.size() < get_apply_to().cohort->readings.size() || (unsafe && !(rule->flags & RF_SAFE)) || (rule->flags & RF_UNSAFE))) {
@@ -1405,6 +1406,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From 73cd3e43128c00dde04d4f63d8062a0ffc0b3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 14/55] fix: numeric minimum and maximum of a cohort are
 recomputed after its readings changed

SELECT, REMOVE, IFF, RESTORE and the rules that rewrite a reading's tags (SUBSTITUTE, REPLACE, ...) left
CT_NUM_CURRENT set, so <W=MAX> and the like kept comparing with values of readings or tags that were gone.
---
 src/GrammarApplicator_reflow.cpp   | 1 +
 src/GrammarApplicator_runRules.cpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..7b042ff 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -340,6 +340,7 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.tags_plain_bloom.clear();
 	reading.mapping = nullptr;
 	reading.tags_string.clear();
+	reading.parent->type &= ~CT_NUM_CURRENT;
 
 	insert_if_exists(reading.parent->possible_sets, grammar->sets_any);
 
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 474ee33..29bc9f2 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1360,6 +1360,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					target->readings.swap(selected);
+					target->type &= ~CT_NUM_CURRENT;
 					if (rule->flags & RF_DELAYED) {
 						target->delayed.insert(target->delayed.end(), drop.begin(), drop.end());
 					}
@@ -1397,6 +1398,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						removed.pop_back();
 					}
 					get_apply_to().cohort->readings.resize(oz);
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					if (debug_level > 0) {
 						std::cerr << "DEBUG: Rule " << rule->line << " hit cohort " << get_apply_to().cohort->local_number << std::endl;
 					}
@@ -1871,7 +1873,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						if (doesSetMatchReading(*rl[i], rule->maplist->number)) {
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
-							get_apply_to().cohort->readings.push_back(rl[i]);
+							get_apply_to().cohort->appendReading(rl[i]);
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
-- 
2.43.0


From 37504f338533f850d7d5e61230ac1f5f5fdb3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 15/55] fix: rules that insert, split off, ignore or delimit at
 a cohort of another window change that window

---
 src/GrammarApplicator_reflow.cpp   |  2 +-
 src/GrammarApplicator_runRules.cpp | 28 ++++++++++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 7b042ff..9c06920 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -792,7 +792,7 @@ Cohort* GrammarApplicator::delimitAt(SingleWindow& current, Cohort* cohort) {
 			foreach (iter, current.parent->previous) {
 				if (*iter == &current) {
 					nwin = current.parent->allocSingleWindow();
-					current.parent->previous.insert(iter, nwin);
+					current.parent->previous.insert(++iter, nwin);
 					break;
 				}
 			}
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 29bc9f2..2cb310a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -536,7 +536,13 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			if (gac->parent != &current) {
+				gac = cohort;
+			}
+			auto lb = cohortset->end();
+			if (gac->local_number < current.cohorts.size()) {
+				lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			}
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
@@ -958,7 +964,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		auto collect_subtree = [&](CohortSet& cs, Cohort* head, uint32_t cset) {
 			if (cset) {
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					// Always consider the initial cohort a match
 					if (iter->global_number == head->global_number) {
 						cs.insert(iter);
@@ -968,7 +974,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 				CohortSet more;
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					for (auto cht : cs) {
 						// Do not grab the whole tree from the root, in case WithChild is not (*)
 						if (cht->global_number == head->global_number) {
@@ -987,6 +993,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto add_cohort = [&](Cohort* cohort, size_t& spacesInAddedWf, CohortSet* withs = nullptr) {
+			auto& current = *cohort->parent;
 			Cohort* cCohort = alloc_cohort(&current);
 			cCohort->global_number = gWindow->cohort_counter++;
 
@@ -1227,6 +1234,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				gWindow->cohort_map.erase(cohort->global_number);
 				free_cohort(cohort);
 
+				for (size_t i = 1; i < current.all_cohorts.size(); ++i) {
+					current.all_cohorts[i]->parent = current.previous ? current.previous : current.next;
+				}
 				if (current.previous) {
 					current.previous->text += current.text + current.text_post;
 					current.previous->all_cohorts.insert(current.previous->all_cohorts.end(), current.all_cohorts.begin() + 1, current.all_cohorts.end());
@@ -1462,7 +1472,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_DELIMIT) {
 				auto cohort = get_apply_to().cohort;
 				if (cohort->parent->cohorts.size() > cohort->local_number + 1) {
-					delimitAt(current, cohort);
+					delimitAt(*cohort->parent, cohort);
 					delimited = true;
 					readings_changed = true;
 				}
@@ -1509,7 +1519,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					for (auto c : reversed(cohorts)) {
 						ignore_cohort(c);
 					}
-					reindex();
+					reindex(get_apply_to().cohort->parent);
 					reflowDependencyWindow();
 				}
 				else {
@@ -1518,7 +1528,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// If we just removed the last cohort, add <<< to the new last cohort
 				if (get_apply_to().cohort->readings.front()->tags.count(endtag)) {
-					for (auto r : current.cohorts.back()->readings) {
+					for (auto r : get_apply_to().cohort->parent->cohorts.back()->readings) {
 						addTagToReading(*r, endtag);
 						if (updateValidRules(rules, intersects, endtag, *r)) {
 							iter_rules = intersects.find(rule->number);
@@ -1570,6 +1580,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				size_t spacesInAddedWf = 0; // not used here
 				auto cCohort = add_cohort(get_apply_to().cohort, spacesInAddedWf);
+				auto& current = *cCohort->parent;
 
 				// If the new cohort is now the last cohort, add <<< to it and remove <<< from previous last cohort
 				if (current.cohorts.back() == cCohort) {
@@ -1591,6 +1602,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_SPLITCOHORT) {
 				index_ruleCohort_no.clear();
+				auto& current = *get_apply_to().cohort->parent;
 
 				std::vector<std::pair<Cohort*, std::vector<TagList>>> cohorts;
 
@@ -1804,7 +1816,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				current.parent->cohort_map.erase(get_apply_to().cohort->global_number);
 				current.cohorts.erase(current.cohorts.begin() + get_apply_to().cohort->local_number);
 
-				reindex();
+				reindex(&current);
 				indexSingleWindow(current);
 				readings_changed = true;
 
@@ -2751,7 +2763,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 
-					if (!good || cohort == attach || cohort->local_number == 0) {
+					if (!good || cohort == attach || cohort->local_number == 0 || cohort->parent != attach->parent) {
 						return;
 					}
 
-- 
2.43.0


From ac6e44ac3d544e80ba0905d81ff79c0bc2c40f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 16/55] fix: parents and children that are ignored or gone are
 not followed when cohorts are removed, split or switched

---
 src/GrammarApplicator_runRules.cpp | 31 ++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2cb310a..4f4dad3 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1200,11 +1200,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
+				// The parent or child may be ignored or belong to a window that is long gone
+				auto cit = gWindow->cohort_map.find(ch);
+				auto pit = gWindow->cohort_map.find(cohort->dep_parent);
+				if (pit == gWindow->cohort_map.end()) {
+					pit = gWindow->cohort_map.find(0);
 				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				if (cit != gWindow->cohort_map.end() && pit != gWindow->cohort_map.end()) {
+					attachParentChild(*pit->second, *cit->second, true, true);
 				}
 				cohort->dep_children.erase(ch);
 			}
@@ -1764,7 +1767,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto cit = current.parent->cohort_map.find(ch);
+							if (cit != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *cit->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
@@ -1775,7 +1781,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					else {
-						attachParentChild(*current.parent->cohort_map[cohorts.front().first->global_number + cohort_dep[i].second - 1], *cCohort, true, true);
+						auto pit = current.parent->cohort_map.find(cohorts.front().first->global_number + cohort_dep[i].second - 1);
+						if (pit != current.parent->cohort_map.end()) {
+							attachParentChild(*pit->second, *cCohort, true, true);
+						}
 					}
 
 					// Re-attach all named relations to the dependency tail or R:* cohort
@@ -2691,11 +2700,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				index_ruleCohort_no.clear();
-				TRACE;
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto pit = current.parent->cohort_map.find(child->dep_parent);
+				if (pit == current.parent->cohort_map.end()) {
+					// The parent is ignored or belongs to a window that is long gone
+					return;
+				}
+				TRACE;
+
+				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From bddb800db6c3039a8e5a5633e24055861aeb8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 17/55] fix: static tags from JSONL input can be matched like
 those from any other format

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..2260257 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -181,7 +181,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 			auto tag_str = json_to_ustring(tag_val);
 			if (!tag_str.empty()) {
 				auto tag = addTag(tag_str);
-				cCohort->wread->tags_list.push_back(tag->hash);
+				addTagToReading(*cCohort->wread, tag);
 			}
 		}
 	}
-- 
2.43.0


From 24ebaa0a1b005b6f3d05cccce235388ed3ad82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 18/55] fix: a match in the bag of tags of an earlier window is
 not lost to a mismatch in a later one

---
 src/GrammarApplicator_runContextualTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..cd059a9 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -435,7 +435,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 					else {
 						left = nullptr;
 					}
-					if (right && (test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT))) {
+					if (!match && right && (test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT))) {
 						match = doesSetMatchReading(right->bag_of_tags, test->target, true);
 						right = right->next;
 					}
-- 
2.43.0


From 451b5c3bf6dbd3ff660654526d5cff45b484a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 19/55] fix: the bag of tags can be tested for word forms, base
 forms, variables and numeric extremes

---
 src/GrammarApplicator_matchSet.cpp | 72 +++++++++++++++++++++++-------
 src/GrammarApplicator_reflow.cpp   |  2 +-
 2 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index fb320a3..36e2698 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -81,22 +81,49 @@ inline void captureRegex(int32_t gc, uint8_t& regexgrp_ct, RXGS* regexgrps, Tag&
 	}
 }
 
+// The bag of tags does not belong to a cohort, so its extremes come from its own tags
+static double reading_min(const Reading& reading, uint32_t key) {
+	if (reading.parent) {
+		return reading.parent->getMin(key);
+	}
+	double rv = NUMERIC_MAX;
+	for (const auto& it : reading.tags_numerical) {
+		if (it.second->comparison_hash == key) {
+			rv = std::min(rv, it.second->comparison_val);
+		}
+	}
+	return rv == NUMERIC_MAX ? NUMERIC_MIN : rv;
+}
+
+static double reading_max(const Reading& reading, uint32_t key) {
+	if (reading.parent) {
+		return reading.parent->getMax(key);
+	}
+	double rv = NUMERIC_MIN;
+	for (const auto& it : reading.tags_numerical) {
+		if (it.second->comparison_hash == key) {
+			rv = std::max(rv, it.second->comparison_val);
+		}
+	}
+	return rv == NUMERIC_MIN ? NUMERIC_MAX : rv;
+}
+
 uint32_t test_tag_numerical(const Reading& reading, const Tag& tag, const Tag& itag) {
 	uint32_t match = 0;
 	if (tag.comparison_hash == itag.comparison_hash) {
 		double compval = tag.comparison_val;
 		if ((tag.type & T_NUMERIC_MATH) && tag.comparison_offset) {
-			MathParser mp(reading.parent->getMin(tag.comparison_hash), reading.parent->getMax(tag.comparison_hash));
+			MathParser mp(reading_min(reading, tag.comparison_hash), reading_max(reading, tag.comparison_hash));
 			UStringView exp(tag.tag);
 			exp.remove_prefix(tag.comparison_offset);
 			exp.remove_suffix(1);
 			compval = mp.eval(exp);
 		}
 		else if (compval <= NUMERIC_MIN) {
-			compval = reading.parent->getMin(tag.comparison_hash);
+			compval = reading_min(reading, tag.comparison_hash);
 		}
 		else if (compval >= NUMERIC_MAX) {
-			compval = reading.parent->getMax(tag.comparison_hash);
+			compval = reading_max(reading, tag.comparison_hash);
 		}
 
 		if (tag.comparison_op == OP_EQUALS && itag.comparison_op == OP_EQUALS && compval == itag.comparison_val) {
@@ -388,7 +415,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		match = doesTagMatchReading(reading, *nt, unif_mode, bypass_index);
 	}
 	else if (tag.type & T_META) {
-		if (tag.regexp && !reading.parent->text.empty()) {
+		if (tag.regexp && reading.parent && !reading.parent->text.empty()) {
 			UErrorCode status = U_ZERO_ERROR;
 			uregex_setText(tag.regexp, reading.parent->text.data(), SI32(reading.parent->text.size()), &status);
 			if (status != U_ZERO_ERROR) {
@@ -437,15 +464,26 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 			}
 		}
 		else if (tag.type & T_WORDFORM) {
-			match = reading.parent->wordform->hash;
-			if (unif_mode) {
+			if (reading.parent) {
+				match = reading.parent->wordform->hash;
+			}
+			else {
+				// The bag of tags holds the word forms of all cohorts
+				for (auto mter : reading.tags_textual) {
+					if (grammar->single_tags.find(mter)->second->type & T_WORDFORM) {
+						match = mter;
+						break;
+					}
+				}
+			}
+			if (unif_mode && match) {
 				if (unif_last_wordform) {
-					if (unif_last_wordform != reading.parent->wordform->hash) {
+					if (unif_last_wordform != match) {
 						match = 0;
 					}
 				}
 				else {
-					unif_last_wordform = reading.parent->wordform->hash;
+					unif_last_wordform = match;
 				}
 			}
 		}
@@ -483,7 +521,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	else if (tag.type & (T_VARIABLE|T_LOCAL_VARIABLE)) {
 		match = 0;
 		auto& vars = [&]() -> auto& {
-			if (reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
+			if (!reading.parent || reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
 				return variables;
 			}
 			return reading.parent->parent->variables_set;
@@ -526,21 +564,23 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_PAR_LEFT) {
-		if (par_left_tag && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
+		if (par_left_tag && reading.parent && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_PAR_RIGHT) {
-		if (par_right_tag && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
+		if (par_right_tag && reading.parent && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_ENCL) {
-		auto sw = reading.parent->parent;
-		auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
-		++c;
-		if (c != sw->all_cohorts.end() && (*c)->enclosed) {
-			match = true;
+		if (reading.parent) {
+			auto sw = reading.parent->parent;
+			auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
+			++c;
+			if (c != sw->all_cohorts.end() && (*c)->enclosed) {
+				match = true;
+			}
 		}
 	}
 	else if (tag.type & T_TARGET) {
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 9c06920..9afd5d0 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -551,7 +551,7 @@ uint32_t GrammarApplicator::addTagToReading(Reading& reading, Tag* tag, bool reh
 		if (tag->type & T_NUMERICAL) {
 			bot.tags_numerical[tag->hash] = tag;
 		}
-		if (!reading.baseform && (tag->type & T_BASEFORM)) {
+		if (!bot.baseform && (tag->type & T_BASEFORM)) {
 			bot.baseform = tag->hash;
 		}
 		if (!(tag->type & T_SPECIAL)) {
-- 
2.43.0


From 25057135c380c7f13a6429369aeb256a1262e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 20/55] fix: cg-mwesplit does not use the tag it just erased

---
 src/MweSplitApplicator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MweSplitApplicator.cpp b/src/MweSplitApplicator.cpp
index 585fe56..8c54692 100644
--- a/src/MweSplitApplicator.cpp
+++ b/src/MweSplitApplicator.cpp
@@ -125,11 +125,13 @@ std::vector<Cohort*> MweSplitApplicator::splitMwe(Cohort* cohort) {
 				}
 
 				Reading* rNew = alloc_reading(*sub);
-				for (size_t i = 0; i < rNew->tags_list.size(); ++i) {
-					auto& tter = rNew->tags_list[i];
+				for (size_t i = 0; i < rNew->tags_list.size();) {
+					auto tter = rNew->tags_list[i];
 					if (tter == wfTag->hash || tter == rNew->parent->wordform->hash) {
-						rNew->tags_list.erase(rNew->tags_list.begin() + i);
-						rNew->tags.erase(tter);
+						delTagFromReading(*rNew, tter);
+					}
+					else {
+						++i;
 					}
 				}
 				cos[pos]->appendReading(rNew);
-- 
2.43.0


From d82180997b3fd2b396f2b23c0cfa142762db36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 21/55] fix: line regular expressions do not see tags that were
 taken from a reading

---
 src/GrammarApplicator.hpp          |  1 +
 src/GrammarApplicator_reflow.cpp   | 16 ++++++++++++++++
 src/GrammarApplicator_runRules.cpp |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..d84b460 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -347,6 +347,7 @@ protected:
 	void reflowReading(Reading& reading);
 	Tag* generateVarstringTag(const Tag* tag);
 	void delTagFromReading(Reading& reading, uint32_t tag);
+	void reflowTagsString(Reading& reading);
 	void delTagFromReading(Reading& reading, Tag* tag);
 	bool unmapReading(Reading& reading, const uint32_t rule);
 	TagList getTagList(const Set& theSet, bool unif_mode = false) const;
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 9afd5d0..85f87e5 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -340,6 +340,7 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.tags_plain_bloom.clear();
 	reading.mapping = nullptr;
 	reading.tags_string.clear();
+	reading.tags_string_hash = 0;
 	reading.parent->type &= ~CT_NUM_CURRENT;
 
 	insert_if_exists(reading.parent->possible_sets, grammar->sets_any);
@@ -578,10 +579,25 @@ void GrammarApplicator::delTagFromReading(Reading& reading, uint32_t utag) {
 	if (utag == reading.baseform) {
 		reading.baseform = 0;
 	}
+	if (ordered) {
+		reflowTagsString(reading);
+	}
 	reading.rehash();
 	reading.parent->type &= ~CT_NUM_CURRENT;
 }
 
+// ToDo: Remove for real ordered mode
+void GrammarApplicator::reflowTagsString(Reading& reading) {
+	reading.tags_string.clear();
+	for (auto tter : reading.tags_list) {
+		if (!reading.tags_string.empty()) {
+			reading.tags_string += ' ';
+		}
+		reading.tags_string += grammar->single_tags[tter]->tag;
+	}
+	reading.tags_string_hash = hash_value(reading.tags_string);
+}
+
 void GrammarApplicator::delTagFromReading(Reading& reading, Tag* tag) {
 	return delTagFromReading(reading, tag->hash);
 }
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4f4dad3..dacf8d9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1315,6 +1315,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						++it;
 					}
 				}
+				if (ordered) {
+					reflowTagsString(*r);
+				}
 				addTagToReading(*r, nt);
 			}
 		};
-- 
2.43.0


From 6818dc350f5c3920024addf149391b541b2846ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 22/55] fix: the spot tags of ADD and COPY are not compared
 past the end of the reading

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index dacf8d9..d5c03f6 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1855,7 +1855,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == reading.tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
@@ -2223,7 +2223,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == cReading->tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
-- 
2.43.0


From d450a127877336bd4119aeb569a4da9973844a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 23/55] fix: a grammar token longer than the parse buffer is an
 error and not an overflow

---
 src/TextualParser.cpp | 83 +++++++++++++++++--------------------------
 src/TextualParser.hpp |  3 ++
 2 files changed, 36 insertions(+), 50 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index bec954b..c7d1143 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -102,6 +102,14 @@ void TextualParser::incErrorCount() {
 	throw error_counter;
 }
 
+void TextualParser::copyToken(const UChar* p, int32_t c) {
+	if (c >= SI32(CG3_BUFFER_SIZE)) {
+		error("%s: Error: Token is too long on line %u near `%S`!\n", p);
+	}
+	u_strncpy(&gbuffers[0][0], p, c);
+	gbuffers[0][c] = 0;
+}
+
 struct freq_sorter {
 	const bc::flat_map<Tag*, size_t>& tag_freq;
 
@@ -240,8 +248,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tags.push_back(t);
 					p = n;
@@ -260,8 +267,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 				MAYBE_QUOTED(n, p);
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				Tag* t = parseTag(&gbuffers[0][0], p);
 				tags.push_back(t);
 				p = n;
@@ -348,8 +354,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						MAYBE_QUOTED(n, p);
 						result->lines += SKIPTOWS(n, ')', true);
 						auto c = SI32(n - p);
-						u_strncpy(&gbuffers[0][0], p, c);
-						gbuffers[0][c] = 0;
+						copyToken(p, c);
 						Tag* t = parseTag(&gbuffers[0][0], p);
 						tags.push_back(t);
 						p = n;
@@ -395,8 +400,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						--n;
 					}
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Set* tmp = parseSet(&gbuffers[0][0], p);
 					uint32_t sh = tmp->hash;
 					sets.push_back(sh);
@@ -477,8 +481,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 					result->lines += SKIPTOWS(n, 0, true);
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				//dieIfKeyword(&gbuffers[0][0]);
 				int sop = ux_isSetOp(&gbuffers[0][0]);
 				if (sop != S_IGNORE) {
@@ -678,8 +681,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			auto n = p;
 			SKIPTOWS(n, '(');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 			Tag* tag = parseTag(&gbuffers[0][0], p);
 			t.relation = tag->hash;
 			p = n;
@@ -883,8 +885,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 	auto n = p;
 	result->lines += SKIPTOWS(n, '(');
 	auto c = SI32(n - p);
-	u_strncpy(&gbuffers[0][0], p, c);
-	gbuffers[0][c] = 0;
+	copyToken(p, c);
 	if (ux_isEmpty(&gbuffers[0][0])) {
 		AST_OPEN(TemplateInline);
 		if (no_itmpls) {
@@ -969,8 +970,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 			n = p;
 			result->lines += SKIPTOWS(n, ')');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 			uint32_t cn = hash_value(&gbuffers[0][0]);
 			t->tmpl = reinterpret_cast<ContextualTest*>(cn);
 			tmpl_data = std::make_pair(result->lines, &gbuffers[0][0]);
@@ -1102,8 +1102,7 @@ flags_t TextualParser::parseRuleFlags(UChar*& p) {
 					auto n = p;
 					result->lines += SKIPTOWS(n, 0, true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					p = n;
 					if (gbuffers[0][0] == '*') {
 						rv.sub_reading = GSR_ANY;
@@ -1190,8 +1189,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		MAYBE_QUOTED(n, lp);
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - lp);
-		u_strncpy(&gbuffers[0][0], lp, c);
-		gbuffers[0][c] = 0;
+		copyToken(lp, c);
 		Tag* wform = parseTag(&gbuffers[0][0], lp);
 		rule->wordform = wform;
 		AST_CLOSE_ID(n, wform->hash);
@@ -1208,8 +1206,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, '(');
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		copyToken(p, c);
 		if (!gbuffers[0][0]) {
 			ux_bufcpy(nearbuf, p, 20);
 			u_fprintf(ux_stderr, "%s: Warning: Rule on line %u near `%S` had : but no name.\n", filebase, result->lines, nearbuf);
@@ -1252,12 +1249,10 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - p);
 		if (*p == '"') {
-			u_strncpy(&gbuffers[0][0], p + 1, c - 1);
-			gbuffers[0][c - 2] = 0;
+			copyToken(p + 1, c - 2);
 		}
 		else {
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 		}
 
 		Tag* ext = result->allocateTag(&gbuffers[0][0]);
@@ -1817,8 +1812,7 @@ void TextualParser::parseAnchorish(UChar*& p, bool rule_flags) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		copyToken(p, c);
 		if (!only_sets) {
 			result->addAnchor(&gbuffers[0][0], UI32(result->rule_by_number.size()), true);
 		}
@@ -1977,8 +1971,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, ';');
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 
@@ -2010,8 +2003,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->preferred_targets.push_back(t->hash);
 					p = n;
@@ -2045,8 +2037,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->reopen_mappings.insert(t->hash);
 					p = n;
@@ -2193,8 +2184,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2231,8 +2221,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2293,8 +2282,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				uint32_t sh = hash_value(&gbuffers[0][0]);
 				p = n;
@@ -2581,8 +2569,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2628,8 +2615,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 				result->lines += SKIPWS(p, ';');
@@ -2726,8 +2712,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				UString name(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2778,8 +2763,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					left = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
@@ -2793,8 +2777,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					right = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 4a2536d..aab6065 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -107,6 +107,9 @@ private:
 	void parseRule(UChar*& p, KEYWORDS key);
 	void parseAnchorish(UChar*& p, bool rule_flags = true);
 
+	// Copies c code units from p to gbuffers[0]; it is an error if they do not fit
+	void copyToken(const UChar* p, int32_t c);
+
 	int error_counter = 0;
 	[[noreturn]] void incErrorCount();
 };
-- 
2.43.0


From faef068f366b1a93d7528b98a4f1dc910842dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 24/55] fix: names, numbers and paths longer than their
 fixed-size buffers do not overflow them

---
 src/BinaryGrammar.cpp              | 19 +++++++++++++++++++
 src/BinaryGrammar.hpp              |  4 ++++
 src/BinaryGrammar_read.cpp         | 12 ++++++------
 src/BinaryGrammar_read_10043.cpp   | 12 ++++++------
 src/BinaryGrammar_write.cpp        | 18 ++++++------------
 src/FSTApplicator.cpp              |  6 +++---
 src/GrammarApplicator_runRules.cpp |  9 ++++++---
 src/MathParser.hpp                 | 17 +++++++++++------
 src/Tag.cpp                        |  2 +-
 src/parser_helpers.hpp             |  4 ++--
 src/uextras.cpp                    | 18 +++++++-----------
 11 files changed, 71 insertions(+), 50 deletions(-)

diff --git a/src/BinaryGrammar.cpp b/src/BinaryGrammar.cpp
index 49e46c2..621af95 100644
--- a/src/BinaryGrammar.cpp
+++ b/src/BinaryGrammar.cpp
@@ -36,6 +36,25 @@ void BinaryGrammar::setVerbosity(uint32_t v) {
 	verbosity = v;
 }
 
+int32_t BinaryGrammar::convertString(UConverter* conv, const UChar* str, int32_t len) {
+	UErrorCode err = U_ZERO_ERROR;
+	ucnv_reset(conv);
+	auto n = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, str, len, &err);
+	if (U_FAILURE(err)) {
+		u_fprintf(ux_stderr, "Error: ucnv_fromUChars() returned %s - cannot write string of length %d!\n", u_errorName(err), len);
+		CG3Quit(1);
+	}
+	return n;
+}
+
+void BinaryGrammar::readBytes(std::istream& input, uint32_t n) {
+	if (n >= CG3_BUFFER_SIZE) {
+		u_fprintf(ux_stderr, "Error: Grammar has a string of %u bytes, but at most %u are allowed!\n", n, UI32(CG3_BUFFER_SIZE - 1));
+		CG3Quit(1);
+	}
+	input.read(&cbuffers[0][0], n);
+}
+
 int BinaryGrammar::parse_grammar(const char* filename) {
 	if (!grammar) {
 		u_fprintf(ux_stderr, "Error: Cannot parse into nothing - hint: call setResult() before trying.\n");
diff --git a/src/BinaryGrammar.hpp b/src/BinaryGrammar.hpp
index 3c8891c..a999aca 100644
--- a/src/BinaryGrammar.hpp
+++ b/src/BinaryGrammar.hpp
@@ -70,6 +70,10 @@ private:
 	Grammar* grammar = nullptr;
 	void writeContextualTest(ContextualTest* t, std::ostream& output);
 	ContextualTest* readContextualTest(std::istream& input);
+	// Converts a string into cbuffers[0] and returns its length in bytes; it is an error if it does not fit
+	int32_t convertString(UConverter* conv, const UChar* str, int32_t len);
+	// Reads n bytes into cbuffers[0]; it is an error if they do not fit
+	void readBytes(std::istream& input, uint32_t n);
 
 	typedef std::unordered_map<ContextualTest*, uint32_t> deferred_t;
 	deferred_t deferred_tmpls;
diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 2dbc339..ec989eb 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -93,7 +93,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	if (fields & BINF_PREFIX) {
 		ucnv_reset(conv);
 		u32tmp = readBE<uint32_t>(input);
-		input.read(&cbuffers[0][0], u32tmp);
+		readBytes(input, u32tmp);
 		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
 	}
 
@@ -171,7 +171,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				t->tag = &gbuffers[0][0];
 			}
@@ -181,7 +181,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 
 				UParseError pe;
@@ -218,7 +218,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				u32tmp = readBE<uint32_t>(input);
 				if (u32tmp) {
 					ucnv_reset(conv);
-					input.read(&cbuffers[0][0], u32tmp);
+					readBytes(input, u32tmp);
 					i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 					t->vs_names->push_back(&gbuffers[0][0]);
 				}
@@ -337,7 +337,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				s->setName(&gbuffers[0][0]);
 			}
@@ -411,7 +411,7 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				r->setName(&gbuffers[0][0]);
 			}
diff --git a/src/BinaryGrammar_read_10043.cpp b/src/BinaryGrammar_read_10043.cpp
index 906ccb4..77b6e70 100644
--- a/src/BinaryGrammar_read_10043.cpp
+++ b/src/BinaryGrammar_read_10043.cpp
@@ -68,7 +68,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 	if (fields & (1 << 1)) {
 		ucnv_reset(conv);
 		u32tmp = readBE<uint32_t>(input);
-		input.read(&cbuffers[0][0], u32tmp);
+		readBytes(input, u32tmp);
 		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
 	}
 
@@ -124,7 +124,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				t->tag = &gbuffers[0][0];
 			}
@@ -134,7 +134,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 
 				UParseError pe;
@@ -171,7 +171,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 				u32tmp = readBE<uint32_t>(input);
 				if (u32tmp) {
 					ucnv_reset(conv);
-					input.read(&cbuffers[0][0], u32tmp);
+					readBytes(input, u32tmp);
 					i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 					t->vs_names->push_back(&gbuffers[0][0]);
 				}
@@ -268,7 +268,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				s->setName(&gbuffers[0][0]);
 			}
@@ -335,7 +335,7 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
 				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
+				readBytes(input, u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				r->setName(&gbuffers[0][0]);
 			}
diff --git a/src/BinaryGrammar_write.cpp b/src/BinaryGrammar_write.cpp
index 4b85b08..73a22d4 100644
--- a/src/BinaryGrammar_write.cpp
+++ b/src/BinaryGrammar_write.cpp
@@ -104,8 +104,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 	writeBE(output, fields);
 
 	if (grammar->mapping_prefix) {
-		ucnv_reset(conv);
-		i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, &grammar->mapping_prefix, 1, &err);
+		i32tmp = convertString(conv, &grammar->mapping_prefix, 1);
 		writeBE(output, UI32(i32tmp));
 		output.write(&cbuffers[0][0], i32tmp);
 	}
@@ -168,8 +167,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 
 		if (!t->tag.empty()) {
 			fields |= (1 << 8);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, t->tag.data(), SI32(t->tag.size()), &err);
+			i32tmp = convertString(conv, t->tag.data(), SI32(t->tag.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -178,8 +176,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 			fields |= (1 << 9);
 			int32_t len = 0;
 			const UChar* p = uregex_pattern(t->regexp, &len, &err);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, p, len, &err);
+			i32tmp = convertString(conv, p, len);
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -195,8 +192,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 			fields |= (1 << 11);
 			writeBE<uint32_t>(buffer, UI32(t->vs_names->size()));
 			for (const auto& iter : *t->vs_names) {
-				ucnv_reset(conv);
-				i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, iter.data(), SI32(iter.size()), &err);
+				i32tmp = convertString(conv, iter.data(), SI32(iter.size()));
 				writeBE(buffer, i32tmp);
 				buffer.write(&cbuffers[0][0], i32tmp);
 			}
@@ -289,8 +285,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 		if (s->type & ST_STATIC) {
 			fields |= (1 << 6);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, s->name.data(), SI32(s->name.size()), &err);
+			i32tmp = convertString(conv, s->name.data(), SI32(s->name.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
@@ -352,8 +347,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 		if (!r->name.empty()) {
 			fields |= (1 << 4);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, r->name.data(), SI32(r->name.size()), &err);
+			i32tmp = convertString(conv, r->name.data(), SI32(r->name.size()));
 			writeBE(buffer, i32tmp);
 			buffer.write(&cbuffers[0][0], i32tmp);
 		}
diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..e352b38 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -155,19 +155,19 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					if (comma) {
 						comma[0] = '.';
 					}
-					char buf[32];
+					char buf[512];
 					size_t i = 0;
 					for (; i < 31 && tab[i]; ++i) {
 						buf[i] = static_cast<char>(tab[i]);
 					}
 					buf[i] = 0;
 					if (strcmp(buf, "inf") == 0) {
-						i = sprintf(buf, "%f", NUMERIC_MAX);
+						i = snprintf(buf, sizeof(buf), "%f", NUMERIC_MAX);
 					}
 					else {
 						weight = strtof(buf, 0);
 						weight *= wfactor;
-						i = sprintf(buf, "%f", weight);
+						i = snprintf(buf, sizeof(buf), "%f", weight);
 					}
 					wtag_buf.clear();
 					wtag_buf.reserve(wtag.size() + i + 3);
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d5c03f6..9580bab 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1286,8 +1286,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
-			UChar tmp[256] = { 0 };
-			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
+			UString tmp(u"R:");
+			tmp += tag->tag;
+			UChar num[16] = { 0 };
+			u_sprintf(num, ":%u", id);
+			tmp += num;
 			auto nt = addTag(tmp);
 			return nt;
 		};
@@ -1669,7 +1672,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					UChar dep_self[12] = {};
 					UChar dep_parent[12] = {};
-					if (u_sscanf(tter->tag.data(), "%[0-9cd]->%[0-9pm]", &dep_self, &dep_parent) == 2) {
+					if (u_sscanf(tter->tag.data(), "%11[0-9cd]->%11[0-9pm]", &dep_self, &dep_parent) == 2) {
 						if (dep_self[0] == 'c' || dep_self[0] == 'd') {
 							cohort_dep[i - 1].first = DEP_NO_PARENT;
 							if (rel_trg == DEP_NO_PARENT) {
diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..2e15c4a 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -50,6 +50,13 @@ class MathParser {
 	void eval_func(double& result);
 	void get_token();
 
+	static size_t var_slot(UChar c) {
+		if (c < 'A' || c > 'Z') {
+			throw std::runtime_error("Variables must be A-Z");
+		}
+		return static_cast<size_t>(c - 'A');
+	}
+
 public:
 	MathParser(double min=0, double max=0) : min(min), max(max) {}
 	double eval(UStringView exp);
@@ -74,7 +81,6 @@ inline void MathParser::eval_assign(double& result) {
 	if (tok_type == VARIABLE) {
 		UStringView t_ptr = exp_ptr;
 		temp_token = token;
-		auto slot = token[0] - 'A';
 		get_token();
 		if (token[0] != '=') {
 			exp_ptr = t_ptr;
@@ -82,6 +88,7 @@ inline void MathParser::eval_assign(double& result) {
 			tok_type = VARIABLE;
 		}
 		else {
+			auto slot = var_slot(temp_token[0]);
 			get_token();
 			eval_add_sub(result);
 			vars[slot] = result;
@@ -237,15 +244,13 @@ inline void MathParser::eval_func(double& result) {
 				result = max;
 			}
 			else {
-				result = vars[token[0] - 'A'];
+				result = vars[var_slot(token[0])];
 			}
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
-			std::copy(token.begin(), token.end(), num);
-			num[token.size()] = 0;
-			result = strtod(num, nullptr);
+			std::string num(token.begin(), token.end());
+			result = strtod(num.data(), nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
 			}
diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..28b4285 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -126,7 +126,7 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UChar relname[256];
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%255[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname);
 			comparison_hash = reltag->hash;
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..2d79d80 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -442,8 +442,8 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 	      (name[0] == '$' && name[1] == '$') || (name[0] == '&' && name[1] == '&')) &&
 	    name[2]) {
 		const UChar* wname = &(name[2]);
-		const UChar wname2[1024]{};
-		if (u_sscanf(wname, "%*u:%S", &wname2) == 1) {
+		UChar wname2[1024]{};
+		if (u_sscanf(wname, "%*u:%1023S", &wname2) == 1) {
 			wname = wname2;
 		}
 		uint32_t wrap = hash_value(wname);
diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..1701f1e 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -27,26 +27,22 @@
 namespace CG3 {
 
 std::string ux_dirname(const char* in) {
-	char tmp[32768] = { 0 };
 #ifdef _WIN32
+	char tmp[32768] = { 0 };
 	char* fname = nullptr;
 	GetFullPathNameA(in, 32767, tmp, &fname);
 	if (fname) {
 		fname[0] = 0;
 	}
+	std::string dir(tmp);
 #else
-	strcpy(tmp, in);
-	char* dir = dirname(tmp);
-	if (dir != tmp) {
-		strcpy(tmp, dir);
-	}
+	std::string tmp(in);
+	std::string dir(dirname(&tmp[0]));
 #endif
-	size_t tlen = strlen(tmp);
-	if (tmp[tlen - 1] != '/' && tmp[tlen - 1] != '\\') {
-		tmp[tlen + 1] = 0;
-		tmp[tlen] = '/';
+	if (dir.empty() || (dir.back() != '/' && dir.back() != '\\')) {
+		dir += '/';
 	}
-	return tmp;
+	return dir;
 }
 
 size_t findAndReplace(UnicodeString& str, UStringView from, UStringView to) {
-- 
2.43.0


From c161dacaf52b327dfe57729a75d77b956d8af3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 25/55] fix: messages longer than the print buffer are not read
 past their end

---
 src/uextras.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 1701f1e..07fdfc5 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -260,16 +260,22 @@ inline int32_t _u_fprintf(std::ostream& output, const Char* fmt, va_list args) {
 	va_list args2;
 	va_copy(args2, args);
 
-	auto n16 = SI32(size(_buf16));
-	n16 = _u_vsnprintf(buf16, n16, fmt, args);
+	auto cap16 = SI32(size(_buf16));
+	auto n16 = _u_vsnprintf(buf16, cap16, fmt, args);
+	// ICU may report a too small length when the text did not fit, so repeat until it does
+	while (n16 > cap16) {
+		cap16 = n16 + 1;
+		_str16.resize(cap16);
+		buf16 = &_str16[0];
+		va_list args3;
+		va_copy(args3, args2);
+		n16 = _u_vsnprintf(buf16, cap16, fmt, args3);
+		va_end(args3);
+	}
+	va_end(args2);
 	if (n16 < 0) {
 		throw std::runtime_error("Critical error in u_fprintf() wrapper");
 	}
-	if (n16 > SI32(size(_buf16))) {
-		_str16.resize(n16 + 1);
-		buf16 = &_str16[0];
-		n16 = _u_vsnprintf(buf16, n16, fmt, args2);
-	}
 
 	char _buf8[size(_buf16) * 3];
 	std::string _str8;
-- 
2.43.0


From 683510bee7e773e5b293991f2b7f82ed9f0efae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 26/55] fix: bstreambuf does not write past the bytes that were
 asked for

---
 src/streambuf.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/streambuf.hpp b/src/streambuf.hpp
index 784c29c..0bfa853 100644
--- a/src/streambuf.hpp
+++ b/src/streambuf.hpp
@@ -106,7 +106,6 @@ public:
 			stream->read(s + i, count - i);
 			i += stream->gcount();
 		}
-		s[i] = 0;
 		setg(&ch, &ch + 1, &ch + 1);
 		return i;
 	}
-- 
2.43.0


From 4fd09b936edf9993768a062f4040c4baf7b4f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 27/55] fix: grammar and annotation buffers are as large as
 what is written to them

---
 src/TextualParser.cpp | 10 +++++-----
 src/cg-annotate.cpp   |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index c7d1143..111727e 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2681,7 +2681,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					}
 				}
 
-				grammarbufs.emplace_back(new UString(grammar_size * 2, 0));
+				grammarbufs.emplace_back(new UString(grammar_size * 2 + 4, 0));
 				auto& data = *grammarbufs.back().get();
 				int32_t size = 0;
 				u_strFromUTF8(&data[4], SI32(grammar_size * 2), &size, buf.data(), SI32(buf.size()), &err);
@@ -2885,7 +2885,7 @@ int TextualParser::parse_grammar(const char* fname) {
 	}
 
 	// It reads into the buffer at offset 4 because certain functions may look back, so we need some nulls in front.
-	grammarbufs.emplace_back(new UString(result->grammar_size * 2, 0));
+	grammarbufs.emplace_back(new UString(result->grammar_size * 2 + 4, 0));
 	auto& data = *grammarbufs.back().get();
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
@@ -2904,13 +2904,13 @@ int TextualParser::parse_grammar(const char* buffer, size_t length) {
 	filebase = "<utf8-memory>";
 	result->grammar_size = length;
 
-	grammarbufs.emplace_back(new UString(length * 2, 0));
+	grammarbufs.emplace_back(new UString(length * 2 + 4, 0));
 	auto& data = *grammarbufs.back().get();
 
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
-	u_strFromUTF8(&data[4], SI32(result->grammar_size * 2), &size, buffer, SI32(length), &err);
-	if (size >= SI32(result->grammar_size * 2 - 1)) {
+	u_strFromUTF8(&data[4], SI32(length * 2), &size, buffer, SI32(length), &err);
+	if (size >= SI32(length * 2 - 1)) {
 		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 		CG3Quit(1);
 	}
diff --git a/src/cg-annotate.cpp b/src/cg-annotate.cpp
index 86db0a2..7cdabfd 100644
--- a/src/cg-annotate.cpp
+++ b/src/cg-annotate.cpp
@@ -204,7 +204,7 @@ int main(int argc, char* argv[]) {
 
 	auto write_grammar = [&](size_t g, UnicodeString& grammar) {
 		html.clear();
-		auto gn = strings[g];
+		auto gn = xml_encode(fs::path(strings[g]).filename());
 		html.resize(256 + gn.size());
 		sz = sprintf(&html[0], R"X(<!DOCTYPE html>
 <html>
@@ -215,7 +215,7 @@ int main(int argc, char* argv[]) {
 </head>
 <body>
 <div id="grammar" class="p-2 pre-wrap">
-)X", xml_encode(fs::path(gn).filename()).c_str());
+)X", gn.c_str());
 		html.resize(sz);
 
 		auto gz = profiler.grammars[g];
@@ -323,7 +323,7 @@ int main(int argc, char* argv[]) {
 	}
 	std::swap(html, buf);
 
-	auto gn = strings[profiler.grammars.begin()->first];
+	auto gn = xml_encode(fs::path(strings[profiler.grammars.begin()->first]).filename());
 	html.resize(512 + gn.size() + buf.size());
 	sz = sprintf(&html[0], R"X(<!DOCTYPE html>
 <html>
@@ -338,7 +338,7 @@ int main(int argc, char* argv[]) {
 </ul>
 </body>
 </html>
-)X", xml_encode(fs::path(gn).filename()).c_str(), buf.c_str());
+)X", gn.c_str(), buf.c_str());
 	html.resize(sz);
 
 	file_save("index.html", html);
-- 
2.43.0


From 2977c4656d5d3606a27a15f3625eb20263521f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 28/55] fix: a binary window packet is not read past its end

---
 src/BinaryApplicator.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..eb95623 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -165,7 +165,15 @@ void BinaryApplicator::readWindow(void*& payload) {
 	ux_stdin->read(&buf[0], cs);
 	uint32_t pos = 0;
 
+	auto NEED = [&](size_t n) {
+		if (n > buf.size() - pos) {
+			u_fprintf(ux_stderr, "Error: Window packet of %u bytes ended too early!\n", cs);
+			CG3Quit(1);
+		}
+	};
+
 	auto READ_U16_INTO = [&](uint16_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint16_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -178,6 +186,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	};
 
 	auto READ_U32_INTO = [&](uint32_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint32_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -191,6 +200,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto READ_STR_INTO = [&](UString& dest) {
 		auto tl = READ_U16();
+		NEED(tl);
 		dest.clear();
 		dest.resize(tl);
 		int32_t olen = 0;
@@ -207,6 +217,13 @@ void BinaryApplicator::readWindow(void*& payload) {
 	}
 
 	TagVector window_tags;
+	auto GET_TAG = [&](size_t tn) {
+		if (tn >= window_tags.size()) {
+			u_fprintf(ux_stderr, "Error: Window packet has %u tags, but refers to tag %u!\n", UI32(window_tags.size()), UI32(tn));
+			CG3Quit(1);
+		}
+		return window_tags[tn];
+	};
 	auto tag_count = READ_U16();
 	window_tags.reserve(tag_count);
 	for (uint16_t i = 0; i < tag_count; ++i) {
@@ -223,13 +240,14 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto var_count = READ_U16();
 	for (uint16_t vn = 0; vn < var_count; ++vn) {
+		NEED(1);
 		char mode = buf[pos];
 		++pos;
 		auto tag1 = READ_U16();
 		auto tag2 = READ_U16();
-		auto hash1 = window_tags[tag1]->hash;
+		auto hash1 = GET_TAG(tag1)->hash;
 		if (mode == BFV_SETVAR) {
-			cSWindow->variables_set[hash1] = window_tags[tag2]->hash;
+			cSWindow->variables_set[hash1] = GET_TAG(tag2)->hash;
 			cSWindow->variables_rem.erase(hash1);
 			cSWindow->variables_output.insert(hash1);
 		}
@@ -262,7 +280,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 
 		READ_U16_INTO(tag);
-		cCohort->wordform = window_tags[tag];
+		cCohort->wordform = GET_TAG(tag);
 
 		READ_U16_INTO(tag_count);
 		if (tag_count) {
@@ -270,7 +288,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 			addTagToReading(*cCohort->wread, cCohort->wordform);
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				addTagToReading(*cCohort->wread, window_tags[tag], (tn + 1 == tag_count));
+				addTagToReading(*cCohort->wread, GET_TAG(tag), (tn + 1 == tag_count));
 			}
 		}
 
@@ -286,7 +304,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			cCohort->relations_input[GET_TAG(tag)->hash].insert(head);
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -309,17 +327,17 @@ void BinaryApplicator::readWindow(void*& payload) {
 			READ_U16_INTO(flags);
 
 			READ_U16_INTO(tag);
-			addTagToReading(*cReading, window_tags[tag]);
+			addTagToReading(*cReading, GET_TAG(tag));
 
 			READ_U16_INTO(tag_count);
 			TagList mappings;
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				if (window_tags[tag]->type & T_MAPPING) {
-					mappings.push_back(window_tags[tag]);
+				if (GET_TAG(tag)->type & T_MAPPING) {
+					mappings.push_back(GET_TAG(tag));
 				}
 				else {
-					addTagToReading(*cReading, window_tags[tag]);
+					addTagToReading(*cReading, GET_TAG(tag));
 				}
 			}
 			if (!mappings.empty()) {
-- 
2.43.0


From a4ff382b6fd7bec6b402f3c5926f642403988b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 29/55] fix: the start of an input is not searched past for the
 lead byte of its last character

---
 src/uextras.cpp | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 07fdfc5..e7da5ac 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -199,33 +199,29 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 
 	input.read(&buf8[0], BUF_SIZE - 4);
 	auto sz = static_cast<size_t>(input.gcount());
-	if (buf8[sz - 1] & 0x80) {
-		for (size_t i = sz - 1; ; --i) {
-			if ((buf8[i] & 0xF0) == 0xF0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 3 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 3 - i;
-				break;
-			}
-			else if ((buf8[i] & 0xE0) == 0xE0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 2 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 2 - i;
-				break;
-			}
-			else if ((buf8[i] & 0xC0) == 0xC0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 1 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 1 - i;
-				break;
+	// If the last character is incomplete, read the rest of it
+	for (size_t i = 0; i < 4 && i < sz; ++i) {
+		auto c = static_cast<uint8_t>(buf8[sz - 1 - i]);
+		if ((c & 0xC0) == 0x80) {
+			continue;
+		}
+		size_t n = 0;
+		if ((c & 0xF0) == 0xF0) {
+			n = 3;
+		}
+		else if ((c & 0xE0) == 0xE0) {
+			n = 2;
+		}
+		else if ((c & 0xC0) == 0xC0) {
+			n = 1;
+		}
+		if (n > i) {
+			if (!input.read(&buf8[sz], n - i)) {
+				throw std::runtime_error("Could not read expected bytes from stream");
 			}
+			sz += n - i;
 		}
+		break;
 	}
 	buf8.resize(sz);
 
-- 
2.43.0


From 19f1d31c93f5815e70e495eb795fd4428ec284b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 30/55] fix: a message or text with half a surrogate pair is
 still written

---
 src/uextras.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index e7da5ac..b6f62a0 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -279,12 +279,16 @@ inline int32_t _u_fprintf(std::ostream& output, const Char* fmt, va_list args) {
 	auto n8 = SI32(size(_buf8));
 	int32_t u8 = 0;
 	UErrorCode err = U_ZERO_ERROR;
-	u_strToUTF8(buf8, n8, &u8, buf16, n16, &err);
+	// Half a surrogate pair must not lose the rest of the text
+	u_strToUTF8WithSub(buf8, n8, &u8, buf16, n16, 0xFFFD, nullptr, &err);
 	if (u8 > n8) {
 		_str8.resize(u8 + 1);
 		buf8 = &_str8[0];
 		err = U_ZERO_ERROR;
-		u_strToUTF8(buf8, u8, 0, buf16, n16, &err);
+		u_strToUTF8WithSub(buf8, u8, nullptr, buf16, n16, 0xFFFD, nullptr, &err);
+	}
+	if (U_FAILURE(err)) {
+		throw std::runtime_error("Failed to convert from UTF-16 to UTF-8");
 	}
 
 	output.write(buf8, u8);
-- 
2.43.0


From e9d32d8a38e68f8cf0a1a188fdc165ad018c0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 31/55] fix: setOptions() gives ICU a status that is set

---
 src/GrammarApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 73c3c64..99e0e5d 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -900,7 +900,7 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 	bool needs_del = false;
 	if (!conv) {
 		needs_del = true;
-		UErrorCode status;
+		UErrorCode status = U_ZERO_ERROR;
 		conv = ucnv_open(ucnv_getDefaultName(), &status);
 	}
 
-- 
2.43.0


From 3bb8e21d51cb550950cd3f57fdc92e08bc8b3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 32/55] fix: a grammar file that is not valid UTF-8 is reported
 as such

---
 src/TextualParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 111727e..f60d976 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2689,6 +2689,10 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 					CG3Quit(1);
 				}
+				if (err != U_ZERO_ERROR) {
+					u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 caused error %s!\n", filebase, u_errorName(err));
+					CG3Quit(1);
+				}
 				data.resize(size + 4 + 1);
 
 				uint32_t olines = 0;
@@ -2894,6 +2898,10 @@ int TextualParser::parse_grammar(const char* fname) {
 		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 		CG3Quit(1);
 	}
+	if (err != U_ZERO_ERROR) {
+		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 caused error %s!\n", filebase, u_errorName(err));
+		CG3Quit(1);
+	}
 	data.resize(size + 4 + 1);
 
 	return parse_grammar(data);
-- 
2.43.0


From 0f44cd86b02277f69473348b7efbf5c7c069ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 33/55] fix: text of binary streams and external processes that
 is not valid UTF-8 is an error

---
 src/BinaryApplicator.cpp | 4 ++++
 src/inlines.hpp          | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index eb95623..bba3a6f 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -206,6 +206,10 @@ void BinaryApplicator::readWindow(void*& payload) {
 		int32_t olen = 0;
 		UErrorCode status = U_ZERO_ERROR;
 		u_strFromUTF8(&(dest)[0], tl, &olen, &buf[pos], tl, &status);
+		if (U_FAILURE(status)) {
+			u_fprintf(ux_stderr, "Error: Window packet has text that is not valid UTF-8: %s\n", u_errorName(status));
+			CG3Quit(1);
+		}
 		dest.resize(olen);
 		pos += tl;
 	};
diff --git a/src/inlines.hpp b/src/inlines.hpp
index a693e90..3fb7ffd 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -602,6 +602,9 @@ inline UString readUTF8_Raw(S& input) {
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
 	u_strFromUTF8(&rv[0], len, &olen, &buffer[0], len, &status);
+	if (U_FAILURE(status)) {
+		throw std::runtime_error("Failed to convert from UTF-8 to UTF-16");
+	}
 
 	rv.resize(olen);
 
@@ -621,6 +624,9 @@ inline void readUTF8_LE(S& input, Str& rv) {
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
 	u_strFromUTF8(&rv[0], len, &olen, &buffer[0], len, &status);
+	if (U_FAILURE(status)) {
+		throw std::runtime_error("Failed to convert from UTF-8 to UTF-16");
+	}
 
 	rv.resize(olen);
 }
-- 
2.43.0


From 3e0cae275006790181ebf49ea664c2430afb4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 34/55] fix: binary and JSON output keep the text around half a
 surrogate pair

---
 src/BinaryApplicator.cpp | 2 +-
 src/JsonlApplicator.cpp  | 4 ++--
 src/inlines.hpp          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index bba3a6f..2020c0a 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -428,7 +428,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		std::string tmp(s.size() * 4, 0);
 		int32_t olen = 0;
 		UErrorCode status = U_ZERO_ERROR;
-		u_strToUTF8(&tmp[0], SI32(s.size() * 4 - 1), &olen, s.data(), SI32(s.size()), &status);
+		u_strToUTF8WithSub(&tmp[0], SI32(s.size() * 4), &olen, s.data(), SI32(s.size()), 0xFFFD, nullptr, &status);
 		tmp.resize(olen);
 		WRITE_U16_INTO(UI16(olen), buffer);
 		buffer += tmp;
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 2260257..53b1413 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -40,12 +40,12 @@ std::string ustring_to_utf8(UStringView ustr) {
 	std::string utf8_str;
 	UErrorCode status = U_ZERO_ERROR;
 	int32_t required_length = 0;
-	u_strToUTF8(nullptr, 0, &required_length, ustr.data(), SI32(ustr.size()), &status);
+	u_strToUTF8WithSub(nullptr, 0, &required_length, ustr.data(), SI32(ustr.size()), 0xFFFD, nullptr, &status);
 
 	utf8_str.resize(required_length);
 	status = U_ZERO_ERROR;
 
-	u_strToUTF8(&utf8_str[0], required_length, nullptr, ustr.data(), SI32(ustr.size()), &status);
+	u_strToUTF8WithSub(&utf8_str[0], required_length, nullptr, ustr.data(), SI32(ustr.size()), 0xFFFD, nullptr, &status);
 
 	return utf8_str;
 }
diff --git a/src/inlines.hpp b/src/inlines.hpp
index 3fb7ffd..4858890 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -556,7 +556,7 @@ inline void writeUTF8_Raw(std::ostream& output, const UChar* str, size_t len = 0
 	std::vector<char> buffer(len * 4);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8WithSub(&buffer[0], SI32(len * 4), &olen, str, SI32(len), 0xFFFD, nullptr, &status);
 
 	auto cs = UI16(olen);
 	writeRaw(output, cs);
@@ -575,7 +575,7 @@ inline void writeUTF8_LE(std::ostream& output, const UChar* str, size_t len = 0)
 	std::vector<char> buffer(len * 4);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8WithSub(&buffer[0], SI32(len * 4), &olen, str, SI32(len), 0xFFFD, nullptr, &status);
 
 	auto cs = UI16(olen);
 	writeLE(output, cs);
-- 
2.43.0


From 69edb294cb541c7ffb7a2af19367e78f5e754d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 35/55] fix: a tolerated failure to initialise ICU does not
 disable what comes after it

---
 src/cg-conv.cpp     | 1 +
 src/cg-mwesplit.cpp | 1 +
 src/cg-proc.cpp     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/cg-conv.cpp b/src/cg-conv.cpp
index 7c9f593..bf1b3e3 100644
--- a/src/cg-conv.cpp
+++ b/src/cg-conv.cpp
@@ -112,6 +112,7 @@ int main(int argc, char* argv[]) {
 
 	ucnv_setDefaultName("UTF-8");
 	const char* codepage_default = ucnv_getDefaultName();
+	status = U_ZERO_ERROR;
 	uloc_setDefault("en_US_POSIX", &status);
 
 	FormatConverter applicator(std::cerr);
diff --git a/src/cg-mwesplit.cpp b/src/cg-mwesplit.cpp
index 4ac8dc3..55d9406 100644
--- a/src/cg-mwesplit.cpp
+++ b/src/cg-mwesplit.cpp
@@ -92,6 +92,7 @@ int main(int argc, char** argv) {
 	}
 
 	ucnv_setDefaultName("UTF-8");
+	status = U_ZERO_ERROR;
 	uloc_setDefault("en_US_POSIX", &status);
 
 	MweSplitApplicator applicator(std::cerr);
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index dcf0908..75062a0 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -193,6 +193,7 @@ int main(int argc, char* argv[]) {
 	}
 
 	ucnv_setDefaultName("UTF-8");
+	status = U_ZERO_ERROR;
 	uloc_setDefault("en_US_POSIX", &status);
 
 	parse_opts_env("CG3_DEFAULT", options_default);
-- 
2.43.0


From 2cceeeac7bd736871286441ba451b55989ea2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 36/55] fix: a binary grammar with a mapping prefix that does
 not fit is rejected

---
 src/BinaryGrammar_read.cpp       | 4 ++++
 src/BinaryGrammar_read_10043.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index ec989eb..3e596d1 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -95,6 +95,10 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		u32tmp = readBE<uint32_t>(input);
 		readBytes(input, u32tmp);
 		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
+		if (U_FAILURE(err)) {
+			u_fprintf(ux_stderr, "Error: Mapping prefix of the grammar is not a single character - cannot load!\n");
+			CG3Quit(1);
+		}
 	}
 
 	if (bin_revision >= BIN_REV_CMDARGS) {
diff --git a/src/BinaryGrammar_read_10043.cpp b/src/BinaryGrammar_read_10043.cpp
index 77b6e70..0f6a5b5 100644
--- a/src/BinaryGrammar_read_10043.cpp
+++ b/src/BinaryGrammar_read_10043.cpp
@@ -70,6 +70,10 @@ int BinaryGrammar::readBinaryGrammar_10043(std::istream& input) {
 		u32tmp = readBE<uint32_t>(input);
 		readBytes(input, u32tmp);
 		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
+		if (U_FAILURE(err)) {
+			u_fprintf(ux_stderr, "Error: Mapping prefix of the grammar is not a single character - cannot load!\n");
+			CG3Quit(1);
+		}
 	}
 
 	// Keep track of which sets that the varstring tags used; we can't just assign them as sets are not loaded yet
-- 
2.43.0


From 50cf7c181d71ad5759a55cb06d2e75fe309f0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 37/55] fix: text that does not fit or convert for a file name,
 argument or command is an error

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 src/TextualParser.cpp              | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9580bab..82571c3 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1496,6 +1496,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					Tag* ext = grammar->single_tags.find(rule->varname)->second;
 					UErrorCode err = U_ZERO_ERROR;
 					u_strToUTF8(&cbuffers[0][0], SI32(CG3_BUFFER_SIZE - 1), nullptr, ext->tag.data(), SI32(ext->tag.size()), &err);
+					if (U_FAILURE(err)) {
+						u_fprintf(ux_stderr, "Error: External command on line %u cannot be converted to UTF-8: %s\n", rule->line, u_errorName(err));
+						CG3Quit(1);
+					}
 
 					Process& es = externals[rule->varname];
 					try {
diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index f60d976..bac1c1d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2109,6 +2109,9 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				int32_t outz = 0;
 				UErrorCode status = U_ZERO_ERROR;
 				u_strToUTF8(&args[0], SI32(args.size()), &outz, s, SI32(p - s), &status);
+				if (U_FAILURE(status)) {
+					error("%s: Error: Converting command line arguments to UTF-8 caused error %s on line %u near `%S`!\n", u_errorName(status), s);
+				}
 				args.resize(outz);
 
 				if (icn == 16) {
@@ -2626,6 +2629,9 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 
 				UErrorCode err = U_ZERO_ERROR;
 				u_strToUTF8(&cbuffers[0][0], CG3_BUFFER_SIZE - 1, 0, &gbuffers[0][0], u_strlen(&gbuffers[0][0]), &err);
+				if (U_FAILURE(err)) {
+					error("%s: Error: Converting filename to UTF-8 caused error %s on line %u near `%S`!\n", u_errorName(err), p);
+				}
 
 				std::string abspath = &cbuffers[0][0];
 
-- 
2.43.0


From e9bb59a6b3b5613d51ed8e479e0f98ef6ce62788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 38/55] fix: REMPARENT and SWITCHPARENT leave the old parents
 their children

---
 src/GrammarApplicator.hpp          | 1 +
 src/GrammarApplicator_reflow.cpp   | 8 ++++++++
 src/GrammarApplicator_runRules.cpp | 8 ++++----
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index d84b460..6ba365e 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -358,6 +358,7 @@ protected:
 	bool isChildOf(const Cohort* child, const Cohort* parent);
 	bool wouldParentChildLoop(const Cohort* parent, const Cohort* child);
 	bool wouldParentChildCross(const Cohort* parent, const Cohort* child);
+	void detachParent(Cohort& child);
 	bool attachParentChild(Cohort& parent, Cohort& child, bool allowloop = false, bool allowcrossing = false);
 
 	void reflowTextuals_Reading(Reading& r);
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 85f87e5..ce04272 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -147,6 +147,14 @@ bool GrammarApplicator::wouldParentChildCross(const Cohort* parent, const Cohort
 	return false;
 }
 
+void GrammarApplicator::detachParent(Cohort& child) {
+	auto it = gWindow->cohort_map.find(child.dep_parent);
+	if (it != gWindow->cohort_map.end()) {
+		it->second->remChild(child.dep_self);
+	}
+	child.dep_parent = DEP_NO_PARENT;
+}
+
 bool GrammarApplicator::attachParentChild(Cohort& parent, Cohort& child, bool allowloop, bool allowcrossing) {
 	parent.dep_self = parent.global_number;
 	child.dep_self = child.global_number;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 82571c3..3067fca 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2704,7 +2704,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 				index_ruleCohort_no.clear();
 				TRACE;
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detachParent(*get_apply_to().cohort);
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2730,10 +2730,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detachParent(*child);
+				detachParent(*parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detachParent(*s);
 				}
 
 				// reattach
-- 
2.43.0


From 46e4b62b22f569f33943eb569e4485fc1292d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 39/55] fix: a parent set by an external program does not get
 its child

---
 src/GrammarApplicator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 99e0e5d..71a8edc 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -788,7 +788,16 @@ void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
 	}
 
 	if (flags & (1 << 1)) {
-		readRaw(input, cohort->dep_parent);
+		uint32_t dep_parent = 0;
+		readRaw(input, dep_parent);
+		if (dep_parent != cohort->dep_parent) {
+			detachParent(*cohort);
+			cohort->dep_parent = dep_parent;
+			auto it = gWindow->cohort_map.find(dep_parent);
+			if (it != gWindow->cohort_map.end()) {
+				it->second->addChild(cohort->global_number);
+			}
+		}
 		if (debug_level > 1) {
 			u_fprintf(ux_stderr, "DEBUG: cohort parent %u\n", cohort->dep_parent);
 		}
-- 
2.43.0


From 2aa6348f7807f849cae5b2d858a0ef03c9146f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 40/55] fix: text and counts that do not fit 16 bits are an
 error, not a broken stream

---
 src/BinaryApplicator.cpp | 39 ++++++++++++++++++++++++---------------
 src/inlines.hpp          |  8 ++++++++
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 2020c0a..5051b71 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -407,6 +407,15 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		buffer += chr[1];
 	};
 
+	// Everything that is counted must fit in 16 bits, otherwise what follows it cannot be read back
+	auto FIT_U16 = [&](size_t n) {
+		if (n > std::numeric_limits<uint16_t>::max()) {
+			u_fprintf(ux_stderr, "Error: Window %u has text or counts of %u, but a binary window packet can hold at most %u!\n", window->number, UI32(n), UI32(std::numeric_limits<uint16_t>::max()));
+			CG3Quit(1);
+		}
+		return UI16(n);
+	};
+
 	auto WRITE_U32_INTO = [&](uint32_t n, std::string& buffer) {
 		be::native_to_little_inplace(n);
 		auto chr = reinterpret_cast<char*>(&n);
@@ -418,7 +427,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 
 	auto WRITE_TAG_INTO = [&](Tag* tag, std::string& buffer) {
 		if (tag_index.find(tag) == tag_index.end()) {
-			tag_index[tag] = UI16(tags_to_write.size());
+			tag_index[tag] = FIT_U16(tags_to_write.size());
 			tags_to_write.push_back(tag);
 		}
 		WRITE_U16_INTO(tag_index[tag], buffer);
@@ -430,11 +439,11 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		UErrorCode status = U_ZERO_ERROR;
 		u_strToUTF8WithSub(&tmp[0], SI32(s.size() * 4), &olen, s.data(), SI32(s.size()), 0xFFFD, nullptr, &status);
 		tmp.resize(olen);
-		WRITE_U16_INTO(UI16(olen), buffer);
+		WRITE_U16_INTO(FIT_U16(olen), buffer);
 		buffer += tmp;
 	};
 
-	uint16_t var_count = 0;
+	size_t var_count = 0;
 	std::string var_buffer;
 	for (auto var : window->variables_output) {
 		++var_count;
@@ -478,7 +487,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 	}
 
 	std::string cohort_buffer;
-	uint16_t cohort_count = 0;
+	size_t cohort_count = 0;
 	for (auto& cohort : window->all_cohorts) {
 		if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
 			continue;
@@ -495,7 +504,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		WRITE_TAG_INTO(cohort->wordform, cohort_buffer);
 		if (cohort->wread) {
 			std::string tag_buffer;
-			uint16_t tag_count = 0;
+			size_t tag_count = 0;
 			for (auto tter : cohort->wread->tags_list) {
 				if (tter == cohort->wordform->hash) {
 					continue;
@@ -503,7 +512,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 				WRITE_TAG_INTO(grammar->single_tags[tter], tag_buffer);
 				++tag_count;
 			}
-			WRITE_U16_INTO(tag_count, cohort_buffer);
+			WRITE_U16_INTO(FIT_U16(tag_count), cohort_buffer);
 			cohort_buffer += tag_buffer;
 		}
 		else {
@@ -530,7 +539,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		}
 
 		std::string rel_buffer;
-		uint16_t rel_count = 0;
+		size_t rel_count = 0;
 		for (const auto& miter : cohort->relations) {
 			auto it = grammar->single_tags.find(miter.first);
 			if (it == grammar->single_tags.end()) {
@@ -542,14 +551,14 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 				WRITE_U32_INTO(siter, rel_buffer);
 			}
 		}
-		WRITE_U16_INTO(rel_count, cohort_buffer);
+		WRITE_U16_INTO(FIT_U16(rel_count), cohort_buffer);
 		cohort_buffer += rel_buffer;
 
 		WRITE_STR_INTO(cohort->text, cohort_buffer);
 		WRITE_STR_INTO(cohort->wblank, cohort_buffer);
 
 		std::string reading_buffer;
-		uint16_t reading_count = 0;
+		size_t reading_count = 0;
 		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
 		for (auto top_reading : cohort->readings) {
 			if (top_reading->noprint) {
@@ -565,7 +574,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 				WRITE_U16_INTO(flags, reading_buffer);
 				WRITE_TAG_INTO(grammar->single_tags[reading->baseform], reading_buffer);
 				std::string tag_buffer;
-				uint16_t tag_count = 0;
+				size_t tag_count = 0;
 				uint32SortedVector unique;
 				for (auto& tter : reading->tags_list) {
 					auto tag = grammar->single_tags[tter];
@@ -584,12 +593,12 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					WRITE_TAG_INTO(tag, tag_buffer);
 					++tag_count;
 				}
-				WRITE_U16_INTO(tag_count, reading_buffer);
+				WRITE_U16_INTO(FIT_U16(tag_count), reading_buffer);
 				reading_buffer += tag_buffer;
 				reading = reading->next;
 			}
 		}
-		WRITE_U16_INTO(reading_count, cohort_buffer);
+		WRITE_U16_INTO(FIT_U16(reading_count), cohort_buffer);
 		cohort_buffer += reading_buffer;
 	}
 
@@ -601,18 +610,18 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 	}
 	WRITE_U16_INTO(flags, header_buffer);
 
-	WRITE_U16_INTO(UI16(tags_to_write.size()), header_buffer);
+	WRITE_U16_INTO(FIT_U16(tags_to_write.size()), header_buffer);
 	for (auto& tag : tags_to_write) {
 		WRITE_STR_INTO(tag->tag, header_buffer);
 	}
 
-	WRITE_U16_INTO(var_count, header_buffer);
+	WRITE_U16_INTO(FIT_U16(var_count), header_buffer);
 	header_buffer += var_buffer;
 
 	WRITE_STR_INTO(window->text, header_buffer);
 	WRITE_STR_INTO(window->text_post, header_buffer);
 
-	WRITE_U16_INTO(cohort_count, header_buffer);
+	WRITE_U16_INTO(FIT_U16(cohort_count), header_buffer);
 
 	auto total_size = UI32(header_buffer.size() + cohort_buffer.size());
 	writeLE(output, total_size);
diff --git a/src/inlines.hpp b/src/inlines.hpp
index 4858890..993fded 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -558,6 +558,10 @@ inline void writeUTF8_Raw(std::ostream& output, const UChar* str, size_t len = 0
 	UErrorCode status = U_ZERO_ERROR;
 	u_strToUTF8WithSub(&buffer[0], SI32(len * 4), &olen, str, SI32(len), 0xFFFD, nullptr, &status);
 
+	if (olen > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("Text is too long to be written with a 16 bit length");
+	}
+
 	auto cs = UI16(olen);
 	writeRaw(output, cs);
 	output.write(&buffer[0], cs);
@@ -577,6 +581,10 @@ inline void writeUTF8_LE(std::ostream& output, const UChar* str, size_t len = 0)
 	UErrorCode status = U_ZERO_ERROR;
 	u_strToUTF8WithSub(&buffer[0], SI32(len * 4), &olen, str, SI32(len), 0xFFFD, nullptr, &status);
 
+	if (olen > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("Text is too long to be written with a 16 bit length");
+	}
+
 	auto cs = UI16(olen);
 	writeLE(output, cs);
 	output.write(&buffer[0], cs);
-- 
2.43.0


From 631bcebf3e45d11a5c9f4bf4b5248fddd31e8a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 41/55] fix: replies of external programs with other numbers of
 words or readings, or a new baseform, are not taken on trust

---
 src/GrammarApplicator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 71a8edc..564c0c6 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -730,7 +730,7 @@ void GrammarApplicator::pipeInReading(Reading* reading, Process& input, bool for
 
 	if (flags & (1 << 3)) {
 		UString str = readUTF8_Raw(ss);
-		if (str != grammar->single_tags.find(reading->baseform)->second->tag) {
+		if (!reading->baseform || str != grammar->single_tags.find(reading->baseform)->second->tag) {
 			Tag* tag = addTag(str);
 			reading->baseform = tag->hash;
 		}
@@ -818,6 +818,10 @@ void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
 	if (debug_level > 1) {
 		u_fprintf(ux_stderr, "DEBUG: num readings %u\n", cs);
 	}
+	if (cs != cohort->readings.size()) {
+		u_fprintf(ux_stderr, "Error: External returned %u readings for cohort %u but we expected %u!\n", cs, cohort->global_number, UI32(cohort->readings.size()));
+		CG3Quit(1);
+	}
 	for (size_t i = 0; i < cs; ++i) {
 		pipeInReading(cohort->readings[i], input, force_readings);
 	}
@@ -851,6 +855,10 @@ void GrammarApplicator::pipeInSingleWindow(SingleWindow& window, Process& input)
 	}
 
 	readRaw(input, cs);
+	if (cs + 1 != window.cohorts.size()) {
+		u_fprintf(ux_stderr, "Error: External returned %u cohorts for window %u but we expected %u!\n", cs, window.number, UI32(window.cohorts.size() - 1));
+		CG3Quit(1);
+	}
 	for (size_t i = 0; i < cs; ++i) {
 		pipeInCohort(window.cohorts[i + 1], input);
 	}
-- 
2.43.0


From 4aecbcc86f477e4408657c26b7c580896aa098ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 42/55] fix: Matxin output showed the words of earlier
 sentences again in each later one

---
 src/MatxinApplicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index bbd338b..7bf236c 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -689,6 +689,9 @@ void MatxinApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 	}
 //*/
 
+	nodes.clear();
+	deps.clear();
+
 	u_fprintf(output, "  <SENTENCE ord=\"%d\" alloc=\"0\">\n", window->number);
 
 	for (auto& cohort : window->all_cohorts) {
-- 
2.43.0


From fb7057c58d67df630e6ee68aaedb9f2dd4c5d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 43/55] fix: showing windows for --profile and --debug-rules
 changed the readings a rule was working on, and the output

---
 src/ApertiumApplicator.cpp | 30 ++++++++++++++++++++++++------
 src/BinaryApplicator.cpp   | 16 +++++++++-------
 src/GrammarApplicator.cpp  | 12 +++++++++---
 src/JsonlApplicator.cpp    |  8 ++++++--
 4 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index a8a7664..9254eab 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -897,7 +897,9 @@ void ApertiumApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 	bool need_slash = print_word_forms;
 
 	//Tag::printTagRaw(output, grammar->single_tags[cohort->wordform]);
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	if (!profiling) {
+		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	}
 	for (auto reading : cohort->readings) {
 		if (reading->noprint) {
 			continue;
@@ -906,17 +908,23 @@ void ApertiumApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 			u_fprintf(output, "/");
 		}
 		need_slash = true;
-		if (grammar->sub_readings_ltr && reading->next) {
+		const bool reversed = (grammar->sub_readings_ltr && reading->next);
+		if (reversed) {
 			reading = reverse(reading);
 		}
 		printReading(reading, output);
+		if (reversed) {
+			reverse(reading);
+		}
 		if (print_only_first == true) {
 			break;
 		}
 	}
 
 	if (trace) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
+		if (!profiling) {
+			std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
+		}
 		for (auto reading : cohort->delayed) {
 			if (reading->noprint) {
 				continue;
@@ -925,12 +933,18 @@ void ApertiumApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 				u_fprintf(output, "/%C", not_sign);
 			}
 			need_slash = true;
-			if (grammar->sub_readings_ltr && reading->next) {
+			const bool reversed = (grammar->sub_readings_ltr && reading->next);
+			if (reversed) {
 				reading = reverse(reading);
 			}
 			printReading(reading, output);
+			if (reversed) {
+				reverse(reading);
+			}
+		}
+		if (!profiling) {
+			std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
 		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
 		for (auto reading : cohort->deleted) {
 			if (reading->noprint) {
 				continue;
@@ -939,10 +953,14 @@ void ApertiumApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 				u_fprintf(output, "/%C", not_sign);
 			}
 			need_slash = true;
-			if (grammar->sub_readings_ltr && reading->next) {
+			const bool reversed = (grammar->sub_readings_ltr && reading->next);
+			if (reversed) {
 				reading = reverse(reading);
 			}
 			printReading(reading, output);
+			if (reversed) {
+				reverse(reading);
+			}
 		}
 	}
 
diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 5051b71..e4a0cad 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -387,9 +387,7 @@ void BinaryApplicator::readText(void*& payload) {
 }
 
 void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& output, bool profiling) {
-	(void)profiling;
-
-	if (!header_done) {
+	if (!profiling && !header_done) {
 		output.write("CGBF", 4);
 		writeLE(output, CG3_BINARY_STREAM);
 		header_done = true;
@@ -469,7 +467,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 	}
 
 	// Move text belonging to removed cohorts to prior not-removed cohorts, or the containing window
-	for (size_t i = 0; i < window->all_cohorts.size(); ++i) {
+	for (size_t i = 0; !profiling && i < window->all_cohorts.size(); ++i) {
 		auto cohort = window->all_cohorts[i];
 		if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
 			if (!cohort->text.empty()) {
@@ -492,7 +490,9 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
 			continue;
 		}
-		cohort->unignoreAll();
+		if (!profiling) {
+			cohort->unignoreAll();
+		}
 		++cohort_count;
 
 		uint16_t flags = 0;
@@ -559,7 +559,9 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 
 		std::string reading_buffer;
 		size_t reading_count = 0;
-		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+		if (!profiling) {
+			std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+		}
 		for (auto top_reading : cohort->readings) {
 			if (top_reading->noprint) {
 				continue;
@@ -628,7 +630,7 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 	output.write(header_buffer.data(), header_buffer.size());
 	output.write(cohort_buffer.data(), cohort_buffer.size());
 
-	if (window->flush_after) {
+	if (!profiling && window->flush_after) {
 		printStreamCommand(STR_CMD_FLUSH, output);
 	}
 
diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 564c0c6..5cadc9e 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -531,16 +531,22 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	if (!profiling) {
+		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	}
 	for (auto rter1 : cohort->readings) {
 		printReading(rter1, output);
 	}
 	if (trace && !trace_no_removed) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
+		if (!profiling) {
+			std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
+		}
 		for (auto rter3 : cohort->delayed) {
 			printReading(rter3, output);
 		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
+		if (!profiling) {
+			std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
+		}
 		for (auto rter2 : cohort->deleted) {
 			printReading(rter2, output);
 		}
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 53b1413..061d736 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -693,7 +693,9 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	if (!profiling) {
+		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+	}
 
 	json::Value readings_json(json::kArrayType);
 	for (auto& reading : cohort->readings) {
@@ -719,7 +721,9 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 
 	if (!cohort->deleted.empty()) {
 		json::Value deleted_readings_json(json::kArrayType);
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
+		if (!profiling) {
+			std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
+		}
 		for (const auto& reading : cohort->deleted) {
 			// TODO Assuming deleted readings should always be included if present, regardless of noprint flag?
 			json::Value reading_json(json::kObjectType);
-- 
2.43.0


From 697fda3f21e15959a7947f6a0ba2f3a925d82882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 44/55] fix: keep the order of tests whose unification or
 varstrings are inside OR'ed tests

---
 src/Grammar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..fe85082 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -1020,6 +1020,10 @@ void Grammar::reindex(bool unused_sets, bool used_tags) {
 				did |= nk.insert(t).second;
 				continue;
 			}
+			if (std::any_of(t->ors.begin(), t->ors.end(), [&](ContextualTest* o) { return nk.count(o) != 0; })) {
+				did |= nk.insert(t).second;
+				continue;
+			}
 			if (t->target && (sets_list[t->target]->type & MASK_ST_UNIFY)) {
 				//u_fprintf(ux_stderr, "added target %u\n", t->line);
 				did |= nk.insert(t).second;
-- 
2.43.0


From db2583b02abc3be3c8a5c21e01a33561d6c4fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 45/55] fix: entries of a set that share first tags are listed
 with tags of other entries

---
 src/TagTrie.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..764162a 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -176,14 +176,16 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(sorted);
 			tv.pop_back();
 			continue;
 		}
 		if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -216,6 +218,7 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
-- 
2.43.0


From b3d7ecee82fa9ac7fd124021cf3c457efc482bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 46/55] fix: relabelling with a set of multi-tag entries wrote
 tags of the relabelling grammar by number

---
 src/Relabeller.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Relabeller.hpp b/src/Relabeller.hpp
index 256ad69..291d002 100644
--- a/src/Relabeller.hpp
+++ b/src/Relabeller.hpp
@@ -62,7 +62,7 @@ inline trie_t* _trie_copy_helper(const trie_t& trie, Grammar& grammar) {
 		t = grammar.addTag(t); // new is deleted if it exists
 		(*nt)[t].terminal = p.second.terminal;
 		if (p.second.trie) {
-			(*nt)[t].trie = _trie_copy_helper(*p.second.trie);
+			(*nt)[t].trie.reset(_trie_copy_helper(*p.second.trie, grammar));
 		}
 	}
 	return nt;
@@ -75,7 +75,7 @@ inline trie_t trie_copy(const trie_t& trie, Grammar& grammar) {
 		t = grammar.addTag(t); // new is deleted if it exists
 		nt[t].terminal = p.second.terminal;
 		if (p.second.trie) {
-			nt[t].trie = _trie_copy_helper(*p.second.trie);
+			nt[t].trie.reset(_trie_copy_helper(*p.second.trie, grammar));
 		}
 	}
 	return nt;
-- 
2.43.0


From 7d36443f75996951b9f810a385fe68593de26ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 47/55] fix: tests with the numeric branch are also replaced in
 OR'ed tests and templates

---
 src/TextualParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index bac1c1d..201e51d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3155,9 +3155,21 @@ int TextualParser::parse_grammar(UString& data) {
 			}
 
 			for (auto& cntx : result->contexts) {
+				if (cntx.second == orc) {
+					continue;
+				}
 				if (cntx.second->linked == tmp) {
 					cntx.second->linked = orc;
 				}
+				if (cntx.second->tmpl == tmp) {
+					cntx.second->tmpl = orc;
+				}
+				std::replace(cntx.second->ors.begin(), cntx.second->ors.end(), tmp, orc);
+			}
+			for (auto& tmpl : result->templates) {
+				if (tmpl.second == tmp) {
+					tmpl.second = orc;
+				}
 			}
 			for (auto it : result->rule_by_number) {
 				if (it->dep_target == tmp) {
-- 
2.43.0


From a78bac8ed6ce00009cc041f663f743c742191019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 48/55] fix: an undefined set in a varstring is a counted error
 and no uncaught exception

---
 src/TextualParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 201e51d..59d4cf1 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3096,7 +3096,15 @@ int TextualParser::parse_grammar(UString& data) {
 					tag->allocateVsNames();
 					++p;
 					UString theSet(p, n);
-					Set* tmp = parseSet(theSet.data(), p);
+					Set* tmp = nullptr;
+					try {
+						tmp = parseSet(theSet.data(), p);
+					}
+					catch (int) {
+						p = n;
+						++p;
+						continue;
+					}
 					tag->vs_sets->push_back(tmp);
 					UString old;
 					old += '{';
-- 
2.43.0


From 4f5b655cac939ff84bdbd31584744f42b591d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 49/55] fix: a grammar that could not be written is a failure

---
 src/cg-comp.cpp    | 1 +
 src/cg-relabel.cpp | 1 +
 src/main.cpp       | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/cg-comp.cpp b/src/cg-comp.cpp
index 260c3c2..122ee0c 100644
--- a/src/cg-comp.cpp
+++ b/src/cg-comp.cpp
@@ -113,6 +113,7 @@ int main(int argc, char* argv[]) {
 	}
 	else {
 		std::cerr << "Could not write grammar to " << argv[2] << std::endl;
+		CG3Quit(1);
 	}
 
 	u_cleanup();
diff --git a/src/cg-relabel.cpp b/src/cg-relabel.cpp
index 139677a..e27f3ea 100644
--- a/src/cg-relabel.cpp
+++ b/src/cg-relabel.cpp
@@ -115,6 +115,7 @@ int main(int argc, char* argv[]) {
 	}
 	else {
 		std::cerr << "Could not write grammar to " << argv[3] << std::endl;
+		CG3Quit(1);
 	}
 
 	u_cleanup();
diff --git a/src/main.cpp b/src/main.cpp
index 669ef61..1d33db7 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -435,6 +435,7 @@ int main(int argc, char* argv[]) {
 		}
 		else {
 			std::cerr << "Could not write grammar to " << options[GRAMMAR_OUT].value << std::endl;
+			CG3Quit(1);
 		}
 	}
 
@@ -451,6 +452,7 @@ int main(int argc, char* argv[]) {
 		}
 		else {
 			std::cerr << "Could not write grammar to " << options[GRAMMAR_BIN].value << std::endl;
+			CG3Quit(1);
 		}
 	}
 
-- 
2.43.0


From 57b0cc9204d99ea0372cf1f20b265e707068cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:42 +0000
Subject: [PATCH 50/55] fix: cg-relabel crashed on a grammar that could not be
 loaded

---
 src/cg-relabel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cg-relabel.cpp b/src/cg-relabel.cpp
index e27f3ea..a29e9c8 100644
--- a/src/cg-relabel.cpp
+++ b/src/cg-relabel.cpp
@@ -104,6 +104,9 @@ int main(int argc, char* argv[]) {
 
 	std::unique_ptr<Grammar> grammar{ cg3_grammar_load(argv[1], std::cout, std::cerr, true) };
 	std::unique_ptr<Grammar> relabel_grammar{ cg3_grammar_load(argv[2], std::cout, std::cerr) };
+	if (!grammar || !relabel_grammar) {
+		CG3Quit(1);
+	}
 
 	Relabeller relabeller(*grammar, *relabel_grammar, std::cerr);
 	relabeller.relabel();
-- 
2.43.0


From 950e149a6c0629a87b031895e782a7c5734c836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 51/55] fix: JSONL input: do not run the rules on the last
 window a second time

At the end of input the current window has always been run already, so running
it again added words and tags twice (e.g. ADDCOHORT in the last window).
---
 src/JsonlApplicator.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 061d736..9ebe3db 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -510,9 +510,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
 
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
-- 
2.43.0


From 984c87551a77ebbac309ef9d5e83b3e66bc05aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 52/55] fix: FST input: forget the cohort once a soft or hard
 delimiter has closed its window

The next test dereferenced the window pointer that had just been reset.
---
 src/FSTApplicator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index e352b38..b6d245d 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -322,6 +322,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				lSWindow = cSWindow;
 				lCohort = cCohort;
 				cSWindow = nullptr;
+				cCohort = nullptr;
 				did_soft_lookback = false;
 			}
 			if (cCohort && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
@@ -337,6 +338,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				lSWindow = cSWindow;
 				lCohort = cCohort;
 				cSWindow = nullptr;
+				cCohort = nullptr;
 				did_soft_lookback = false;
 			}
 			if (!cSWindow) {
-- 
2.43.0


From 4657d50cb896e2a01389874c299b4a3471b5a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 53/55] fix: FLUSH without a pending cohort must also forget
 the windows it frees

After a text delimiter, or at the start of binary output, the window pointers
survived the flush: following text was lost and following cohorts crashed.
---
 src/GrammarApplicator_runGrammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..c0c04e4 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -492,10 +492,10 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-						cReading = lReading = nullptr;
-						cCohort = lCohort = nullptr;
-						cSWindow = lSWindow = nullptr;
 					}
+					cReading = lReading = nullptr;
+					cCohort = lCohort = nullptr;
+					cSWindow = lSWindow = nullptr;
 					while (!gWindow->next.empty()) {
 						gWindow->shuffleWindowsDown();
 						runGrammarOnWindow();
-- 
2.43.0


From 9a873697212f7dec11ff7e24a0c712d02652ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 54/55] fix: --num-windows 0 ran the rules on a window before
 its cohorts were read

The CG format reader already asks for one window more, because the last one is
still being filled; the other readers did not.
---
 src/FSTApplicator.cpp       | 2 +-
 src/JsonlApplicator.cpp     | 2 +-
 src/MatxinApplicator.cpp    | 2 +-
 src/NicelineApplicator.cpp  | 2 +-
 src/PlaintextApplicator.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index b6d245d..34aced3 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -356,7 +356,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 9ebe3db..57c4d0b 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -484,7 +484,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
+			if (did_delim || gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index 7bf236c..3f739a8 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -224,7 +224,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..b717fc8 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -169,7 +169,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..b4d6199 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -160,7 +160,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				++numWindows;
 				did_soft_lookback = false;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From 1c9710468c5dd3709d1a875a1746b31c0f226c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 55/55] fix: FST and plain text input: the last cohort of the
 input gets the end tag

The cohort variable is empty by then, so <<< never was added.
---
 src/FSTApplicator.cpp       | 10 ++++++----
 src/PlaintextApplicator.cpp | 14 +++++---------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 34aced3..1a1b8e5 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -391,13 +391,15 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		if (cCohort->readings.empty()) {
 			initEmptyCohort(*cCohort);
 		}
-		for (auto iter : cCohort->readings) {
+	}
+	if (cSWindow && cSWindow->cohorts.size() > 1) {
+		for (auto iter : cSWindow->cohorts.back()->readings) {
 			addTagToReading(*iter, endtag);
 		}
-		cReading = nullptr;
-		cCohort = nullptr;
-		cSWindow = nullptr;
 	}
+	cReading = nullptr;
+	cCohort = nullptr;
+	cSWindow = nullptr;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index b4d6199..4f93e7a 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -280,18 +280,14 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 		line[0] = cleaned[0] = 0;
 	}
 
-	if (cCohort && cSWindow) {
-		cSWindow->appendCohort(cCohort);
-		if (cCohort->readings.empty()) {
-			initEmptyCohort(*cCohort);
-		}
-		for (auto iter : cCohort->readings) {
+	// The last cohort is already in the window
+	if (cSWindow && cSWindow->cohorts.size() > 1) {
+		for (auto iter : cSWindow->cohorts.back()->readings) {
 			addTagToReading(*iter, endtag);
 		}
-		cReading = nullptr;
-		cCohort = nullptr;
-		cSWindow = nullptr;
 	}
+	cReading = nullptr;
+	cSWindow = nullptr;
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
-- 
2.43.0

