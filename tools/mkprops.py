import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OBS=["the slice and error returned by MatchesForEvent on any copy"]
CORE=("atomic publication of automaton versions","core_matcher.go addPattern / matchesForFields; field_matcher.go, value_matcher.go update()")
prop("C01","Every acknowledged live pattern is reported",
 "If an AddPattern call returned without error before a MatchesForEvent call on the same instance or any copy of it began, its X has not been deleted since, and the event matches the pattern as documented, then the returned list contains that X. This holds whatever other patterns the instance holds, whatever order they arrived in, and while further AddPattern calls are in progress on other copies, including half-finished ones.",
 ["schedules","histories","inputs"],"all interleavings of adds (from any copy) with matches, all sets of co-resident patterns and arrival orders, all events",
 "The concurrency tests run a handful of free-running goroutines with one pattern family and look at final counts; nothing controls where in an AddPattern a match lands, and no test merges arbitrary mixes of pattern kinds in arbitrary orders.",
 ["core_matcher.go","field_matcher.go","value_matcher.go","nfa.go","epsi_closure.go","state_lists.go"],
 [CORE,("automaton merge on every add","value_matcher.go addTransition; nfa.go mergeFAStates"),("path filter used by the flattener","segments_tree.go; quamina.go MatchesForEvent")],
 [("automaton","the shared state graph every copy reads without a lock")],OBS)
prop("C02","Nothing is reported that does not match",
 "An X appears in a result only if at least one pattern added under that X, whose AddPattern call had begun and had not failed, matches the event that was passed in that call; each X appears at most once. This holds while AddPattern calls are in progress on other copies: a half-added pattern is either reported correctly or not at all, and never makes another X be reported.",
 ["schedules","histories","inputs"],"all interleavings of adds with matches, all sets of co-resident patterns, all events and all earlier events on the same copy",
 "Tests check false positives only for sequential histories over fixed pattern sets; no test places a match inside an AddPattern that introduces a new path, and none looks at what an earlier event leaves behind in a copy's reused buffers.",
 ["core_matcher.go","quamina.go","flatten_json.go","field_matcher.go","value_matcher.go","match_set.go","nfa.go"],
 [("per-copy reusable match buffers","nfa.go nfaBuffers/transmap, match_set.go"),("event flattening against a path filter that changes under adds","quamina.go MatchesForEvent; flatten_json.go"),("absence checks against the flattened fields","core_matcher.go checkExistsFalse")],None,OBS)
prop("C03","Concurrent AddPattern calls all take effect",
 "When several copies call AddPattern at the same time, every call that returns without error has taken full effect: once all have returned, every copy reports exactly the matches that some sequential order of the same calls would give. No call is lost, partially applied or merged with another.",
 ["schedules","histories"],"all interleavings of two or more AddPattern calls from different copies, on both kinds of instance",
 "The existing test starts four goroutines and trusts the Go scheduler; a lost update needs a preemption inside a window of a few instructions.",
 ["core_matcher.go","pruner.go","value_matcher.go","field_matcher.go","segments_tree.go"],
 [("serialisation of builders","core_matcher.go lock in addPattern"),("copy-on-write of path filter and field maps","segments_tree.go copy; field_matcher.go addTransition/addExists")],None,["results of every copy after all adds have returned"])
prop("C04","Results depend only on the set of live patterns",
 "Two instances holding the same set of live patterns give the same set of matches for every event, whatever order the patterns were added in, which copies added them, which build mode was in force for each, whether patterns were added twice, how many events were matched in between, and when a copy was made.",
 ["histories","configurations"],"all orders, build-mode assignments, duplications, interleaved traffic and copy times of the same pattern set",
 "Tests fix one order and one build mode per pattern set; merge results depend on the order of arrival in ways no fixed list samples.",
 ["nfa.go","value_matcher.go","epsi_closure.go","state_lists.go","quamina.go"],
 [("incremental merge and closure on every add","nfa.go, epsi_closure.go"),("NFA to DFA conversion per add","nfa.go nfa2Dfa; state_lists.go intern"),("copying an instance","quamina.go Copy")],None,OBS)
prop("C05","A failed AddPattern has no effect",
 "An AddPattern call that returns an error leaves every copy's later results exactly as if the call had not been made, and later AddPattern calls with valid patterns work normally. This holds at whatever point of the pattern text the error lies and when the failing call races with other calls.",
 ["histories","fault_sequences","schedules"],"all positions of a failing add in a history, all truncations and corruptions of the pattern text, all interleavings with other calls",
 "Tests check that bad patterns return errors, not what the instance reports afterwards.",
 ["pattern.go","core_matcher.go","pruner.go"],
 [("parse before mutate","core_matcher.go addPattern; pattern.go patternFromJSON"),("live set updated after the automaton","pruner.go addPattern")],None,OBS)
prop("C06","Deleted patterns are never reported again",
 "On an instance created with pattern deletion, once DeletePatterns for an X has returned without error, no MatchesForEvent call that begins later on any copy returns that X until it is added again. All patterns added under that X are removed, however many there are and whichever copies added them. On an instance created without pattern deletion, DeletePatterns returns an error and changes nothing.",
 ["schedules","histories"],"all interleavings of deletes with matches, adds of other X and rebuilds; all numbers of patterns per X",
 "Tests delete sequentially and check the next match; races between delete, rebuild and match are never forced.",
 ["pruner.go","live_pattern_state.go"],
 [("live-set filter on results","pruner.go matchesForFields; live_pattern_state.go"),("rebuild from the live set","pruner.go rebuildWhileLocked")],[("live set","the patterns that have been added and not deleted")],OBS)
prop("C07","Re-adding an X revives only the re-added pattern",
 "After DeletePatterns for an X, adding that X again with a new pattern makes the instance report that X only for events that match patterns added under it since the deletion. Patterns deleted earlier stay deleted, whether or not a rebuild has happened in between and even when the re-add overlaps matches or a rebuild.",
 ["histories","schedules"],"all histories of add, delete and re-add of an X with different patterns, with matches and rebuilds anywhere in between",
 "Tests re-add the identical pattern, for which the difference cannot be seen.",
 ["pruner.go","live_pattern_state.go"],
 [("mapping from automaton results to live patterns","pruner.go matchesForFields"),("live set keyed by X","live_pattern_state.go")],None,OBS)
prop("C08","Deleting one X disturbs no other",
 "DeletePatterns for one X never changes whether any other X is reported: every other live pattern keeps matching exactly the events it matched before, during the delete and after it, including patterns with the same text or sharing parts with the deleted one. Deleting an X that is not present changes nothing.",
 ["schedules","histories"],"all interleavings and histories of deletes with adds and matches of other X, including X sharing all or part of a pattern",
 "Tests delete from small fixed sets and check one event.",
 ["pruner.go","live_pattern_state.go"],
 [("live-set removal","live_pattern_state.go Delete"),("rebuild from the live set","pruner.go rebuildWhileLocked")],None,OBS)
prop("C09","Automatic rebuilds are invisible and lose nothing",
 "With pattern deletion enabled, the automatic rebuilds triggered by matching or deleting never change what any copy reports: every acknowledged live pattern survives every rebuild, deleted ones do not come back, and calls in progress on other copies while a rebuild runs return correct results and never crash. An AddPattern that is in progress when a rebuild starts still takes effect.",
 ["schedules","histories"],"all histories that trigger rebuilds, at every point of every operation in progress on other copies",
 "Tests force rebuilds sequentially; the automatic trigger fires only after a thousand results and no test overlaps it with adds.",
 ["pruner.go","rebuilding.go"],
 [("rebuild and swap","pruner.go rebuildWhileLocked, maybeRebuild"),("two-step add","pruner.go addPattern")],[("current matcher","the automaton in use, replaced by a rebuild")],OBS)
prop("C10","Deleted patterns are eventually purged",
 "With pattern deletion enabled, traffic whose results keep being filtered because their patterns were deleted leads, within a bounded number of calls set by the documented policy (more than one filtered per five reported, after a thousand), to a rebuild after which the instance's reported size is that of an instance holding only the live patterns. The bound keeps holding after any number of earlier rebuilds.",
 ["histories","schedules"],"all churn histories of adds, deletes and matches, from any number of copies",
 "Tests check one rebuild with the trigger forced; they do not follow an instance through repeated cycles of churn.",
 ["pruner.go","memory_cost.go"],
 [("rebuild policy","pruner.go tooMuchFiltering"),("counters","pruner.go matchesForFields")],None,["GetMatcherStats after bounded traffic"])
prop("C11","Independent instances do not affect each other",
 "Instances created by separate New calls can be used from different goroutines at the same time in any combination; what one reports depends only on the calls made on it and its copies. No call on one instance makes a call on another fail, crash or return a different result.",
 ["schedules","histories"],"all interleavings of calls on two or more independent instances, all pattern kinds",
 "Tests run instances one at a time (or in parallel test functions with disjoint features), so state shared behind the scenes is never contended.",
 ["rune_range.go","regexp_nfa.go","core_matcher.go","pruner.go"],
 [("process-wide caches used while building","rune_range.go cachedFaShells; core_matcher.go pools"),("default policy objects","pruner.go defaultRebuildTrigger")],None,OBS)
prop("C12","Concurrent use of copies is free of data races",
 "Copies of one instance, each used by one goroutine at a time, may run any combination of MatchesForEvent, AddPattern, DeletePatterns and Copy concurrently without any data race, in every build mode and with or without pattern deletion. The same holds for independent instances.",
 ["schedules","programs"],"all client programs that give each copy to one goroutine, all interleavings",
 "The race detector sees only the schedules that happen to run, and CI does not exercise concurrent deletes, rebuilds or independent instances.",
 ["core_matcher.go","pruner.go","field_matcher.go","value_matcher.go","rune_range.go","epsi_closure.go"],
 [CORE,("pruner lock","pruner.go lock, Matcher pointer"),("process-wide caches","rune_range.go")],None,["race detector reports under the simulated schedule"])
prop("C13","Results and inputs belong to the caller",
 "The list returned by MatchesForEvent is never changed by any later call on any copy, and changing it does not affect later results. The event bytes passed in are not modified, and neither overwriting them after the call returns nor reusing one buffer for successive events affects earlier or later results.",
 ["histories","schedules"],"all sequences of calls on the same and other copies after a result was returned, all reuse of event buffers",
 "Tests inspect a result before making the next call, always with fresh buffers.",
 ["core_matcher.go","match_set.go","flatten_json.go","nfa.go","pruner.go"],
 [("reused result buffer","core_matcher.go matchesForFields; match_set.go matchesInto"),("fields aliasing the event","flatten_json.go")],None,OBS)
prop("C14","Bad events and failing flatteners do no lasting harm",
 "A MatchesForEvent call on a truncated, corrupted or non-JSON event, or one whose user-supplied Flattener fails, returns normally with an error and no matches where the event cannot be flattened, and never panics. Every later call on the same copy and on all other copies gives the results it would have given without the failed call.",
 ["fault_sequences","histories","schedules"],"all points of truncation and corruption of events, all positions of failures in a history, all interleavings with other copies",
 "Tests check that malformed events give errors, one fresh matcher at a time; they do not look at what the failure leaves behind in reused state.",
 ["flatten_json.go","quamina.go","core_matcher.go","nfa.go"],
 [("reused flattener state","flatten_json.go reset"),("reused match buffers","nfa.go transmap; core_matcher.go matchesForFields")],None,OBS)
prop("C15","Operations finish; matching never waits for AddPattern",
 "Every operation finishes: no combination of concurrent calls on copies deadlocks, and no call needs unboundedly many steps when other callers are slow or stopped outside the library's locks. On an instance without pattern deletion, MatchesForEvent completes even when another copy's AddPattern is stalled at an arbitrary point.",
 ["schedules","fault_sequences"],"all interleavings, and all points at which another caller can stall",
 "Tests cannot stop an AddPattern at an arbitrary instruction; a free-running deadlock needs a rare lock-order coincidence.",
 ["core_matcher.go","pruner.go","live_pattern_state.go"],
 [("builder lock not taken by matching","core_matcher.go"),("pruner and live-set locks","pruner.go lock; live_pattern_state.go lock")],None,["completion of each call under a fair schedule"])
prop("C16","Visibility of adds and deletes never flickers",
 "Once any copy has reported an X for an event because of an AddPattern in progress or finished, every MatchesForEvent call that begins later on any copy with the same event reports it too, until a DeletePatterns for it begins. Once any copy has ceased to report an X because of a DeletePatterns in progress or finished, no later-beginning call reports it until it is added again.",
 ["schedules","histories"],"all interleavings of matches on several copies with a single add or delete in progress",
 "Needs two matches on different copies inside one AddPattern or DeletePatterns call; no test does that.",
 ["core_matcher.go","field_matcher.go","value_matcher.go","pruner.go"],
 [CORE,("live-set filter","pruner.go matchesForFields")],None,OBS)
prop("C17","Pattern-storage failures surface and corrupt nothing",
 "When the live-pattern storage behind an instance with deletion fails, the AddPattern, DeletePatterns or MatchesForEvent call that hit the failure returns an error rather than a wrong result. Once the storage works again, results are those of the acknowledged operations, with each operation that reported an error either fully applied or not applied at all.",
 ["fault_sequences","histories","schedules"],"all sequences of storage errors (before or after taking effect, and in the middle of iterating) at every point of a history",
 "One test uses a storage stub that always fails; none checks recovery or partial failure.",
 ["pruner.go","live_pattern_state.go"],
 [("storage interface","live_pattern_state.go LivePatternsState"),("two-step add and rebuild","pruner.go addPattern, rebuildWhileLocked")],None,["errors and results through the in-package constructor that accepts a storage implementation"])
prop("C18","Reading operations change nothing",
 "MatchesForEvent, GetMatcherStats, GetMatcherBuildMode and Copy never change what any copy reports for any event, nor the figures GetMatcherStats returns on an instance without deletion: those depend only on the AddPattern calls made, in their order. All copies of an instance report the same figures.",
 ["histories","schedules"],"all numbers and placements of read-only calls in a history, on any copy, concurrently with each other",
 "Tests call the statistics once on a fresh instance.",
 ["quamina.go","memory_cost.go","core_matcher.go","epsi_closure.go"],
 [("statistics walk","memory_cost.go"),("matching reads only","core_matcher.go, nfa.go traverseNFA")],None,["GetMatcherStats and MatchesForEvent results"])
prop("C19","Each copy keeps its flattener to itself",
 "A user-supplied Flattener passed to an instance is only ever called on behalf of that instance, and each Copy works with its own flattener obtained from the user's Copy method, so no flattener object is called from two copies. An error or panic raised by one copy's flattener reaches that copy's caller alone and leaves every other copy working.",
 ["schedules","fault_sequences","histories"],"all interleavings of matches and copying over any number of copies with user flatteners, with flattener failures anywhere",
 "No test uses a user-supplied flattener from more than one goroutine, or one that fails.",
 ["quamina.go","flattener.go"],
 [("flattener copy","quamina.go Copy"),("flattener call","quamina.go MatchesForEvent")],None,["calls observed by an instrumented user Flattener"])
# pure functions of their input: not applicable
NA={}
def na(id,title,statement,why,files,mech,reason):
    prop(id,title,statement,["inputs"],"all inputs",why,files,mech)
    NA[id]=reason
na("N01","JSON events are flattened faithfully",
 "For every valid JSON object, the values matched against a pattern path are exactly the values at that path in the event, with string escapes decoded, and independent of whitespace, member order, and members not mentioned in any pattern.",
 "Tests use a fixed list of events.",["flatten_json.go"],[("single-pass flattener","flatten_json.go")],
 "A pure function of one event and the path set; no schedule, time, fault or history. (Stateful reuse after failures is C14; changes of the path set under concurrency are C02.)")
na("N02","Numbers match by value",
 "A numeric pattern value matches an event number exactly when the two denote the same 64-bit floating-point value, however each is written.",
 "Tests sample a few thousand numbers.",["numbers.go","numbits.go"],[("canonical number encoding","numbits.go")],
 "A pure function of two numeric literals; nothing to schedule or fail.")
na("N03","Regular expressions match as in I-Regexp",
 "A regexp pattern matches a string exactly when the whole string belongs to the language RFC 9485 gives the expression, and expressions outside the supported subset are rejected.",
 "Tests use a fixed list of expressions.",["regexp_reader.go","regexp_nfa.go","rune_range.go"],[("regexp compiler","regexp_nfa.go")],
 "A pure function of expression and string; interaction with other patterns on the same field is C01/C04.")
na("N04","Each extended pattern kind has its documented meaning",
 "Prefix, shellstyle, wildcard, anything-but, equals-ignore-case and exists patterns match exactly the field values PATTERNS.md says they match.",
 "Tests use fixed lists of patterns and values.",["wildcard.go","shell_style.go","anything_but.go","monocase.go","value_matcher.go"],[("per-kind automaton builders","wildcard.go, shell_style.go, anything_but.go, monocase.go")],
 "Taken one pattern and one value at a time this is a pure function of its inputs; how kinds interact in one instance under histories and schedules is C01, C02 and C04.")
na("N05","Array elements are not mixed",
 "A pattern with several fields matches only when the field values can be chosen so that no two come from different elements of the same array.",
 "Tests use two fixed events.",["core_matcher.go","flatten_json.go"],[("array trail","core_matcher.go noArrayTrailConflict")],
 "A pure function of one event and one pattern.")
na("N06","Invalid patterns are rejected",
 "AddPattern returns an error for every text that is not a JSON object whose leaves are arrays of permitted values, and accepts every text that is.",
 "Tests use fixed lists.",["pattern.go"],[("pattern parser","pattern.go")],
 "A pure function of the pattern text; that a rejected pattern leaves no trace is C05.")
na("N07","Malformed events are rejected",
 "MatchesForEvent returns an error for every byte string that is not a JSON object, as far as the fields used by patterns reach.",
 "Tests use fixed lists.",["flatten_json.go"],[("flattener syntax checks","flatten_json.go")],
 "A pure function of the event bytes; that a rejected event leaves no trace is C14.")
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
json.dump(NA,open("/verif/tools/na.json","w"),indent=1)
print(len(P))
