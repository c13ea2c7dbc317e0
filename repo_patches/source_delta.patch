From 90f268f59e27f354e478339080efdcfd3c1911e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 01/28] fix: give the caller of MatchesForEvent its own result
 slice

Without pattern deletion the returned slice was the per-instance result
buffer, so the next MatchesForEvent call on the same instance overwrote
the result the caller was still holding.
---
 core_matcher.go | 11 +++--------
 match_set.go    |  9 ---------
 nfa.go          |  2 --
 3 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 4e0951d..4c715fd 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -151,13 +151,7 @@ func (m *coreMatcher) matchesForJSONEvent(event []byte) ([]X, error) {
 func (m *coreMatcher) matchesForJSONWithFlattener(event []byte, f Flattener) ([]X, error) {
 	fields, _ := f.Flatten(event, m.getSegmentsTreeTracker())
 	bufs := nfaBuffersPool.Get().(*nfaBuffers)
-	defer func() {
-		// Detach the result slice from bufs before returning to the pool: the
-		// returned []X aliases bufs.resultBuf's backing array, and a subsequent
-		// pool user must not be able to write through it.
-		bufs.resultBuf = make([]X, 0, 16)
-		nfaBuffersPool.Put(bufs)
-	}()
+	defer nfaBuffersPool.Put(bufs)
 	return m.matchesForFields(fields, bufs)
 }
 
@@ -205,7 +199,8 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	for i := 0; i < len(fields); i++ {
 		tryToMatch(fields, i, cmFields.state, matches, bufs)
 	}
-	return matches.matchesInto(bufs.resultBuf[:0]), nil
+	// the caller owns the result, so it can't share memory with bufs, which the next match will reuse
+	return matches.matches(), nil
 }
 
 // tryToMatch tries to match the field at fields[index] to the provided state. If it does match and generate
diff --git a/match_set.go b/match_set.go
index 712d684..1da255e 100644
--- a/match_set.go
+++ b/match_set.go
@@ -46,12 +46,3 @@ func (m *matchSet) matches() []X {
 	}
 	return matches
 }
-
-// matchesInto appends matches to the provided buffer and returns it.
-// This avoids allocating a new slice for the result.
-func (m *matchSet) matchesInto(buf []X) []X {
-	for x := range m.set {
-		buf = append(buf, x)
-	}
-	return buf
-}
diff --git a/nfa.go b/nfa.go
index c7bcaa0..c9dbbb1 100644
--- a/nfa.go
+++ b/nfa.go
@@ -96,7 +96,6 @@ type nfaBuffers struct {
 	buf1, buf2     []*faState
 	matches        *matchSet
 	transitionsBuf []*fieldMatcher
-	resultBuf      []X
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
@@ -105,7 +104,6 @@ type nfaBuffers struct {
 func newNfaBuffers() *nfaBuffers {
 	return &nfaBuffers{
 		transitionsBuf: make([]*fieldMatcher, 0, 16),
-		resultBuf:      make([]X, 0, 16),
 	}
 }
 
-- 
2.43.0


From 9e26a5a09ded294e56edb675be3a7c24f12229be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 02/28] fix: don't share one transitions buffer between nested
 tryToMatch levels

tryToMatch iterates over the transitions of one field while its recursive
calls collect the transitions of later fields. Deterministic value matchers
collected them all in the same buffer, so when a field had two or more
transitions the inner calls overwrote the outer ones and matches were lost.
---
 nfa.go           | 25 ++++++++++++++++---------
 value_matcher.go |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/nfa.go b/nfa.go
index c9dbbb1..0db746d 100644
--- a/nfa.go
+++ b/nfa.go
@@ -93,18 +93,15 @@ func (tm *transmap) resetDepth() {
 // the incoming event patterns and matcher structures and eventually the amount of event-matching memory
 // allocation will be reduced to nearly zero.
 type nfaBuffers struct {
-	buf1, buf2     []*faState
-	matches        *matchSet
-	transitionsBuf []*fieldMatcher
-	transmap       *transmap
-	fieldSet       map[*fieldMatcher]bool
-	qNumBuf        [MaxBytesInEncoding]byte
+	buf1, buf2 []*faState
+	matches    *matchSet
+	transmap   *transmap
+	fieldSet   map[*fieldMatcher]bool
+	qNumBuf    [MaxBytesInEncoding]byte
 }
 
 func newNfaBuffers() *nfaBuffers {
-	return &nfaBuffers{
-		transitionsBuf: make([]*fieldMatcher, 0, 16),
-	}
+	return &nfaBuffers{}
 }
 
 func (nb *nfaBuffers) getBuf1() []*faState {
@@ -135,6 +132,16 @@ func (nb *nfaBuffers) getTransmap() *transmap {
 	return nb.transmap
 }
 
+// getTransitions returns an empty transitions buffer which belongs to the current level of tryToMatch. It can't
+// be shared between levels because an outer tryToMatch is still iterating over its transitions while the inner
+// ones are collecting theirs.
+func (nb *nfaBuffers) getTransitions() []*fieldMatcher {
+	if tm := nb.transmap; tm != nil && tm.depth >= 0 {
+		return tm.levels[tm.depth][:0]
+	}
+	return nil
+}
+
 func (nb *nfaBuffers) getFieldSet() map[*fieldMatcher]bool {
 	if nb.fieldSet == nil {
 		nb.fieldSet = make(map[*fieldMatcher]bool)
diff --git a/value_matcher.go b/value_matcher.go
index 67083f2..3403176 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -52,7 +52,7 @@ func newValueMatcher() *valueMatcher {
 
 func (m *valueMatcher) transitionOn(eventField *Field, bufs *nfaBuffers) []*fieldMatcher {
 	vmFields := m.fields()
-	transitions := bufs.transitionsBuf[:0]
+	transitions := bufs.getTransitions()
 
 	val := eventField.Val
 	switch {
-- 
2.43.0


From d4b4be94890ec97545742b43c1bc2030afd22d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 03/28] fix: keep field transitions when merging with a spinner

asymmetricSpinnerMerge dropped the field transitions of the other automaton,
simplifySplices and the epsilon closure dropped those of states with nothing
but epsilons in their tables, and appending to field transitions and epsilons
of existing states could write into memory shared with other states. All of
them made patterns stop matching when certain others were added.
---
 epsi_closure.go |  4 ++--
 nfa.go          | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/epsi_closure.go b/epsi_closure.go
index 0b7f184..96a00ab 100644
--- a/epsi_closure.go
+++ b/epsi_closure.go
@@ -208,7 +208,7 @@ func closureForState(state *faState, bufs *closureBuffers) {
 	// below. Only non-epsilon-only states are collected, so when self is
 	// epsilon-only a closureList of length 1 holds some *other* state, not self
 	// — the self-only checks must not fire on it.
-	selfWasCollected := !state.table.isEpsilonOnly()
+	selfWasCollected := !state.isJustSplice()
 
 	// Generation-based visited tracking: bufs.states records which gen last
 	// visited each state, so we never clear the map between traversals.
@@ -284,7 +284,7 @@ func traverseEpsilons(start *faState, epsilons []*faState, bufs *closureBuffers)
 			continue
 		}
 		bufs.states[eps] = bufs.closureSetGen
-		if !eps.table.isEpsilonOnly() {
+		if !eps.isJustSplice() {
 			bufs.closureList = append(bufs.closureList, eps)
 		}
 		traverseEpsilons(start, eps.table.epsilons, bufs)
diff --git a/nfa.go b/nfa.go
index 0db746d..8730ef6 100644
--- a/nfa.go
+++ b/nfa.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"fmt"
+	"slices"
 	"unsafe"
 )
 
@@ -23,6 +24,13 @@ type faState struct {
 	isSpinner      bool
 }
 
+// isJustSplice is true for states which do nothing but connect to others via epsilons, so anything which works with
+// the states reached by following the epsilons can do without this one. A state with field transitions can't be done
+// without even when it has no byte transitions.
+func (s *faState) isJustSplice() bool {
+	return s.table.isEpsilonOnly() && len(s.fieldTransitions) == 0
+}
+
 /*
 Here's the problem. When you have the shellstyle *, which really means ".*", there are options on how
 to implement, and they have effect on what you can do while merging, with the results highlighted by
@@ -386,7 +394,7 @@ func simplifyCollect(s *faState, visited map[*faState]bool, targets []*faState)
 	}
 	visited[s] = true
 
-	if s.table.isEpsilonOnly() {
+	if s.isJustSplice() {
 		for _, eps := range s.table.epsilons {
 			targets = simplifyCollect(eps, visited, targets)
 		}
@@ -463,7 +471,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		return combined
 	}
 
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -513,7 +521,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	mKey := makeFaStepKey(spinner, nonSpinner)
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(spinner.fieldTransitions, nonSpinner.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(spinner.fieldTransitions, nonSpinner.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&spinner.table), pp.tableSerial(&nonSpinner.table)))
@@ -532,8 +540,8 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 		switch {
 		case spinnerNext == nil:
-			// illegal UTF-8
-			mergedState = nil
+			// illegal UTF-8 or the valueTerminator, either way the spinner has nothing to add
+			mergedState = nonSpinnernext
 
 		case nonSpinnernext == nil:
 			mergedState = spinnerNext
@@ -545,9 +553,9 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 			mergedTable := smallTable{
 				steps:    nonSpinnernext.table.steps,
 				ceilings: nonSpinnernext.table.ceilings,
-				epsilons: append(nonSpinnernext.table.epsilons, spinner),
+				epsilons: slices.Concat(nonSpinnernext.table.epsilons, []*faState{spinner}),
 			}
-			mergedState = &faState{table: mergedTable, fieldTransitions: spinner.fieldTransitions}
+			mergedState = &faState{table: mergedTable, fieldTransitions: nonSpinnernext.fieldTransitions}
 
 		default:
 			// if spinner's branch isn't a loopback, we need to merge its target with the nonspinner
@@ -580,7 +588,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
-- 
2.43.0


From 8982152c16918382a6f8c9c1badc16b8228d35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 04/28] fix: lock the cache of rune range automata

cachedFaShells is shared by all matchers in the process, and patterns may be
added to unrelated Quamina instances in parallel.
---
 rune_range.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rune_range.go b/rune_range.go
index 4e9f949..ac0fe60 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -5,17 +5,19 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync"
 )
 
 // It turns out that makeRuneRangeNFA is an expensive call that burns memory.  So for the big
 // RuneRange FAs, we compute and cache shells. A shell is an FA computed with the "next" value
 // being PlaceholderState.  When you need a rune range FA, you take the shell and build a copy,
 // replacing transitions to PlaceholderState by whatever the "next" value is.
-// Note that FAs are only built during AddPattern calls and this is single-threaded, so we
-// can safely build and update the cachedRRFaShells
+// Note that FAs are only built during AddPattern calls and these are single-threaded per
+// matcher, but there can be many matchers, so updates to the cache need a lock.
 
 var PlaceholderState *faState = &faState{table: newSmallTable()}
 var cachedFaShells = make(map[string]smallTable)
+var cachedFaShellsLock sync.Mutex
 
 func faFromShell(shell *smallTable, oldNext *faState, newNext *faState) smallTable {
 	return copyShellNode(&faState{table: *shell}, oldNext, newNext, make(map[*faState]*faState)).table
@@ -98,11 +100,13 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 
 func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printer) smallTable {
 	if name != "" {
+		cachedFaShellsLock.Lock()
 		fa, ok := cachedFaShells[name]
 		if !ok {
 			fa = makeAndCacheRuneRangeFA(rr, PlaceholderState, "", pp)
 			cachedFaShells[name] = fa
 		}
+		cachedFaShellsLock.Unlock()
 		return faFromShell(&fa, PlaceholderState, next)
 	}
 
-- 
2.43.0


From 6749ceaedf0210dbc3e5ed036ad514847fb6b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 05/28] fix: don't look for parent fields in objects inside a
 leaf array

When an array's name is only used as a leaf in patterns, objects among its
elements were read as if they were the object containing the array, so
{"b": [1]} matched {"a": [{"b": 1}]} as soon as some pattern mentioned a.
---
 flatten_json.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index 16f14e5..1e0ea4d 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -266,8 +266,8 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 						// Given this case:
 						//  { "geo": { "coords": [{"coordinates": [1,2,3]}] } }
 						// "coords" is a node.
-						// "coordinates" is a field.
-						arrayPathNode = pathNode
+						// "coordinates" is a field, so members of any objects found in it aren't used
+						arrayPathNode = nil
 					}
 
 					err = fj.readArray(pathNode.PathForSegment(memberName), arrayPathNode)
@@ -338,7 +338,7 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 }
 
 // read an array in an incoming event, recursing as necessary into members. pathNode and fj.skipping are
-// used to bypass elements where possible.
+// used to bypass elements where possible. pathNode is nil if no Pattern mentions any members of objects in the array
 func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker) error {
 	// eventIndex points at [
 	var err error
@@ -392,7 +392,11 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 					fj.stepOneArrayElement()
 				}
 
-				err = fj.readObject(pathNode)
+				if pathNode == nil {
+					err = fj.skipBlock('{', '}')
+				} else {
+					err = fj.readObject(pathNode)
+				}
 
 				if err != nil {
 					return err
-- 
2.43.0


From ac20478728939a1dce9c650862ea77e58e52ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 06/28] fix: read escapes which follow a \u escape

The escape after \uXXXX lost its backslash unless it was another \u.
---
 flatten_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 1e0ea4d..b8a6a38 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -775,6 +775,10 @@ func (fj *flattenJSON) readTextWithEscapes(from int) ([]byte, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
+		// stopped at the \ of some other escape, which has to be read next
+		if fj.event[from] == '\\' {
+			from--
+		}
 	default:
 		return nil, 0, fj.error("malformed \\-escape in text")
 	}
-- 
2.43.0


From bfa8d490c11b8a3e3ba594e8e73dc9c288c8ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 07/28] fix: an event with nothing but white space is not an
 object

---
 flatten_json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index b8a6a38..86c0264 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -130,6 +130,9 @@ func (fj *flattenJSON) Flatten(event []byte, tracker SegmentsTreeTracker) ([]Fie
 		// optimization to avoid calling step() and expensively construct an error object at the end of each event
 		fj.eventIndex++
 		if fj.eventIndex == len(fj.event) {
+			if state == fjStartState {
+				return nil, fj.error("not a JSON object")
+			}
 			return fj.fields, nil
 		}
 	}
-- 
2.43.0


From 55b0992a4e4171cc4eea081fb6d51adc14f709ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 08/28] fix: allow exponents starting with 0 or + in event
 numbers

---
 flatten_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten_json.go b/flatten_json.go
index 86c0264..419d20e 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -500,7 +500,7 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 			}
 		case fjNumberAfterEState:
 			switch ch {
-			case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+			case '-', '+', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				// no-op
 			default:
 				fj.eventIndex = i
-- 
2.43.0


From 86d7bdb8f11f0c8435bc4991e3cd155f11e10a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 09/28] fix: check exists:false after the last field has
 matched exists:true

A pattern such as {"a":[{"exists":true}],"b":[{"exists":false}]} didn't match
when no field used in patterns came after a in the event.
---
 core_matcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core_matcher.go b/core_matcher.go
index 4c715fd..9085a1a 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -218,6 +218,8 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 				tryToMatch(fields, nextIndex, existsTrans, matches, bufs)
 			}
 		}
+		// as for the transitions through the machine below, there may be no fields left to find exists:false with
+		checkExistsFalse(existsTrans.fields(), fields, index, matches, bufs)
 	}
 
 	// an exists:false transition is possible if there is no matching field in the event
-- 
2.43.0


From c5972c554c40410e3aaa38c8ab453fb2a1e54c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 10/28] fix: don't confuse quotes in prefixes and anything-but
 lists with the closing quote

{"prefix":"\""} matched the empty string, and {"anything-but":["a","a\"b"]}
matched a"b.
---
 anything_but.go  | 5 +++++
 value_matcher.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/anything_but.go b/anything_but.go
index ab57fed..1bf691a 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -123,6 +123,11 @@ func makeOneMultiAnythingButStep(vals [][]byte, index int, success *faState) sma
 	for utf8Byte := range valsEndingHere {
 		failState := &faState{table: newSmallTable()} // note no transitions
 		lastTable := makeSmallTable(success, []byte{valueTerminator}, []*faState{failState})
+		// other vals may have a " right here and more to follow
+		if longer, ok := valsWithBytesRemaining[utf8Byte]; ok {
+			lastTable = makeOneMultiAnythingButStep(longer, index+1, success)
+			lastTable.addByteStep(valueTerminator, failState)
+		}
 		u[utf8Byte] = &faState{table: lastTable}
 	}
 
diff --git a/value_matcher.go b/value_matcher.go
index 3403176..a145873 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -206,6 +206,10 @@ func makeOnePrefixFAStep(val []byte, index int, nextField *fieldMatcher) smallTa
 	var nextState *faState
 	if index == len(val)-2 {
 		nextState = &faState{table: newSmallTable(), fieldTransitions: []*fieldMatcher{nextField}}
+		// a prefix that ends with " hasn't been seen yet if this is the closing " of the value being matched
+		if index > 0 && val[index] == '"' {
+			nextState = &faState{table: makeByteDotFA(nextState, sharedNullPrinter)}
+		}
 	} else {
 		nextState = &faState{table: makeOnePrefixFAStep(val, index+1, nextField)}
 	}
-- 
2.43.0


From 195b9409652df2f7430b6207c4bde2e8f94a84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 11/28] fix: no exists:false matches on fields the event has

A pattern being added while an event was being matched could be reported
for it although the pattern says exists:false about a field in the event,
because the event had been flattened before the field became of interest.
---
 core_matcher.go  | 23 +++++++++++++----------
 quamina.go       | 19 +++++++++++++++----
 segments_tree.go | 14 ++++++++++++++
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 9085a1a..8ef781e 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -80,16 +80,20 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	// this pattern's working set, not every state in the matcher.
 	m.closureBufs.reset()
 
-	// we build up the new coreMatcher state in freshStart so that we can atomically switch it in once complete
-
-	freshStart := &coreFields{}
+	// Add any new paths to a copy of the segments tree index and atomically switch it in before changing anything in
+	// the automaton. This means that if the tree used in flattening an event is still there after matching, the
+	// automaton had nothing about fields that flattening left out of the event.
 	currentFields := m.fields()
-	freshStart.segmentsTree = currentFields.segmentsTree.copy()
-	freshStart.state = currentFields.state
-
-	// Add paths to the segments tree index.
-	for _, field := range patternFields {
-		freshStart.segmentsTree.add(field.path)
+	isNewPath := func(field *patternField) bool { return !currentFields.segmentsTree.hasPath(field.path) }
+	if slices.ContainsFunc(patternFields, isNewPath) {
+		freshStart := &coreFields{
+			segmentsTree: currentFields.segmentsTree.copy(),
+			state:        currentFields.state,
+		}
+		for _, field := range patternFields {
+			freshStart.segmentsTree.add(field.path)
+		}
+		m.updateable.Store(freshStart)
 	}
 
 	// now we add each of the name/value pairs in fields slice to the automaton, starting with the start state -
@@ -126,7 +130,6 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	for _, endState := range states {
 		endState.addMatch(x)
 	}
-	m.updateable.Store(freshStart)
 
 	return nil
 }
diff --git a/quamina.go b/quamina.go
index 74a8a0e..07a8dce 100644
--- a/quamina.go
+++ b/quamina.go
@@ -144,11 +144,22 @@ func (q *Quamina) DeletePatterns(x X) error {
 // if no patterns match. error can be returned in case that the event is not a valid JSON object or contains
 // invalid UTF-8 byte sequences.
 func (q *Quamina) MatchesForEvent(event []byte) ([]X, error) {
-	fields, err := q.flattener.Flatten(event, q.matcher.getSegmentsTreeTracker())
-	if err != nil {
-		return nil, err
+	for {
+		tracker := q.matcher.getSegmentsTreeTracker()
+		fields, err := q.flattener.Flatten(event, tracker)
+		if err != nil {
+			return nil, err
+		}
+		matches, err := q.matcher.matchesForFields(fields, q.bufs)
+		if err != nil {
+			return nil, err
+		}
+		// A pattern added in the meantime may say exists:false about a field which is in the event but was left out
+		// by the flattener because no pattern mentioned it yet. If so, start over.
+		if tracker == q.matcher.getSegmentsTreeTracker() {
+			return matches, nil
+		}
 	}
-	return q.matcher.matchesForFields(fields, q.bufs)
 }
 
 // GetMatcherStats retrieves resource consumption data from a Quamina instance; its results depend only
diff --git a/segments_tree.go b/segments_tree.go
index a927330..009d29d 100644
--- a/segments_tree.go
+++ b/segments_tree.go
@@ -138,6 +138,20 @@ func (p *segmentsTree) String() string {
 	return fmt.Sprintf("root: %v, nodes [%s], fields: [%s]", p.root, strings.Join(nodeNames, ","), strings.Join(fieldNames, ","))
 }
 
+// hasPath reports whether the tree already has what add would put there for the path
+func (p *segmentsTree) hasPath(path string) bool {
+	segments := strings.Split(path, SegmentSeparator)
+	node := p
+	for _, segment := range segments[:len(segments)-1] {
+		var ok bool
+		if node, ok = node.nodes[segment]; !ok {
+			return false
+		}
+	}
+	_, ok := node.fields[segments[len(segments)-1]]
+	return ok
+}
+
 // copy produces a fresh copy of an existing segmentsTree which is used to support atomic update of
 // the Quamina automaton.
 func (p *segmentsTree) copy() *segmentsTree {
-- 
2.43.0


From 3e6c589cc5eb5e8912e1e0b0d0221e027a885a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 12/28] fix: reset the emitted count in a rebuild

It is documented as the count since the last rebuild. Left as it was, it
grew forever, so that it took ever more filtered patterns to trigger a rebuild.
---
 pruner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pruner.go b/pruner.go
index dd2d2bb..8c19a9e 100644
--- a/pruner.go
+++ b/pruner.go
@@ -325,6 +325,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Live = count
 		m.stats.Added = 0
 		m.stats.Deleted = 0
+		m.stats.Emitted = 0
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
-- 
2.43.0


From 64f3b79517d8adf9622666a5dff3e498135b57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 13/28] fix: keep live patterns and matcher consistent in
 prunerMatcher

Matcher was read without a lock while rebuilds were replacing it. A rebuild
between adding a pattern to Matcher and to live lost the pattern. Patterns
whose live.Add failed were matched all the same if their X had others. A
fearless rebuild left no Matcher at all while it was running, and for good
when live.Iterate failed. Rebuilds also kept all matching waiting.

Patterns now go to live first, which is what rebuilds go by, and updates
are serialized.
---
 pruner.go | 133 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 78 insertions(+), 55 deletions(-)

diff --git a/pruner.go b/pruner.go
index 8c19a9e..4d30774 100644
--- a/pruner.go
+++ b/pruner.go
@@ -72,7 +72,12 @@ type prunerMatcher struct {
 	// If nil, no automatic rebuild is ever triggered.
 	rebuildTrigger rebuildTrigger
 
-	// lock protects the pointer the underlying Matcher as well as stats.
+	// updateLock is held by anything that updates live or Matcher, i.e.
+	// Add, Delete, and rebuild, so that these remain consistent. If
+	// both are needed, it has to be acquired before lock.
+	updateLock sync.Mutex
+
+	// lock protects the pointer to the underlying Matcher as well as stats.
 	//
 	// The Matcher pointer is updated after a successful rebuild.
 	// Stats are updated by Add, Delete, and rebuild.
@@ -177,16 +182,27 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 	}
 }
 
+// currentMatcher returns the underlying Matcher
+func (m *prunerMatcher) currentMatcher() *coreMatcher {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	return m.Matcher
+}
+
+// needsRebuild calls rebuildTrigger, if there is one.
+func (m *prunerMatcher) needsRebuild(added bool) bool {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+	return m.rebuildTrigger != nil && m.rebuildTrigger.rebuild(added, &m.stats)
+}
+
 // maybeRebuild calls rebuildTrigger and calls rebuildWhileLocked() if that
 // trigger said to do that.  If rebuildTrigger is nil, no rebuildWhileLocked is
 // executed.
 //
-// This method assumes the caller has a write lock.
+// This method assumes the caller has updateLock.
 func (m *prunerMatcher) maybeRebuild(added bool) error {
-	if m.rebuildTrigger == nil {
-		return nil
-	}
-	if m.rebuildTrigger.rebuild(added, &m.stats) {
+	if m.needsRebuild(added) {
 		return m.rebuildWhileLocked(added)
 	}
 
@@ -197,27 +213,34 @@ func (m *prunerMatcher) maybeRebuild(added bool) error {
 // method and then maybe rebuilds the index (if the addPattern
 // succeeded).
 func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode) error {
-	var err error
+	// Make sure that the pattern is one that Matcher will accept, because
+	// it goes to live first: anything in Matcher that isn't in live
+	// would be lost in the next rebuild.
+	if _, err := patternFromJSON([]byte(pat)); err != nil {
+		return err
+	}
 
-	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
-	if err = m.Matcher.addPattern(x, pat, buildMode); err == nil {
-		m.lock.Lock()
-		m.stats.Added++
-		m.stats.Live++
-		_ = m.maybeRebuild(true)
-		m.lock.Unlock()
-		err = m.live.Add(x, pat, buildMode)
-		// ToDo: Contemplate what do to about an error here
-		// (or if we got an error from addPattern after we did
-		// live.Add.
+	m.updateLock.Lock()
+	defer m.updateLock.Unlock()
+
+	if err := m.live.Add(x, pat, buildMode); err != nil {
+		return err
 	}
+	if err := m.currentMatcher().addPattern(x, pat, buildMode); err != nil {
+		return err
+	}
+	m.lock.Lock()
+	m.stats.Added++
+	m.stats.Live++
+	m.lock.Unlock()
+	_ = m.maybeRebuild(true)
 
-	return err
+	return nil
 }
 
 // MatchesForJSONEvent calls MatchesForFields with a new Flattener.
 func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
-	fs, err := newJSONFlattener().Flatten(event, m.Matcher.fields().segmentsTree)
+	fs, err := newJSONFlattener().Flatten(event, m.getSegmentsTreeTracker())
 	if err != nil {
 		return nil, err
 	}
@@ -225,14 +248,14 @@ func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
 }
 
 func (m *prunerMatcher) getStats() *matcherStats {
-	return m.Matcher.getStats()
+	return m.currentMatcher().getStats()
 }
 
 // MatchesForFields calls the underlying
 // quamina.coreMatcher.matchesForFields and then maybe rebuilds the
 // index.
 func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, error) {
-	xs, err := m.Matcher.matchesForFields(fields, bufs)
+	xs, err := m.currentMatcher().matchesForFields(fields, bufs)
 	if err != nil {
 		return nil, err
 	}
@@ -241,25 +264,25 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 
 	acc := make([]X, 0, len(xs))
 
-	var emitted, filtered int64
 	for _, x := range xs {
 		have, err := m.live.Contains(x)
 		if err != nil {
 			return nil, err
 		}
-		if !have {
-			filtered++
-			continue
+		if have {
+			acc = append(acc, x)
 		}
-		acc = append(acc, x)
-		emitted++
 	}
 
 	m.lock.Lock()
-	m.stats.Filtered += filtered
-	m.stats.Emitted += emitted
-	_ = m.maybeRebuild(false)
+	m.stats.Filtered += int64(len(xs) - len(acc))
+	m.stats.Emitted += int64(len(acc))
 	m.lock.Unlock()
+	if m.needsRebuild(false) {
+		m.updateLock.Lock()
+		_ = m.maybeRebuild(false)
+		m.updateLock.Unlock()
+	}
 
 	return acc, nil
 }
@@ -267,36 +290,39 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 // DeletePattern removes the pattern from the index and maybe rebuilds
 // the index.
 func (m *prunerMatcher) deletePatterns(x X) error {
+	m.updateLock.Lock()
+	defer m.updateLock.Unlock()
+
 	n, err := m.live.Delete(x)
-	if err == nil {
-		if 0 < n {
-			m.lock.Lock()
-			m.stats.Deleted += n
-			m.stats.Live -= n
-			_ = m.maybeRebuild(false)
-			m.lock.Unlock()
-		}
+	if err != nil {
+		return err
+	}
+	if 0 < n {
+		m.lock.Lock()
+		m.stats.Deleted += n
+		m.stats.Live -= n
+		m.lock.Unlock()
+		_ = m.maybeRebuild(false)
 	}
 
-	return err
+	return nil
 }
 
 // rebuild rebuilds the matcher state based on only live patterns.
 //
-// If calling fearlessly, then the old matcher is released before
-// building the new one.
+// The old matcher remains in use until the new one is complete, even when
+// called fearlessly, because other goroutines may be matching.
 //
 // This method resets the prunerStats.
 func (m *prunerMatcher) rebuild(fearlessly bool) error {
-	m.lock.Lock()
-	err := m.rebuildWhileLocked(fearlessly)
-	m.lock.Unlock()
-	return err
+	m.updateLock.Lock()
+	defer m.updateLock.Unlock()
+	return m.rebuildWhileLocked(fearlessly)
 }
 
-// rebuildWhileLocked is rebuild but assumes having the lock.
-func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
-	// We assume we have the lock.
+// rebuildWhileLocked is rebuild but assumes having updateLock.
+func (m *prunerMatcher) rebuildWhileLocked(_ bool) error {
+	// We assume we have updateLock.
 
 	// Nothing fancy here now.
 
@@ -305,11 +331,6 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m1   = newCoreMatcher()
 	)
 
-	if fearlessly {
-		// Let the GC reduce heap requirements?
-		m.Matcher = nil
-	}
-
 	count := 0
 	err := m.live.Iterate(func(x X, p string, buildMode MatcherBuildMode) error {
 		err := m1.addPattern(x, p, buildMode)
@@ -320,6 +341,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 	})
 
 	if err == nil {
+		m.lock.Lock()
 		m.Matcher = m1
 		m.stats.RebuildPurged = m.stats.Deleted
 		m.stats.Live = count
@@ -329,6 +351,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
+		m.lock.Unlock()
 	}
 
 	return err
@@ -344,5 +367,5 @@ func (m *prunerMatcher) getPrunerStats() prunerStats {
 }
 
 func (m *prunerMatcher) getSegmentsTreeTracker() SegmentsTreeTracker {
-	return m.Matcher.getSegmentsTreeTracker()
+	return m.currentMatcher().getSegmentsTreeTracker()
 }
-- 
2.43.0


From b31df6684c80f7bb28d5dcc35a18733cf0427d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 14/28] fix: deleted patterns don't come back when their X is
 added again

Until the next rebuild the underlying Matcher still has the patterns that
were deleted. They were filtered from results by X only, so they were back as
soon as another pattern was added under the same X.
---
 pruner.go | 66 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/pruner.go b/pruner.go
index 4d30774..b9da7c6 100644
--- a/pruner.go
+++ b/pruner.go
@@ -72,18 +72,32 @@ type prunerMatcher struct {
 	// If nil, no automatic rebuild is ever triggered.
 	rebuildTrigger rebuildTrigger
 
+	// generations has an entry for each live X. The X values given to
+	// Matcher are prunedX values which include the generation, so
+	// that patterns which were deleted but are still in Matcher can be
+	// told from those added since under the same X.
+	generations    map[X]uint64
+	lastGeneration uint64
+
 	// updateLock is held by anything that updates live or Matcher, i.e.
 	// Add, Delete, and rebuild, so that these remain consistent. If
 	// both are needed, it has to be acquired before lock.
 	updateLock sync.Mutex
 
-	// lock protects the pointer to the underlying Matcher as well as stats.
+	// lock protects the pointer to the underlying Matcher as well as
+	// generations and stats.
 	//
 	// The Matcher pointer is updated after a successful rebuild.
 	// Stats are updated by Add, Delete, and rebuild.
 	lock sync.RWMutex
 }
 
+// prunedX is what the underlying Matcher gets and reports as X.
+type prunedX struct {
+	x          X
+	generation uint64
+}
+
 var defaultRebuildTrigger = newTooMuchFiltering(0.2, 1000)
 
 // nolint:gofmt,goimports
@@ -179,6 +193,7 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 		Matcher:        newCoreMatcher(),
 		live:           s,
 		rebuildTrigger: &trigger,
+		generations:    make(map[X]uint64),
 	}
 }
 
@@ -189,6 +204,28 @@ func (m *prunerMatcher) currentMatcher() *coreMatcher {
 	return m.Matcher
 }
 
+// tag returns what stands for x in the underlying Matcher. It assumes
+// that the caller has updateLock.
+func (m *prunerMatcher) tag(x X) prunedX {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+	generation, ok := m.generations[x]
+	if !ok {
+		m.lastGeneration++
+		generation = m.lastGeneration
+		m.generations[x] = generation
+	}
+	return prunedX{x, generation}
+}
+
+// forget has any patterns added under x so far removed from results. It
+// assumes that the caller has updateLock.
+func (m *prunerMatcher) forget(x X) {
+	m.lock.Lock()
+	delete(m.generations, x)
+	m.lock.Unlock()
+}
+
 // needsRebuild calls rebuildTrigger, if there is one.
 func (m *prunerMatcher) needsRebuild(added bool) bool {
 	m.lock.Lock()
@@ -226,7 +263,7 @@ func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode)
 	if err := m.live.Add(x, pat, buildMode); err != nil {
 		return err
 	}
-	if err := m.currentMatcher().addPattern(x, pat, buildMode); err != nil {
+	if err := m.currentMatcher().addPattern(m.tag(x), pat, buildMode); err != nil {
 		return err
 	}
 	m.lock.Lock()
@@ -264,19 +301,31 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 
 	acc := make([]X, 0, len(xs))
 
+	m.lock.RLock()
 	for _, x := range xs {
+		tagged := x.(prunedX)
+		if generation, ok := m.generations[tagged.x]; ok && generation == tagged.generation {
+			acc = append(acc, tagged.x)
+		}
+	}
+	m.lock.RUnlock()
+
+	emitted := 0
+	for _, x := range acc {
 		have, err := m.live.Contains(x)
 		if err != nil {
 			return nil, err
 		}
 		if have {
-			acc = append(acc, x)
+			acc[emitted] = x
+			emitted++
 		}
 	}
+	acc = acc[:emitted]
 
 	m.lock.Lock()
-	m.stats.Filtered += int64(len(xs) - len(acc))
-	m.stats.Emitted += int64(len(acc))
+	m.stats.Filtered += int64(len(xs) - emitted)
+	m.stats.Emitted += int64(emitted)
 	m.lock.Unlock()
 	if m.needsRebuild(false) {
 		m.updateLock.Lock()
@@ -295,8 +344,13 @@ func (m *prunerMatcher) deletePatterns(x X) error {
 
 	n, err := m.live.Delete(x)
 	if err != nil {
+		// the deletion may have happened all the same
+		if have, err2 := m.live.Contains(x); err2 == nil && !have {
+			m.forget(x)
+		}
 		return err
 	}
+	m.forget(x)
 	if 0 < n {
 		m.lock.Lock()
 		m.stats.Deleted += n
@@ -333,7 +387,7 @@ func (m *prunerMatcher) rebuildWhileLocked(_ bool) error {
 
 	count := 0
 	err := m.live.Iterate(func(x X, p string, buildMode MatcherBuildMode) error {
-		err := m1.addPattern(x, p, buildMode)
+		err := m1.addPattern(m.tag(x), p, buildMode)
 		if err == nil {
 			count++
 		}
-- 
2.43.0


From 046224f9e573702007bb108260ecb029ebd99f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 15/28] fix: wildcard '*' followed by an escaped character

---
 wildcard.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildcard.go b/wildcard.go
index b25015d..9f148b4 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -95,6 +95,10 @@ func makeWildCardFA(val []byte, pp printer) (start *faState, nextField *fieldMat
 			spinner.isSpinner = true
 
 			valIndex++
+			if val[valIndex] == '\\' {
+				// the '*' is followed by an escaped character, spin until that character, not the '\'
+				valIndex++
+			}
 			spinEscape := &faState{table: newSmallTable()}
 			spinEscape.table.epsilons = []*faState{spinner}
 			spinner.table = makeByteDotFA(spinner, pp)
-- 
2.43.0


From 37d631ea2c31f30c2d68cf9badc487bf3b3f68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 16/28] fix: quantified groups and {n,} in regexps

Branches of a group can't be merged with states which are still to be
filled in, a{n,} looped back to the wrong place, and an empty branch in a
group required a quote.
---
 nfa.go        | 11 +++++++++--
 regexp_nfa.go | 35 ++++++++++++++++++++++-------------
 rune_range.go |  2 +-
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/nfa.go b/nfa.go
index 8730ef6..9e92c63 100644
--- a/nfa.go
+++ b/nfa.go
@@ -31,6 +31,12 @@ func (s *faState) isJustSplice() bool {
 	return s.table.isEpsilonOnly() && len(s.fieldTransitions) == 0
 }
 
+// isIncomplete is true for states whose table is yet to be filled in. These turn up, as targets of other states, when
+// ()-groups with a quantifier are being built. All that can be done with such a state is to point to it.
+func (s *faState) isIncomplete() bool {
+	return len(s.table.ceilings) == 0
+}
+
 /*
 Here's the problem. When you have the shellstyle *, which really means ".*", there are options on how
 to implement, and they have effect on what you can do while merging, with the results highlighted by
@@ -462,9 +468,10 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		return combined
 	}
 
-	// If either of the states to be merged has epsilons we have to do a splice.
+	// If either of the states to be merged has epsilons we have to do a splice. The same goes
+	// for states that are still incomplete.
 	// To avoid deep nesting of splice states, we flatten the epsilon targets.
-	if len(state1.table.epsilons) != 0 || len(state2.table.epsilons) != 0 {
+	if len(state1.table.epsilons) != 0 || len(state2.table.epsilons) != 0 || state1.isIncomplete() || state2.isIncomplete() {
 		pp.labelTable(&combined.table, "Splice")
 		combined.table.epsilons = simplifySplices(state1, state2)
 		keyMemo[mKey] = combined
diff --git a/regexp_nfa.go b/regexp_nfa.go
index bc3d6c3..0ba5217 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -31,16 +31,16 @@ func makeRegexpNFA(root regexpRoot, pp printer) (*faState, *fieldMatcher) {
 	return &faState{table: startTable}, nextField
 }
 func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
-	// completely empty regexp
+	// completely empty regexp or ()-group
 	if len(root) == 0 {
-		return makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
+		return makeEmptyFA(nextStep, addQuoteTransition)
 	}
 	var fa smallTable
 	first := true
 	for _, branch := range root {
 		var nextBranch smallTable
 		if len(branch) == 0 {
-			nextBranch = makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
+			nextBranch = makeEmptyFA(nextStep, addQuoteTransition)
 			pp.labelTable(&nextBranch, "next on len 0")
 		} else {
 			nextBranch = faFromBranch(branch, nextStep, addQuoteTransition, pp)
@@ -55,6 +55,16 @@ func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition
 	return fa
 }
 
+// makeEmptyFA makes an FA which has nothing to match other than, if required, the quote at the start of the field
+func makeEmptyFA(nextStep *faState, addQuoteTransition bool) smallTable {
+	if addQuoteTransition {
+		return makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
+	}
+	table := newSmallTable()
+	table.epsilons = []*faState{nextStep}
+	return table
+}
+
 func faFromBranch(branch regexpBranch, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
 	state := faFromQuantifiedAtom(branch, 0, nextStep, pp)
 	table := state.table
@@ -80,11 +90,12 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 	switch {
 	case atom.isPlus():
 		// the + construction requires a loopback state in front of the state table
-		plusLoopback := &faState{table: newSmallTable()}
-		pp.labelTable(&plusLoopback.table, "PlusLoopback")
+		plusLoopback := &faState{}
 		state = &faState{table: atom.makeFA(plusLoopback, pp)}
 
 		// for the + case, need to loop back to the newly created state
+		plusLoopback.table = newSmallTable()
+		pp.labelTable(&plusLoopback.table, "PlusLoopback")
 		plusLoopback.table.epsilons = []*faState{nextState, state}
 
 	case atom.isStar():
@@ -133,23 +144,21 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 		}
 
 		shellTable := atom.makeFA(PlaceholderState, pp)
-		nextMinMaxStep := nextState
 
-		var lastState *faState
+		// there's a chain of the minimum-count steps, with the last one looping back
+		// to itself, just as for the + case
+		loopback := &faState{table: newSmallTable()}
+		pp.labelTable(&loopback.table, "MinimumLoopback")
+		nextMinMaxStep := loopback
 		for counter := atom.quantMin; counter > 0; counter-- {
 			stepTable := faFromShell(&shellTable, PlaceholderState, nextMinMaxStep)
 			pp.labelTable(&stepTable, fmt.Sprintf("minmax at %d", counter))
 			state = &faState{table: stepTable}
-
-			// there's a chain of the minimum-count steps, but the last one has to
-			// loop back to the first one, so we have to remember the last one
 			if counter == atom.quantMin {
-				lastState = state
+				loopback.table.epsilons = []*faState{nextState, state}
 			}
-
 			nextMinMaxStep = state
 		}
-		lastState.table.epsilons = append(lastState.table.epsilons, state)
 
 	default:
 		state = &faState{table: atom.makeFA(nextState, pp)}
diff --git a/rune_range.go b/rune_range.go
index ac0fe60..d1a537d 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -15,7 +15,7 @@ import (
 // Note that FAs are only built during AddPattern calls and these are single-threaded per
 // matcher, but there can be many matchers, so updates to the cache need a lock.
 
-var PlaceholderState *faState = &faState{table: newSmallTable()}
+var PlaceholderState *faState = &faState{}
 var cachedFaShells = make(map[string]smallTable)
 var cachedFaShellsLock sync.Mutex
 
-- 
2.43.0


From f6c2602c97efff987bb8d1360510658132e71fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 17/28] fix: matching time exponential in the length of the
 value

The list of current states was never rid of duplicates, and their number
can double with each byte.
---
 nfa.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/nfa.go b/nfa.go
index 9e92c63..c5da5b0 100644
--- a/nfa.go
+++ b/nfa.go
@@ -111,6 +111,7 @@ type nfaBuffers struct {
 	matches    *matchSet
 	transmap   *transmap
 	fieldSet   map[*fieldMatcher]bool
+	stateSet   map[*faState]bool
 	qNumBuf    [MaxBytesInEncoding]byte
 }
 
@@ -163,6 +164,22 @@ func (nb *nfaBuffers) getFieldSet() map[*fieldMatcher]bool {
 	return nb.fieldSet
 }
 
+// dedupStates removes the duplicates from states, in place
+func (nb *nfaBuffers) dedupStates(states []*faState) []*faState {
+	if nb.stateSet == nil {
+		nb.stateSet = make(map[*faState]bool)
+	}
+	clear(nb.stateSet)
+	distinct := states[:0]
+	for _, state := range states {
+		if !nb.stateSet[state] {
+			nb.stateSet[state] = true
+			distinct = append(distinct, state)
+		}
+	}
+	return distinct
+}
+
 // nfa2Dfa does what the name says. It relies upon epsilonClosure having been run on the start state
 func nfa2Dfa(nfaStart *faState) *faState {
 	// The start state always has a trivial epsilon closure (just itself), so we
@@ -275,6 +292,9 @@ func traverseDFA(start *faState, val []byte, transitions []*fieldMatcher) []*fie
 	return transitions
 }
 
+// minDedupSize is how many states there must be in a step of traverseNFA for it to be worth looking for duplicates
+const minDedupSize = 64
+
 // traverseNFA attempts efficient traversal of an NFA. Each step processes currentList, a list of the
 // automaton states currently active. For each element of the list, we compute its epsilon closure
 // and apply the current input byte to each state in the resulting list. The results, if any, are
@@ -302,6 +322,7 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 		fieldSet[fm] = true
 	}
 
+	dedupSize := minDedupSize
 	for index := 0; len(currentStates) != 0 && index <= len(val); index++ {
 		var utf8Byte byte
 		if index < len(val) {
@@ -330,6 +351,13 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 			}
 		}
 
+		// There can be many ways to get to a state, and the number of them can double with each
+		// input byte.
+		if len(nextStates) > dedupSize {
+			nextStates = bufs.dedupStates(nextStates)
+			dedupSize = max(minDedupSize, 2*len(nextStates))
+		}
+
 		// re-use these
 		swapStates := currentStates
 		currentStates = nextStates
-- 
2.43.0


From 4ac9dba5110fcb2803bc02b7a0d4d73558f85397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 18/28] fix: AddPattern time exponential in the length of a
 regexp

isNondeterministic walked every path of the automaton; the states of '.' are
shared, so AddPattern of a regexp like '............' did not finish.
---
 small_table.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/small_table.go b/small_table.go
index d956fc5..2922847 100644
--- a/small_table.go
+++ b/small_table.go
@@ -201,11 +201,21 @@ func (t *smallTable) addByteStep(utf8Byte byte, step *faState) {
 // FA-building time, but doing so and then sending the status over to the valueMatcher
 // turned out to be complex, as opposed to the following, which is not only simple but fast.
 func (t *smallTable) isNondeterministic() bool {
+	return t.hasEpsilons(make(map[*faState]bool))
+}
+
+// hasEpsilons visits each state only once: states are shared, so the number of paths through an automaton
+// can be exponential in its size
+func (t *smallTable) hasEpsilons(visited map[*faState]bool) bool {
 	if len(t.epsilons) > 0 {
 		return true
 	}
 	for _, step := range t.steps {
-		if step != nil && step.table.isNondeterministic() {
+		if step == nil || visited[step] {
+			continue
+		}
+		visited[step] = true
+		if step.table.hasEpsilons(visited) {
 			return true
 		}
 	}
-- 
2.43.0


From a6fb334d33ab2dcd4dba776f12b78a4e43fe88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 19/28] fix: AddPattern panicked on a character class with no
 characters

[^~p{L}~P{L}] is a valid regexp that nothing matches.
---
 quantified_atom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantified_atom.go b/quantified_atom.go
index 0793778..1f671d5 100644
--- a/quantified_atom.go
+++ b/quantified_atom.go
@@ -57,6 +57,9 @@ func (qa *quantifiedAtom) makeFA(nextStep *faState, pp printer) smallTable {
 		pp.labelTable(&table, "Dot")
 	case qa.getSubtree() != nil:
 		table = makeNFAFromBranches(qa.getSubtree(), nextStep, false, pp)
+	case len(qa.runes) == 0:
+		// a class such as [^~p{L}~P{L}] contains no runes at all, so nothing matches it
+		table = newSmallTable()
 	case qa.runeRangeCache() != "":
 		table = makeAndCacheRuneRangeFA(qa.runes, nextStep, qa.runeRangeCache(), pp)
 	default:
-- 
2.43.0


From fd5048edebd8251a273bcdd9407d93b7aba363d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 20/28] fix: AddPattern panicked on an empty object inside an
 array ({"a":[{}]})

---
 pattern.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index cfbf314..19c3d15 100644
--- a/pattern.go
+++ b/pattern.go
@@ -192,8 +192,12 @@ func readSpecialPattern(pb *patternBuild, valsIn []typedVal) (pathVals []typedVa
 		return
 	}
 
-	// tokenizer will throw an error if it's not a string
-	tt := t.(string)
+	// tokenizer will throw an error if it's neither a string nor the } of an empty object
+	tt, ok := t.(string)
+	if !ok {
+		err = errors.New("empty object in pattern")
+		return
+	}
 	switch tt {
 	case "anything-but":
 		containsExclusive = tt
-- 
2.43.0


From 268a732ffc96132def338ba1bf5ceed9a94a825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 21/28] fix: regexps truncated inside a class, property or
 quantifier were accepted

---
 regexp_reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/regexp_reader.go b/regexp_reader.go
index e005c67..dfc15c7 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -122,6 +122,7 @@ func (fc *regexpFeatureChecker) foundUnimplemented() []regexpFeature {
 }
 
 var errRegexpEOF = errors.New("end of string")
+var errRegexpTruncated = errors.New("regular expression ends inside a character class, property or quantifier")
 var errRegexpStuck = errors.New("unable to move forward")
 
 // regexps are anchored by definition, i.e. behave as if they began with ^ and ended with $
@@ -220,7 +221,13 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 func readPiece(parse *regexpParse) (*quantifiedAtom, error) {
 	var err error
 	var nextQA *quantifiedAtom
+	if parse.isEmpty() {
+		return nil, errRegexpEOF
+	}
 	nextQA, err = readAtom(parse)
+	if errors.Is(err, errRegexpEOF) {
+		return nil, errRegexpTruncated
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -232,6 +239,9 @@ func readPiece(parse *regexpParse) (*quantifiedAtom, error) {
 	if (err == nil) || errors.Is(err, errRegexpStuck) {
 		return nextQA, nil
 	}
+	if errors.Is(err, errRegexpEOF) {
+		return nil, errRegexpTruncated
+	}
 	return nil, err
 }
 
-- 
2.43.0


From 32365305e3c563749d659458603cd69d0b2d7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 22/28] fix: characters above U+10FFF could not be used in a
 regexp character class

---
 regexp_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index dfc15c7..7200230 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -449,7 +449,7 @@ func isCCchar(r rune) bool {
 	if r >= 0x5e && r <= 0xd7ff {
 		return true
 	}
-	if r >= 0xe000 && r <= 0x10fff {
+	if r >= 0xe000 && r <= 0x10ffff {
 		return true
 	}
 	if r == '\\' {
-- 
2.43.0


From b5f4122ddb4a264812ea9231274ca5d2e31312c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 23/28] fix: negated character classes that end at U+10FFFE
 left out U+10FFFF

---
 rune_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rune_range.go b/rune_range.go
index d1a537d..0c4f14a 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -142,7 +142,7 @@ func InvertRuneRange(rr RuneRange) RuneRange {
 		}
 		point = pair.Hi + 1
 	}
-	if point < runeMax {
+	if point <= runeMax {
 		inverted = append(inverted, RunePair{point, runeMax})
 	}
 	return inverted
-- 
2.43.0


From 3a854c2a108f99752deb7ea4f55abc30116640fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 24/28] fix: negated character classes with a trailing hyphen
 inside an earlier range matched most of that range

---
 regexp_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 7200230..8f19b2a 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -383,7 +383,7 @@ func readCharClassExpr(parse *regexpParse) (RuneRange, error) {
 	}
 	trailingHyphen, _ := parse.bypassOptional('-') // already probed
 	if trailingHyphen {
-		rr = append(rr, RunePair{Lo: '-', Hi: '-'})
+		rr = simplifyRuneRange(append(rr, RunePair{Lo: '-', Hi: '-'}))
 	}
 	if err = parse.require(']'); err != nil {
 		return nil, err
-- 
2.43.0


From 648f3f1a7207fbf83a44c83626c874f83634ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 25/28] fix: a newline in a member name was taken for a step
 into a nested object

---
 pattern.go       |  2 +-
 segments_tree.go | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index 19c3d15..2082681 100644
--- a/pattern.go
+++ b/pattern.go
@@ -95,7 +95,7 @@ func readPatternObject(pb *patternBuild) error {
 
 		switch tt := t.(type) {
 		case string:
-			pb.path = append(pb.path, tt)
+			pb.path = append(pb.path, string(pathSegment([]byte(tt))))
 			err = readPatternMember(pb)
 			if err != nil {
 				return err
diff --git a/segments_tree.go b/segments_tree.go
index 009d29d..4ff1344 100644
--- a/segments_tree.go
+++ b/segments_tree.go
@@ -1,12 +1,25 @@
 package quamina
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 )
 
 const SegmentSeparator = "\n"
 
+// separatorInName stands in paths for a SegmentSeparator which is part of a member name. It can't be
+// confused with anything else in the name, because it is a byte which UTF-8 doesn't use.
+const separatorInName = "\xff"
+
+// pathSegment turns a member name into the form it has in paths
+func pathSegment(name []byte) []byte {
+	if bytes.IndexByte(name, SegmentSeparator[0]) == -1 {
+		return name
+	}
+	return bytes.ReplaceAll(name, []byte(SegmentSeparator), []byte(separatorInName))
+}
+
 // segmentsTree implements the SegmentsTreeTracker interface, and includes other calls used by
 // the AddPattern() code to load up the tree tracker.
 type segmentsTree struct {
@@ -85,7 +98,7 @@ func (p *segmentsTree) addSegment(segment string, path []byte) {
 
 // Get implements SegmentsTreeTracker
 func (p *segmentsTree) Get(name []byte) (SegmentsTreeTracker, bool) {
-	n, ok := p.nodes[string(name)]
+	n, ok := p.nodes[string(pathSegment(name))]
 	return n, ok
 }
 
@@ -100,6 +113,7 @@ func (p *segmentsTree) IsSegmentUsed(segment []byte) bool {
 	// "context" / "user" are nodes, while "id" is a field
 	// As a result a segment can be both node and field, we need to check
 	// in both maps.
+	segment = pathSegment(segment)
 	_, isField := p.fields[string(segment)]
 	if isField {
 		return true
@@ -110,7 +124,7 @@ func (p *segmentsTree) IsSegmentUsed(segment []byte) bool {
 
 // PathForSegment implements SegmentsTreeTracker
 func (p *segmentsTree) PathForSegment(segment []byte) []byte {
-	return p.fields[string(segment)]
+	return p.fields[string(pathSegment(segment))]
 }
 
 // NodesCount implements SegmentsTreeTracker
-- 
2.43.0


From 4a1cb9ed768aa30bb4d8bf7892bd87ba2110d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 26/28] fix: the value of a member that patterns only look
 inside was taken for a member named ""

---
 flatten_json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 419d20e..31ca3c0 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -853,6 +853,9 @@ func (fj *flattenJSON) readHexUTF16(from int) ([]byte, int, error) {
 // its own snapshot of the array-trail data, because it'll be different for each array element.
 // Uses batch allocation via arrayPosBuffer to avoid per-element allocations.
 func (fj *flattenJSON) storeArrayElementField(path []byte, val []byte, isNumber bool) {
+	if path == nil {
+		return // patterns only have fields further down
+	}
 	start := len(fj.arrayPosBuffer)
 	fj.arrayPosBuffer = append(fj.arrayPosBuffer, fj.arrayTrail...)
 	f := Field{
@@ -865,6 +868,9 @@ func (fj *flattenJSON) storeArrayElementField(path []byte, val []byte, isNumber
 }
 
 func (fj *flattenJSON) storeObjectMemberField(path []byte, arrayTrail []ArrayPos, val []byte, isNumber bool) {
+	if path == nil {
+		return // patterns only have fields further down
+	}
 	fj.fields = append(fj.fields, Field{Path: path, ArrayTrail: arrayTrail, Val: val, IsNumber: isNumber})
 }
 
-- 
2.43.0


From 3027db8915cff81981ce84525792ddbffad412d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 27/28] fix: the number -0 did not equal 0

---
 numbits.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/numbits.go b/numbits.go
index e69a364..9ec3a26 100644
--- a/numbits.go
+++ b/numbits.go
@@ -14,12 +14,15 @@ import (
 // that an equivalent representation was used long ago in the disk format of DB2.
 //
 // Arne's implementation carefully handled NaN, -0, and infinities, but
-// Quamina ignores those issues because a combination of JSON rules and
+// Quamina ignores NaN and infinities because a combination of JSON rules and
 // Quamina's parsers prevent those values from occurring.
 type numbits uint64
 
 // numbitsFromFloat64 converts a float64 value to its numbits representation.
 func numbitsFromFloat64(f float64) numbits {
+	if f == 0 {
+		f = 0 // JSON numbers can be -0, which equals 0
+	}
 	u := math.Float64bits(f)
 	//nolint:gosec // disable G115
 	// transform without branching:
-- 
2.43.0


From 2079b2e714be9b400294c10e7e3d546d8e4c90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 28/28] fix: equals-ignore-case missed some forms of characters
 which have more than two

---
 monocase.go | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/monocase.go b/monocase.go
index 68a41bf..b5262ee 100644
--- a/monocase.go
+++ b/monocase.go
@@ -3,6 +3,7 @@ package quamina
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"unicode/utf8"
 )
 
@@ -29,6 +30,36 @@ func readMonocaseSpecial(pb *patternBuild, valsIn []typedVal) (pathVals []typedV
 	return
 }
 
+// caseFoldingExtras has the characters which caseFoldingPairs maps to the given one, but not the other way
+var caseFoldingExtras = func() map[rune][]rune {
+	extras := make(map[rune][]rune)
+	for from, to := range caseFoldingPairs {
+		if caseFoldingPairs[to] != from {
+			extras[to] = append(extras[to], from)
+		}
+	}
+	return extras
+}()
+
+// caseFoldingAlternatives returns all the characters, r first, which case folding doesn't tell from r
+func caseFoldingAlternatives(r rune) []rune {
+	alternatives := []rune{r}
+	add := func(r rune) {
+		if !slices.Contains(alternatives, r) {
+			alternatives = append(alternatives, r)
+		}
+	}
+	for i := 0; i < len(alternatives); i++ {
+		if pair, ok := caseFoldingPairs[alternatives[i]]; ok {
+			add(pair)
+		}
+		for _, extra := range caseFoldingExtras[alternatives[i]] {
+			add(extra)
+		}
+	}
+	return alternatives
+}
+
 // makeMonocaseFA builds a FA to match "ignore-case" patterns. The Unicode Standard specifies algorithm 3.13,
 // relying on the file CaseFolding.txt in the Unicode Character Database. This function uses the "Simple" flavor
 // of casefolding, i.e. the lines in CaseFolding.txt that are marked with "C". The discussion in the Unicode
@@ -50,14 +81,20 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 		var orig, alt []byte
 		r, width := utf8.DecodeRune(val[index:])
 		orig = val[index : index+width]
-		altRune, ok := caseFoldingPairs[r]
-		if ok {
-			alt = make([]byte, utf8.RuneLen(altRune))
-			utf8.EncodeRune(alt, altRune)
+		folded := caseFoldingAlternatives(r)
+		if len(folded) == 2 {
+			alt = utf8.AppendRune(nil, folded[1])
 		}
 		nextStep = &faState{table: newSmallTable()}
 		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, alt=%v", val[index], alt))
-		if alt == nil {
+		if len(folded) > 2 {
+			// a few characters, for example k and the Kelvin sign, have more than one other form
+			var rr RuneRange
+			for _, f := range folded {
+				rr = append(rr, RunePair{Lo: f, Hi: f})
+			}
+			*currentTable = makeRuneRangeNFA(rr, nextStep, pp)
+		} else if alt == nil {
 			// easy case, no casefolding issues.  We should maybe try to coalesce these
 			// no-casefolding sections and only call makeFAFragment once for all of them
 			origFA := makeFAFragment(orig, nextStep, pp)
-- 
2.43.0

