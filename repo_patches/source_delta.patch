From 080af65b96c2a882105f8fac73c897225575221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 01/70] fix: track repetition numbers per repeat, not per part

Nested repeats overwrote the repetition number of the repeat around them, and
an event with repetition numbers was added once per current part instead of
once.
---
 client/model/part.go        |  6 ------
 client/model/repeat.go      | 14 ++++++++++----
 client/model/repetitions.go | 10 +++-------
 client/model/score.go       |  6 ++++++
 4 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/client/model/part.go b/client/model/part.go
index a925f04..d7e5c20 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -72,11 +72,6 @@ type Part struct {
 	// change with a local attribute change just for that part, at the exact same
 	// offset.
 	localAttributeOverride PartUpdate
-	// Used for conditionally playing or not playing an event based on how many
-	// times through a repeated sequence the part has played so far.
-	//
-	// See repetitions.go.
-	currentRepetition int32
 	// A snapshot copy of the part at the point in time when a voice group starts.
 	// This is used as a template for each new voice.
 	voiceTemplate *Part
@@ -142,7 +137,6 @@ func (part *Part) Clone() *Part {
 	clone := deepcopy.Copy(part).(*Part)
 
 	// Instead, we manually copy the fields here.
-	clone.currentRepetition = part.currentRepetition
 	clone.origin = part.origin
 	clone.voiceTemplate = part.voiceTemplate
 	clone.voices = part.voices
diff --git a/client/model/repeat.go b/client/model/repeat.go
index d30d53f..eea6a42 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -31,10 +31,13 @@ func (repeat Repeat) JSON() *json.Container {
 // UpdateScore implements ScoreUpdate.UpdateScore by repeatedly updating the
 // score with an event a specified number of times.
 func (repeat Repeat) UpdateScore(score *Score) error {
+	// The repetition number of an enclosing repeat (if any) applies again once
+	// this repeat is done.
+	enclosingRepetition := score.currentRepetition
+	defer func() { score.currentRepetition = enclosingRepetition }()
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
-		for _, part := range score.CurrentParts {
-			part.currentRepetition = repetition
-		}
+		score.currentRepetition = repetition
 
 		if err := score.Update(repeat.Event); err != nil {
 			return err
@@ -49,8 +52,11 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 func (repeat Repeat) DurationMs(part *Part) float64 {
 	durationMs := 0.0
 
+	enclosingRepetition := part.score.currentRepetition
+	defer func() { part.score.currentRepetition = enclosingRepetition }()
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
-		part.currentRepetition = repetition
+		part.score.currentRepetition = repetition
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index e2d98f6..9bafefe 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -61,12 +61,8 @@ func (or OnRepetitions) AppliesTo(repetition int32) bool {
 // with the event or doing nothing, depending on whether or not we are currently
 // on a relevant repetition.
 func (or OnRepetitions) UpdateScore(score *Score) error {
-	for _, part := range score.CurrentParts {
-		if or.AppliesTo(part.currentRepetition) {
-			if err := score.Update(or.Event); err != nil {
-				return err
-			}
-		}
+	if or.AppliesTo(score.currentRepetition) {
+		return score.Update(or.Event)
 	}
 
 	return nil
@@ -75,7 +71,7 @@ func (or OnRepetitions) UpdateScore(score *Score) error {
 // DurationMs implements ScoreUpdate.DurationMs by returning the duration of the
 // event on the current repetition.
 func (or OnRepetitions) DurationMs(part *Part) float64 {
-	if or.AppliesTo(part.currentRepetition) {
+	if or.AppliesTo(part.score.currentRepetition) {
 		return or.Event.DurationMs(part)
 	}
 
diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..ee510dc 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -59,6 +59,12 @@ type Score struct {
 	// When true, notes/rests added to the score are placed at the same offset.
 	// Otherwise, they are appended sequentially.
 	chordMode bool
+	// The number of the current repetition of the innermost repeat that we are
+	// in, or 0 if we aren't in one. Used for conditionally playing or not playing
+	// an event based on how many times through a repeated sequence we are.
+	//
+	// See repetitions.go.
+	currentRepetition int32
 }
 
 // JSON implements RepresentableAsJSON.JSON.
-- 
2.43.0


From faef1e79d2784b42d8cbc4b71987587a2c36e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 02/70] fix: fit a cram exactly when its events change the
 tempo or default duration

Tallying the inner duration of a cram ignored attribute changes inside it, and
ignored that a nested cram's duration becomes the default duration, so the
events did not add up to the duration of the cram.
---
 client/model/attributes.go | 7 +++++++
 client/model/cram.go       | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..55af686 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -47,7 +47,14 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 
 // DurationMs implements ScoreUpdate.DurationMs by returning 0, since an
 // attribute update is conceptually instantaneous.
+//
+// Also updates the attribute of the part, so that e.g. tempo and default
+// duration changes are correctly considered when tallying the duration of
+// subsequent events.
 func (au AttributeUpdate) DurationMs(part *Part) float64 {
+	// If there is an error, it will be returned when we come back through for
+	// UpdateScore, so we can safely ignore it here.
+	_ = au.PartUpdate.updatePart(part, false)
 	return 0
 }
 
diff --git a/client/model/cram.go b/client/model/cram.go
index 13809c9..bd1cca6 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -135,8 +135,13 @@ func (cram Cram) UpdateScore(score *Score) error {
 // DurationMs implements ScoreUpdate.DurationMs by returning the effective
 // duration of the Cram expression, i.e. either the specified duration of the
 // Cram expression or the part's default duration.
+//
+// Also updates the part's default duration, so that it can be correctly
+// considered when tallying the duration of subsequent events.
 func (cram Cram) DurationMs(part *Part) float64 {
-	return effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	durationMs := effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	updateDefaultDuration(part, cram.Duration)
+	return durationMs
 }
 
 // VariableValue implements ScoreUpdate.VariableValue by returning a version of
-- 
2.43.0


From 435bdd40d745d3d70bf59202b53a49219dfcefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 03/70] fix: accept tabs, comments and barlines right after any
 element

A tab after a note letter, an octave, a repeat or a length in seconds was
rejected, as were a barline or comment there and a closing bracket after an
octave.
---
 client/parser/scanner.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b4434e0..5a46169 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -352,7 +352,7 @@ type noteLength struct {
 
 func terminatesNoteLength(c rune) bool {
 	switch c {
-	case ' ', '\r', '\n', '/', '~', ']', '}':
+	case ' ', '\t', '\r', '\n', '/', '~', ']', '}', '*', '\'', '|', '#', '<', '>':
 		return true
 	}
 
@@ -477,8 +477,11 @@ func (s *scanner) parseRepeat() error {
 	s.consumeDigits()
 
 	if c := s.peek(); c != ' ' &&
+		c != '\t' &&
 		c != '\r' &&
 		c != '\n' &&
+		c != '|' &&
+		c != '#' &&
 		c != ']' &&
 		c != '}' &&
 		!s.reachedEOF() {
@@ -497,7 +500,15 @@ func (s *scanner) parseOctaveSet() error {
 
 	s.consumeDigits()
 
-	if c := s.peek(); c != ' ' && c != '\r' && c != '\n' && !s.reachedEOF() {
+	if c := s.peek(); c != ' ' &&
+		c != '\t' &&
+		c != '\r' &&
+		c != '\n' &&
+		c != '|' &&
+		c != '#' &&
+		c != ']' &&
+		c != '}' &&
+		!s.reachedEOF() {
 		return s.unexpectedCharError(c, "in octave set", s.line, s.column)
 	}
 
@@ -630,8 +641,8 @@ func followsNoteLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']', '<',
-		'>':
+	case '#', ' ', '\t', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']',
+		'<', '>', '|':
 		return true
 	}
 
@@ -644,7 +655,7 @@ func followsRestLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>':
+	case '#', ' ', '\t', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>', '|':
 		return true
 	}
 
-- 
2.43.0


From 9c2ad6af772ff250edef84ff169f5d696edb8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 04/70] fix: report invalid characters in an alias

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 5a46169..91f2f97 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -582,7 +582,7 @@ func (s *scanner) parseAlias() error {
 	}
 
 	if c := s.peek(); c != '"' {
-		s.unexpectedCharError(c, "in alias", s.line, s.column)
+		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
 	// Consume the closing ".
-- 
2.43.0


From 929974ffafc5f57ac70eec1c788f87865192c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 05/70] fix: report an empty cram expression instead of
 panicking

---
 client/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..77f9de9 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -900,6 +900,10 @@ func (p *parser) cram() (ASTNode, error) {
 		return ASTNode{}, err
 	}
 
+	if len(allEvents) == 0 {
+		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
+	}
+
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
 		SourceContext: allEvents[0].SourceContext,
-- 
2.43.0


From 1b588c4f789144eb67618f3003defed0120bb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 06/70] fix: play a note or chord repeated zero times zero
 times

c*0 played once, unlike [c]*0.
---
 client/parser/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 77f9de9..8e4dcad 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -705,9 +705,8 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		times         int32
 	}
 
-	// We're essentially using this as a nil value. Below, we check whether
-	// `repeat.times` > 0, which will be true if we don't reassign `repeat`.
-	repeat := maybeRepeat{}
+	// This is nil unless there is a repeat operator.
+	var repeat *maybeRepeat
 
 	for {
 		noteOrRest, err := p.noteOrRest()
@@ -717,7 +716,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 
 		if token, matched := p.match(Repeat); matched {
 			allNodes = append(allNodes, noteOrRest)
-			repeat = maybeRepeat{
+			repeat = &maybeRepeat{
 				sourceContext: p.sourceContext(token),
 				times:         token.literal.(int32),
 			}
@@ -794,7 +793,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		}
 	}
 
-	if repeat.times > 0 {
+	if repeat != nil {
 		if len(allNodes) != 1 {
 			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
 		}
-- 
2.43.0


From a8b5c89c013f19cc96ad38b6a1556123a3e80289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 07/70] fix: let every local attribute change override a global
 one

---
 client/model/attributes.go | 12 ++++++++----
 client/model/part.go       | 15 +++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index 55af686..f7cf637 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -39,7 +39,10 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 		// This is so that we can track the case where a local attribute change is
 		// applied at the exact same time as a global attribute change, and we want
 		// the local attribute change to take precedence.
-		part.localAttributeOverride = au.PartUpdate
+		if part.localAttributeOverrides == nil {
+			part.localAttributeOverrides = map[reflect.Type]PartUpdate{}
+		}
+		part.localAttributeOverrides[reflect.TypeOf(au.PartUpdate)] = au.PartUpdate
 	}
 
 	return nil
@@ -149,11 +152,12 @@ func (score *Score) ApplyGlobalAttributes() error {
 		for _, update := range score.GlobalAttributes.InWindow(
 			part.LastOffset, part.CurrentOffset,
 		) {
-			if reflect.TypeOf(part.localAttributeOverride) == reflect.TypeOf(update) {
+			localUpdate, hit := part.localAttributeOverrides[reflect.TypeOf(update)]
+			if hit {
 				log.Debug().
 					Str("part", part.Name).
 					Interface("globalUpdate", update).
-					Interface("localUpdate", part.localAttributeOverride).
+					Interface("localUpdate", localUpdate).
 					Msg("Skipping global attribute update. " +
 						"Overridden by local attribute update.")
 			} else {
@@ -168,7 +172,7 @@ func (score *Score) ApplyGlobalAttributes() error {
 			}
 		}
 
-		part.localAttributeOverride = nil
+		part.localAttributeOverrides = nil
 	}
 
 	return nil
diff --git a/client/model/part.go b/client/model/part.go
index d7e5c20..472459d 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
 
 	"alda.io/client/json"
@@ -68,10 +69,10 @@ type Part struct {
 	// A map of offset to the tempo value that should be applied at that offset.
 	// See *Part.RecordTempoValue.
 	TempoValues map[float64]float64
-	// Used in order to track the case where a part overrides a global attribute
-	// change with a local attribute change just for that part, at the exact same
-	// offset.
-	localAttributeOverride PartUpdate
+	// Used in order to track the case where a part overrides global attribute
+	// changes with local attribute changes just for that part, at the exact same
+	// offset. There is one entry per type of attribute change.
+	localAttributeOverrides map[reflect.Type]PartUpdate
 	// A snapshot copy of the part at the point in time when a voice group starts.
 	// This is used as a template for each new voice.
 	voiceTemplate *Part
@@ -138,6 +139,12 @@ func (part *Part) Clone() *Part {
 
 	// Instead, we manually copy the fields here.
 	clone.origin = part.origin
+	if part.localAttributeOverrides != nil {
+		clone.localAttributeOverrides = map[reflect.Type]PartUpdate{}
+		for attributeType, update := range part.localAttributeOverrides {
+			clone.localAttributeOverrides[attributeType] = update
+		}
+	}
 	clone.voiceTemplate = part.voiceTemplate
 	clone.voices = part.voices
 	clone.score = part.score
-- 
2.43.0


From dd5f978c8349479fb3c6bbe50d2fb110e414f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 08/70] fix: treat V0: as the end of the voice group wherever
 it occurs

---
 client/model/voice.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client/model/voice.go b/client/model/voice.go
index 8a15214..1b969f5 100644
--- a/client/model/voice.go
+++ b/client/model/voice.go
@@ -93,6 +93,15 @@ func (vm VoiceMarker) UpdateScore(score *Score) error {
 		Int32("VoiceNumber", vm.VoiceNumber).
 		Msg("Voice marker")
 
+	// "V0:" ends the voice group, including when it isn't preceded by another
+	// voice in the same input, e.g. because the voice group was started by an
+	// earlier REPL input.
+	if vm.VoiceNumber == 0 {
+		return VoiceGroupEndMarker{SourceContext: vm.SourceContext}.UpdateScore(
+			score,
+		)
+	}
+
 	for _, part := range score.CurrentParts {
 		voice := part.GetVoice(vm.VoiceNumber)
 
-- 
2.43.0


From c07673f1a715f58e581c558632d39ee4b5d2616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 09/70] fix: consider tempo changes in nested crams when
 fitting a cram

---
 client/model/cram.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/client/model/cram.go b/client/model/cram.go
index bd1cca6..affcc88 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -136,11 +136,19 @@ func (cram Cram) UpdateScore(score *Score) error {
 // duration of the Cram expression, i.e. either the specified duration of the
 // Cram expression or the part's default duration.
 //
-// Also updates the part's default duration, so that it can be correctly
-// considered when tallying the duration of subsequent events.
+// Also updates the part's default duration and the attributes that are changed
+// inside of the Cram expression, so that they can be correctly considered when
+// tallying the duration of subsequent events.
 func (cram Cram) DurationMs(part *Part) float64 {
 	durationMs := effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+
+	previousDuration := part.Duration
+	for _, event := range cram.Events {
+		event.DurationMs(part)
+	}
+	part.Duration = previousDuration
 	updateDefaultDuration(part, cram.Duration)
+
 	return durationMs
 }
 
-- 
2.43.0


From 4521bae61c25c98336fb97f847b90e70ba11ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 10/70] fix: report an empty S-expression or quote instead of
 panicking

---
 client/model/lisp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..383d6e6 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,10 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	if len(l.Elements) == 0 {
+		return nil, sourceError(fmt.Errorf("an S-expression can't be empty"))
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,10 +1684,10 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
-			return nil, fmt.Errorf(
+		if len(l.Elements[1:]) != 1 {
+			return nil, sourceError(fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
-			)
+			))
 		}
 
 		return l.Elements[1], nil
-- 
2.43.0


From 7d3a238b47a6bbc272d7faf7ceb8f21ed180b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 11/70] fix: reject trailing garbage and zero in note length
 strings

---
 client/model/lisp.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 383d6e6..5e6377c 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -537,11 +537,17 @@ func noteLength(str string) (NoteLength, error) {
 
 	// At this point, we should be at the end of the string. If there's anything
 	// left over, consider the string invalid.
-	if i < len(chars)-1 {
+	if i < len(chars) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
-	return NoteLength{Denominator: denominator, Dots: int32(dots)}, nil
+	noteLength := NoteLength{Denominator: denominator, Dots: int32(dots)}
+
+	if err := noteLength.Validate(); err != nil {
+		return NoteLength{}, err
+	}
+
+	return noteLength, nil
 }
 
 func duration(form LispForm) (Duration, error) {
-- 
2.43.0


From 0c16728c827c145a17f44a12feb0845679c83fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 12/70] fix: accept positive numbers less than one, e.g.
 (set-duration 0.5)

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 5e6377c..74c1f62 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -418,7 +418,7 @@ func defattribute(names []string, signatures ...attributeFunctionSignature) {
 func positiveNumber(form LispForm) (float64, error) {
 	number := form.(LispNumber)
 
-	if number.Value < 1 {
+	if number.Value <= 0 {
 		return 0, &AldaSourceError{
 			Context: number.SourceContext,
 			Err:     fmt.Errorf("expected positive number, got %f", number.Value),
-- 
2.43.0


From db7cc977077bbb80b859c93a08db0ccef179e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 13/70] fix: reject key signature letters that are longer than
 a letter

---
 client/model/lisp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 74c1f62..b5217eb 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -735,6 +735,10 @@ func keySignatureFromAccidentals(forms []LispForm) (KeySignature, error) {
 		switch form := forms[i]; form.(type) {
 		case LispSymbol:
 			chars := []rune(form.(LispSymbol).Name)
+			if len(chars) != 1 {
+				return KeySignature{}, validityError
+			}
+
 			ltr, err := NewNoteLetter(chars[0])
 			if err != nil {
 				return KeySignature{}, err
-- 
2.43.0


From 614391dff4f627e045d46fb74b8dfe4ca2f1d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 14/70] fix: reject a duration without any note lengths

---
 client/model/lisp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index b5217eb..81f356f 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1241,6 +1241,12 @@ func init() {
 		FunctionSignature{
 			ArgumentTypes: []LispForm{LispVariadic{LispDuration{}}},
 			Implementation: func(args ...LispForm) (LispForm, error) {
+				if len(args) == 0 {
+					return nil, fmt.Errorf(
+						"expected at least one note length, got no arguments",
+					)
+				}
+
 				duration := Duration{}
 
 				for _, arg := range args {
-- 
2.43.0


From 36bf7c532908268dbf673df181fd57c5d94f2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 15/70] fix: don't let an extreme octave or transposition wrap
 around to another note

---
 client/model/pitch.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/client/model/pitch.go b/client/model/pitch.go
index c541064..6a2eb0f 100644
--- a/client/model/pitch.go
+++ b/client/model/pitch.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 
 	"alda.io/client/json"
 )
@@ -164,8 +165,10 @@ func (laa LetterAndAccidentals) JSON() *json.Container {
 func (laa LetterAndAccidentals) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	baseMidiNoteNumber := ((octave + 1) * 12) +
-		NoteLetterIntervals[laa.NoteLetter]
+	// 64-bit arithmetic, so that an extreme octave or transposition can't wrap
+	// around and yield some other, valid MIDI note.
+	baseMidiNoteNumber := ((int64(octave) + 1) * 12) +
+		int64(NoteLetterIntervals[laa.NoteLetter])
 
 	var accidentals []Accidental
 	if laa.Accidentals == nil {
@@ -183,7 +186,19 @@ func (laa LetterAndAccidentals) CalculateMidiNote(
 		}
 	}
 
-	return baseMidiNoteNumber + transposition
+	return clampToInt32(baseMidiNoteNumber + int64(transposition))
+}
+
+func clampToInt32(n int64) int32 {
+	if n < math.MinInt32 {
+		return math.MinInt32
+	}
+
+	if n > math.MaxInt32 {
+		return math.MaxInt32
+	}
+
+	return int32(n)
 }
 
 // MidiNoteNumber specifies a pitch as a MIDI note number.
@@ -201,5 +216,5 @@ func (mnn MidiNoteNumber) JSON() *json.Container {
 func (mnn MidiNoteNumber) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	return mnn.MidiNote + transposition
+	return clampToInt32(int64(mnn.MidiNote) + int64(transposition))
 }
-- 
2.43.0


From 31ebbed15a58c2c3283bef604282a9d1d8db6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 16/70] fix: report an error inside a cram, chord or variable
 at the event that caused it

---
 client/model/chord.go          |  4 ++--
 client/model/cram.go           |  8 +++-----
 client/model/event_sequence.go |  2 +-
 client/model/repeat.go         |  2 +-
 client/model/repetitions.go    |  2 +-
 client/model/variable.go       | 23 ++++++++++++++---------
 6 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/client/model/chord.go b/client/model/chord.go
index af8363f..c735bf8 100644
--- a/client/model/chord.go
+++ b/client/model/chord.go
@@ -71,7 +71,7 @@ func (chord Chord) UpdateScore(score *Score) error {
 
 		// Now, we update the score with the event, in "chord mode," which means
 		// that notes all start at the same offset.
-		if err := event.UpdateScore(score); err != nil {
+		if err := score.Update(event); err != nil {
 			return err
 		}
 	}
@@ -112,7 +112,7 @@ func (chord Chord) VariableValue(score *Score) (ScoreUpdate, error) {
 	result.Events = []ScoreUpdate{}
 
 	for _, event := range chord.Events {
-		eventValue, err := event.VariableValue(score)
+		eventValue, err := capturedValue(event, score)
 		if err != nil {
 			return nil, err
 		}
diff --git a/client/model/cram.go b/client/model/cram.go
index affcc88..3ff7367 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -110,10 +110,8 @@ func (cram Cram) UpdateScore(score *Score) error {
 		part.TimeScale = timeScale
 	}
 
-	for _, event := range cram.Events {
-		if err := event.UpdateScore(score); err != nil {
-			return err
-		}
+	if err := score.Update(cram.Events...); err != nil {
+		return err
 	}
 
 	for _, part := range score.CurrentParts {
@@ -159,7 +157,7 @@ func (cram Cram) VariableValue(score *Score) (ScoreUpdate, error) {
 	result.Events = []ScoreUpdate{}
 
 	for _, event := range cram.Events {
-		eventValue, err := event.VariableValue(score)
+		eventValue, err := capturedValue(event, score)
 		if err != nil {
 			return nil, err
 		}
diff --git a/client/model/event_sequence.go b/client/model/event_sequence.go
index a4f57e8..47bbfef 100644
--- a/client/model/event_sequence.go
+++ b/client/model/event_sequence.go
@@ -55,7 +55,7 @@ func (es EventSequence) VariableValue(score *Score) (ScoreUpdate, error) {
 	result.Events = []ScoreUpdate{}
 
 	for _, event := range es.Events {
-		eventValue, err := event.VariableValue(score)
+		eventValue, err := capturedValue(event, score)
 		if err != nil {
 			return nil, err
 		}
diff --git a/client/model/repeat.go b/client/model/repeat.go
index eea6a42..2868887 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -68,7 +68,7 @@ func (repeat Repeat) DurationMs(part *Part) float64 {
 func (repeat Repeat) VariableValue(score *Score) (ScoreUpdate, error) {
 	result := deepcopy.Copy(repeat).(Repeat)
 
-	eventValue, err := repeat.Event.VariableValue(score)
+	eventValue, err := capturedValue(repeat.Event, score)
 
 	if err != nil {
 		return nil, err
diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index 9bafefe..79e4436 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -83,7 +83,7 @@ func (or OnRepetitions) DurationMs(part *Part) float64 {
 func (or OnRepetitions) VariableValue(score *Score) (ScoreUpdate, error) {
 	result := deepcopy.Copy(or).(OnRepetitions)
 
-	eventValue, err := or.Event.VariableValue(score)
+	eventValue, err := capturedValue(or.Event, score)
 
 	if err != nil {
 		return nil, err
diff --git a/client/model/variable.go b/client/model/variable.go
index 42e99ab..de93c21 100644
--- a/client/model/variable.go
+++ b/client/model/variable.go
@@ -29,6 +29,17 @@ func (score *Score) SetVariable(name string, value []ScoreUpdate) {
 	score.Variables[name] = value
 }
 
+// capturedValue returns the value that is captured when an event is part of a
+// variable definition. An error is reported at the position of the event.
+func capturedValue(event ScoreUpdate, score *Score) (ScoreUpdate, error) {
+	value, err := event.VariableValue(score)
+	if err != nil {
+		return nil, &AldaSourceError{Context: event.GetSourceContext(), Err: err}
+	}
+
+	return value, nil
+}
+
 // A VariableDefinition stores a sequence of ScoreUpdates, using the provided
 // variable name as a lookup key.
 type VariableDefinition struct {
@@ -60,7 +71,7 @@ func (vd VariableDefinition) UpdateScore(score *Score) error {
 	eventValues := []ScoreUpdate{}
 
 	for _, event := range vd.Events {
-		eventValue, err := event.VariableValue(score)
+		eventValue, err := capturedValue(event, score)
 		if err != nil {
 			return err
 		}
@@ -86,7 +97,7 @@ func (vd VariableDefinition) VariableValue(score *Score) (ScoreUpdate, error) {
 	result.Events = []ScoreUpdate{}
 
 	for _, event := range vd.Events {
-		eventValue, err := event.VariableValue(score)
+		eventValue, err := capturedValue(event, score)
 		if err != nil {
 			return nil, err
 		}
@@ -132,13 +143,7 @@ func (vr VariableReference) UpdateScore(score *Score) error {
 		Interface("events", events).
 		Msg("Dereferenced variable.")
 
-	for _, event := range events {
-		if err := event.UpdateScore(score); err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return score.Update(events...)
 }
 
 // DurationMs implements ScoreUpdate.DurationMs by looking up the sequence of
-- 
2.43.0


From 62302260fa2cd12e13c4496fc9a546a42363c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 17/70] fix: keep a slur next to its note when its duration
 ends in several barlines

---
 client/parser/format.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client/parser/format.go b/client/parser/format.go
index 6ea8ad5..18944bc 100644
--- a/client/parser/format.go
+++ b/client/parser/format.go
@@ -129,6 +129,13 @@ func (f *formatter) formatWithDuration(
 	text.WriteString(pre)
 	shouldTie := false
 
+	// The last component that isn't a barline
+	lastComponent := len(duration.Children) - 1
+	for lastComponent > 0 &&
+		duration.Children[lastComponent].Type == BarlineNode {
+		lastComponent--
+	}
+
 	for i, child := range duration.Children {
 		switch child.Type {
 
@@ -138,9 +145,9 @@ func (f *formatter) formatWithDuration(
 			)
 
 		case BarlineNode:
-			if i == len(duration.Children)-1 {
-				// The final duration is a barline
-				// We write out any post text before the barline for clarity
+			if i == lastComponent+1 {
+				// Only barlines are left
+				// We write out any post text before the barlines for clarity
 				text.WriteString(post)
 			}
 
-- 
2.43.0


From 1aff6a16d9b8174ed18fdb5f470f37930ec36ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 18/70] fix: write a key signature's notes in a fixed order

---
 client/model/key.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/model/key.go b/client/model/key.go
index 9e71c43..e220494 100644
--- a/client/model/key.go
+++ b/client/model/key.go
@@ -49,7 +49,13 @@ type KeySignature map[NoteLetter][]Accidental
 func (ks KeySignature) String() string {
 	laas := []string{}
 
-	for note, accidentals := range ks {
+	// In a fixed order, so that the same key signature always has the same string.
+	for _, note := range []NoteLetter{A, B, C, D, E, F, G} {
+		accidentals, inKeySig := ks[note]
+		if !inKeySig {
+			continue
+		}
+
 		laa := strings.Builder{}
 		laa.WriteRune(rune(note + 'a'))
 
-- 
2.43.0


From 4a3ba24394c01d30f885695bfa356d0d287162fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 19/70] fix: generate numbers of the type that reading them
 back expects

---
 client/parser/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/gen.go b/client/parser/gen.go
index 828c765..a7b1d41 100644
--- a/client/parser/gen.go
+++ b/client/parser/gen.go
@@ -116,7 +116,7 @@ func mapIsolatedUpdate(scoreUpdate model.ScoreUpdate) (ASTNode, error) {
 				},
 				{
 					Type:    LispNumberNode,
-					Literal: pu.Semitones,
+					Literal: float64(pu.Semitones),
 				},
 			}}, nil
 
-- 
2.43.0


From bceb524ac195f67841ebcbe45580d37b63b1d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 20/70] fix: don't let a very large time marking wrap around

---
 client/model/score.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/model/score.go b/client/model/score.go
index ee510dc..784e5f7 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -190,9 +190,12 @@ func (score *Score) InterpretOffsetReference(
 	captured := re.FindStringSubmatch(reference)
 	if len(captured) == 3 {
 		// captured[0] is the full string, e.g. "0:10"
-		minutes, _ := strconv.Atoi(captured[1])
-		seconds, _ := strconv.Atoi(captured[2])
-		return (float64)(minutes*60*1000) + (float64)(seconds*1000), nil
+		//
+		// Both numbers consist of digits only, so the only possible error is that
+		// a number is too large to be represented, in which case it is +Inf.
+		minutes, _ := strconv.ParseFloat(captured[1], 64)
+		seconds, _ := strconv.ParseFloat(captured[2], 64)
+		return minutes*60*1000 + seconds*1000, nil
 	}
 
 	offset, hit := score.Markers[reference]
-- 
2.43.0


From d66399cac88db403af2b8baeed886c023bccc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 21/70] fix: compound successive global metric modulations in
 the tempo map

---
 client/model/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index 784e5f7..dd4c552 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -263,7 +263,8 @@ func (score *Score) TempoItinerary() map[float64]float64 {
 				lastGlobalTempo = update.Tempo
 				itinerary[offset] = update.Tempo
 			case MetricModulation:
-				itinerary[offset] = lastGlobalTempo * update.Ratio
+				lastGlobalTempo *= update.Ratio
+				itinerary[offset] = lastGlobalTempo
 			}
 		}
 	}
-- 
2.43.0


From 95c6088b9270d0dc7c625dadcc85a9ba88e7d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 22/70] fix: include the tempo changes made in voices in the
 tempo map

---
 client/model/voice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/model/voice.go b/client/model/voice.go
index 1b969f5..4368114 100644
--- a/client/model/voice.go
+++ b/client/model/voice.go
@@ -48,6 +48,9 @@ func (part *Part) NewVoice(voiceNumber int32) *Part {
 
 	voice := part.voiceTemplate.Clone()
 
+	// The tempo changes of every voice are part of the tempo history of the part.
+	voice.TempoValues = part.TempoValues
+
 	part.voices.AddVoice(voiceNumber, voice)
 
 	return voice
-- 
2.43.0


From 8b0d47653deb3e8bef321a31655ae45de012f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 23/70] fix: identify a part consistently in the score data

---
 client/model/part.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/model/part.go b/client/model/part.go
index 472459d..2adea09 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -94,8 +94,10 @@ func (part *Part) RecordTempoValue() {
 }
 
 // ID returns a unique identifier to the part.
+//
+// The voices of a part are clones of the part, so they have the same ID.
 func (part *Part) ID() string {
-	return fmt.Sprintf("%p", part)
+	return fmt.Sprintf("%p", part.origin)
 }
 
 // JSON implements RepresentableAsJSON.JSON.
-- 
2.43.0


From 8556d27c5761f302a4340cf827a2031e406a8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 24/70] fix: include the name in the JSON of a variable
 definition

---
 client/model/variable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/variable.go b/client/model/variable.go
index de93c21..5911c3b 100644
--- a/client/model/variable.go
+++ b/client/model/variable.go
@@ -62,7 +62,7 @@ func (vd VariableDefinition) JSON() *json.Container {
 
 	return json.Object(
 		"type", "variable-definition",
-		"value", json.Object("events", events),
+		"value", json.Object("name", vd.VariableName, "events", events),
 	)
 }
 
-- 
2.43.0


From 30514b8a845f92d771eddddd51120a30e1b219f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 25/70] fix: keep apart nearby offsets in the score data

---
 client/model/attributes.go | 9 ++++++++-
 client/model/part.go       | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index f7cf637..2a2c280 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"strconv"
 
 	"alda.io/client/help"
 	"alda.io/client/json"
@@ -87,12 +88,18 @@ func (ga *GlobalAttributes) JSON() *json.Container {
 			updatesArray.ArrayAppend(update.JSON())
 		}
 
-		object.Set(updatesArray, fmt.Sprintf("%f", offset))
+		object.Set(updatesArray, offsetKey(offset))
 	}
 
 	return object
 }
 
+// offsetKey returns an offset in the form of a JSON object key. Different
+// offsets have different keys, however close they are to each other.
+func offsetKey(offset float64) string {
+	return strconv.FormatFloat(offset, 'f', -1, 64)
+}
+
 // NewGlobalAttributes returns an initialized GlobalAttributes structure.
 func NewGlobalAttributes() *GlobalAttributes {
 	return &GlobalAttributes{
diff --git a/client/model/part.go b/client/model/part.go
index 2adea09..14656b4 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -104,7 +104,7 @@ func (part *Part) ID() string {
 func (part *Part) JSON() *json.Container {
 	tempoValues := json.Object()
 	for offset, tempo := range part.TempoValues {
-		tempoValues.Set(tempo, fmt.Sprintf("%f", offset))
+		tempoValues.Set(tempo, offsetKey(offset))
 	}
 
 	return json.Object(
-- 
2.43.0


From 0a4c4ff4ffbe0c9570ae82aa18352130da2c1e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 26/70] fix: report excessive nesting instead of overflowing
 the stack

---
 client/parser/parser.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 8e4dcad..d268e50 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -20,6 +20,31 @@ type parser struct {
 	// useful for testing, e.g. for checking the equality of a list of expected
 	// tokens, agnostic of source context like line and column numbers.
 	suppressSourceContext bool
+	// The number of nested expressions that are currently being parsed.
+	depth int
+}
+
+// The parser and everything that works on the resulting AST is recursive, so
+// there needs to be a limit in order not to overflow the stack, which would be
+// fatal. No real score comes anywhere near it.
+const maxDepth = 1000
+
+// nest enters a nested expression that starts at the provided token, returning
+// an error if there are too many levels of nesting.
+//
+// The caller is expected to call `p.unnest()` at the end of the expression.
+func (p *parser) nest(token Token) error {
+	p.depth++
+
+	if p.depth > maxDepth {
+		return p.errorAtToken(token, "too many levels of nesting")
+	}
+
+	return nil
+}
+
+func (p *parser) unnest() {
+	p.depth--
 }
 
 // A parseOption is a function that customizes a parser instance.
@@ -164,6 +189,11 @@ func (p *parser) lispForm(context string) (ASTNode, error) {
 
 func (p *parser) lispList() (ASTNode, error) {
 	// NB: This assumes the initial LeftParen token was already consumed.
+	defer p.unnest()
+	if err := p.nest(p.previous()); err != nil {
+		return ASTNode{}, err
+	}
+
 	list := ASTNode{
 		SourceContext: p.sourceContext(p.previous()),
 		Type:          LispListNode,
@@ -1003,6 +1033,11 @@ func (p *parser) voiceGroup() (ASTNode, error) {
 }
 
 func (p *parser) innerEvent() (ASTNode, error) {
+	defer p.unnest()
+	if err := p.nest(p.peek()); err != nil {
+		return ASTNode{}, err
+	}
+
 	if _, matched := p.match(LeftParen); matched {
 		return p.sexp()
 	}
-- 
2.43.0


From 08d0916cd27831a4ef314a764a5a5258d1491558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:16 +0000
Subject: [PATCH 27/70] fix: do not leak one client's id and session into later
 describe responses

---
 client/repl/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index b783404..6e5bdc1 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -373,7 +373,14 @@ var ops = map[string]func(*Server, nREPLRequest){
 
 	// NOTE: This is for nREPL protocol adherence.
 	"describe": func(server *Server, req nREPLRequest) {
-		server.respondDone(req, describeResponse)
+		// The response to each request is given additional entries (e.g. "id"), so
+		// it needs to be a map of its own.
+		response := make(map[string]interface{})
+		for k, v := range describeResponse {
+			response[k] = v
+		}
+
+		server.respondDone(req, response)
 	},
 
 	// NOTE: This is just for nREPL protocol adherence. It isn't clear to me yet
-- 
2.43.0


From a6da15887e2224488272222c07193f2777d74c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 28/70] fix: do not drop REPL requests that arrive together

---
 client/repl/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 6e5bdc1..74a7635 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -291,8 +292,13 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// We need to use the same buffered reader for the lifetime of the
+			// connection. Otherwise, when multiple messages arrive at the same time,
+			// all but the first one are discarded along with the buffer.
+			reader := bufio.NewReader(conn)
+
 			for {
-				decoded, err := bencode.Decode(conn)
+				decoded, err := bencode.Decode(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From cecd10dbfb2c47d4afcf30ef0f89d036119c03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 29/70] fix: discard the effects of REPL input that fails to
 evaluate

---
 client/repl/server.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/client/repl/server.go b/client/repl/server.go
index 74a7635..adc6ab9 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -571,6 +571,26 @@ func (server *Server) handleRequests() {
 	}
 }
 
+// Returns the score that results from evaluating `input` from scratch.
+func evaluate(input string) (*model.Score, error) {
+	ast, err := parser.ParseString(input)
+	if err != nil {
+		return nil, err
+	}
+
+	scoreUpdates, err := ast.Updates()
+	if err != nil {
+		return nil, err
+	}
+
+	score := model.NewScore()
+	if err := score.Update(scoreUpdates...); err != nil {
+		return nil, err
+	}
+
+	return score, nil
+}
+
 // Parses a string of `input`, updates the server's score and related state, and
 // returns a list of transmission options that would make it so that we're
 // transmitting only the new events that resulted from this string of input.
@@ -597,6 +617,13 @@ func (server *Server) updateScoreWithInput(
 	}
 
 	if err := server.score.Update(scoreUpdates...); err != nil {
+		// At this point, the part of the input that precedes the problem has already
+		// been applied to the score. We don't want any of it to stick, so we restore
+		// the score that corresponds to the input received so far.
+		if score, restoreErr := evaluate(server.input); restoreErr == nil {
+			server.score = score
+		}
+
 		return nil, err
 	}
 
-- 
2.43.0


From 254f172820b13f02cbd91c16a977579c38df26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 30/70] fix: keep the REPL score when loading fails or no
 player is available

---
 client/repl/server.go | 58 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index adc6ab9..4f6a56c 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -655,9 +655,7 @@ func (server *Server) updateScoreWithInput(
 	}, nil
 }
 
-func (server *Server) evalAndPlay(
-	input string, additionalTransmitOpts ...transmitter.TransmissionOption,
-) error {
+func (server *Server) evalAndPlay(input string) error {
 	return server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
 			transmitOpts, err := server.updateScoreWithInput(input)
@@ -669,33 +667,35 @@ func (server *Server) evalAndPlay(
 				Interface("player", server.player).
 				Msg("Sending OSC messages to player.")
 
-			return transmitter.TransmitScore(
-				server.score,
-				(append(transmitOpts, additionalTransmitOpts...))...,
-			)
+			return transmitter.TransmitScore(server.score, transmitOpts...)
 		},
 	)
 }
 
 func (server *Server) load(input string) error {
+	// If the input can't be evaluated, or if no player process is available, we
+	// don't want to lose the current score. So, we replace it only once we have
+	// the new score, and we don't wait for a player process to do so.
+	score, err := evaluate(input)
+	if err != nil {
+		return err
+	}
+
 	if err := server.resetState(); err != nil {
 		return err
 	}
 
+	server.input = strings.TrimSpace(input) + "\n"
+	server.score = score
+	server.eventIndex = len(score.Events)
+
 	return server.withTransmitter(
 		func(t transmitter.OSCTransmitter) error {
-			transmitOpts, err := server.updateScoreWithInput(input)
-			if err != nil {
-				return err
-			}
-
-			transmitOpts = append(transmitOpts, transmitter.LoadOnly())
-
 			log.Info().
 				Interface("player", server.player).
 				Msg("Transmitting score to player.")
 
-			err = t.TransmitScore(server.score, transmitOpts...)
+			err := t.TransmitScore(server.score, transmitter.LoadOnly())
 			if err != nil {
 				return err
 			}
@@ -725,13 +725,7 @@ func (server *Server) reload() error {
 func (server *Server) replay(
 	transmitOpts ...transmitter.TransmissionOption,
 ) error {
-	// `input` is the one thing about the server state that we DON'T want to
-	// reset, so we keep track of it here. After we reset the state, we invoke
-	// `server.evalAndPlay` on this input, which has the effect of both playing it
-	// and re-adding it to the state of the server.
-	input := server.input
-
-	// We reset the server state here so that we can re-transmit the score "from
+	// We switch to a fresh player here so that we can re-transmit the score "from
 	// scratch" (or just re-transmit the part that we want to hear, if `from`
 	// and/or `to` parameters are provided). This makes it so that what we hear
 	// corresponds more directly to the input entered so far.
@@ -741,15 +735,25 @@ func (server *Server) replay(
 	// between the user entering each line of REPL input, which we are presuming
 	// is not what the user wants. (This would also be a departure from the
 	// behavior of `:play` in the Alda v1 REPL.)
-	if err := server.resetState(); err != nil {
-		return err
+	if server.hasPlayer() {
+		if err := server.shutdownPlayer(); err != nil {
+			return err
+		}
 	}
 
 	// At this point, the `managePlayers` loop should find a replacement for the
-	// player, and this should generally happen quickly. `server.evalAndPlay` will
+	// player, and this should generally happen quickly. `withTransmitter` will
 	// handle the case that a player process isn't immediately available, so it's
-	// OK for us to call it immediately after resetting the state.
-	return server.evalAndPlay(input, transmitOpts...)
+	// OK for us to use it immediately after shutting down the player.
+	return server.withTransmitter(
+		func(transmitter transmitter.OSCTransmitter) error {
+			log.Info().
+				Interface("player", server.player).
+				Msg("Sending OSC messages to player.")
+
+			return transmitter.TransmitScore(server.score, transmitOpts...)
+		},
+	)
 }
 
 // Reloads the score into a fresh player, sends a "MIDI export" message to the
-- 
2.43.0


From 56ed773a4536be5373d8ce828ba2bafa5521f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 31/70] fix: take voices into account in the current offsets of
 parts

---
 client/model/score.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index dd4c552..ef9dc0f 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -1,6 +1,7 @@
 package model
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 
@@ -168,7 +169,15 @@ func (score *Score) PartOffsets() map[*Part]float64 {
 	offsets := map[*Part]float64{}
 
 	for _, part := range score.Parts {
-		offsets[part.origin] = part.origin.CurrentOffset
+		offset := part.CurrentOffset
+
+		// If the part is in the middle of a voice group, then its current offset is
+		// that of the voice that has progressed the furthest.
+		for _, voice := range part.voices.voices {
+			offset = math.Max(offset, voice.CurrentOffset)
+		}
+
+		offsets[part.origin] = offset
 	}
 
 	return offsets
-- 
2.43.0


From 001b57bbf688b95f47ca0ae24f34a55a31372f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 32/70] fix: don't schedule REPL events before the start of the
 new events

---
 client/transmitter/osc.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/client/transmitter/osc.go b/client/transmitter/osc.go
index 804e543..722cf52 100644
--- a/client/transmitter/osc.go
+++ b/client/transmitter/osc.go
@@ -292,6 +292,22 @@ func (oe OSCTransmitter) ScoreToOSCBundle(
 
 	tracks := score.Tracks()
 
+	// When sync offsets are provided, new events can precede the sync offset of
+	// their part, e.g. when jumping to a marker or adding another voice. It isn't
+	// possible to schedule those events before the ones that were already sent to
+	// the player, so in that case, we synchronize with the earliest new event of
+	// that part instead.
+	syncOffsets := map[*model.Part]float64{}
+	for _, event := range events {
+		if event, ok := event.(model.NoteEvent); ok {
+			if _, hit := syncOffsets[event.Part]; !hit {
+				syncOffsets[event.Part] = math.Min(
+					ctx.syncOffsets[event.Part], event.Offset,
+				)
+			}
+		}
+	}
+
 	for _, event := range events {
 		eventOffset := event.EventOffset()
 
@@ -330,7 +346,7 @@ func (oe OSCTransmitter) ScoreToOSCBundle(
 			// If they are used together, the behavior is unspecified (we would
 			// probably subtract too much from each offset and the features wouldn't
 			// work the way they're supposed to.)
-			offset -= ctx.syncOffsets[event.Part]
+			offset -= syncOffsets[event.Part]
 
 			// The OSC API works with offsets that are ints, not floats, so we do the
 			// rounding here and work with the int value from here onward.
-- 
2.43.0


From e1ecaca562f7a9fbf3437b28e605fd3fb1c76733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 33/70] fix: don't go back to a player process that the REPL
 has stopped using

---
 client/repl/player_management.go | 122 +++++++++++++++++++++----------
 client/repl/server.go            |  32 ++++----
 2 files changed, 101 insertions(+), 53 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 06d24a1..73cf055 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -16,7 +16,7 @@ const playerPoolFillInterval = 10 * time.Second
 const pingTimeout = 5 * time.Second
 const pingInterval = 1 * time.Second
 
-func findAvailablePlayer() (system.PlayerState, error) {
+func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 	var player system.PlayerState
 
 	if err := util.Await(
@@ -26,6 +26,12 @@ func findAvailablePlayer() (system.PlayerState, error) {
 				return err
 			}
 
+			if server.isShuttingDown(availablePlayer) {
+				return fmt.Errorf(
+					"player process %s is shutting down", availablePlayer.ID,
+				)
+			}
+
 			player = availablePlayer
 			return nil
 		},
@@ -38,12 +44,14 @@ func findAvailablePlayer() (system.PlayerState, error) {
 }
 
 func (server *Server) transmitter() (transmitter.OSCTransmitter, error) {
-	if !server.hasPlayer() {
+	player := server.currentPlayer()
+
+	if player.Port == 0 {
 		return transmitter.OSCTransmitter{},
 			fmt.Errorf("no player process is available")
 	}
 
-	return transmitter.OSCTransmitter{Port: server.player.Port}, nil
+	return transmitter.OSCTransmitter{Port: player.Port}, nil
 }
 
 // Player management happens asynchronously (see the loop in `managePlayers`),
@@ -84,7 +92,35 @@ func (server *Server) withTransmitter(
 // For practical purposes, if Port is 0, then we can be reasonably certain that
 // the server doesn't have a player to talk to.
 func (server *Server) hasPlayer() bool {
-	return server.player.Port != 0
+	return server.currentPlayer().Port != 0
+}
+
+// Returns the server's most recent information about the player process that it
+// is using.
+func (server *Server) currentPlayer() system.PlayerState {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.player
+}
+
+// Replaces `current`, the information that the server had about the player
+// process that it is using. Does nothing if the server has stopped using that
+// player process (or started to use one) in the meantime.
+func (server *Server) updatePlayer(current, updated system.PlayerState) {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	if server.player.ID == current.ID {
+		server.player = updated
+	}
+}
+
+func (server *Server) isShuttingDown(player system.PlayerState) bool {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return player.ID == server.lastShutdown
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
@@ -96,8 +132,10 @@ func (server *Server) hasPlayer() bool {
 // the zero value (`system.PlayerState{}`). At that point, `server.hasPlayer()`
 // will return false, and the player process will be replaced and
 // `server.player` will be set to the current state of the new player process.
-func (server *Server) unsetPlayer() {
-	server.player = system.PlayerState{}
+//
+// `player` is the player process that we want to stop using.
+func (server *Server) unsetPlayer(player system.PlayerState) {
+	server.updatePlayer(player, system.PlayerState{})
 }
 
 // The server has two responsibilities when it comes to managing player
@@ -133,8 +171,8 @@ func (server *Server) managePlayers() {
 
 		// If the server already has a player process that it's using, fetch updated
 		// state information about that player process.
-		if server.hasPlayer() {
-			updatedState, err := system.FindPlayerByID(server.player.ID)
+		if player := server.currentPlayer(); player.Port != 0 {
+			updatedState, err := system.FindPlayerByID(player.ID)
 
 			// FIXME: We are brittly depending on the verbiage in the error messages
 			// returned by `system.FindPlayerByID`.
@@ -142,48 +180,55 @@ func (server *Server) managePlayers() {
 			// TODO: Maybe UserFacingErrors could have an optional error code that we
 			// can depend on here?
 			if err == nil {
-				server.player = updatedState
+				server.updatePlayer(player, updatedState)
 			} else if strings.HasPrefix(err.Error(), "No player was found") {
 				// If the state information tells us that the player process no longer
 				// exists, then we forget about that player process and a new one will be
 				// found to replace it shortly.
 				log.Warn().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process is offline.")
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Warn().Err(err).Msg("Failed to update player state information.")
 			}
 		}
 
 		if !server.hasPlayer() {
-			player, err := findAvailablePlayer()
+			player, err := server.findAvailablePlayer()
 			if err != nil {
 				log.Warn().Err(err).Msg("No player processes available.")
 			} else {
 				log.Info().Interface("player", player).Msg("Found player process.")
-				server.player = player
+				server.updatePlayer(system.PlayerState{}, player)
 			}
 		}
 
-		if server.hasPlayer() && now.Sub(lastPing) > pingInterval {
-			// We can safely ignore `err` here because it should always be nil, given
-			// that we just checked that `server.hasPlayer()` is true.
-			transmitter, _ := server.transmitter()
+		if player := server.currentPlayer(); player.Port != 0 &&
+			now.Sub(lastPing) > pingInterval {
+			transmitter := transmitter.OSCTransmitter{Port: player.Port}
 
 			if err := util.Await(
-				func() error { return transmitter.TransmitPingMessage() },
+				func() error {
+					// There is no point in waiting for a player process that we have
+					// stopped using in the meantime.
+					if server.currentPlayer().ID != player.ID {
+						return nil
+					}
+
+					return transmitter.TransmitPingMessage()
+				},
 				pingTimeout,
 			); err != nil {
 				log.Warn().
 					Err(err).
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process unreachable.")
 
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Debug().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Sent ping to player process.")
 			}
 
@@ -194,26 +239,29 @@ func (server *Server) managePlayers() {
 	}
 }
 
-func (server *Server) shutdownPlayer() error {
-	if err := server.withTransmitter(
-		func(transmitter transmitter.OSCTransmitter) error {
-			return transmitter.TransmitShutdownMessage(0)
-		},
-	); err != nil {
-		return err
+// Tells the player process that the server is using (if any) to shut down.
+func (server *Server) shutdownPlayer() {
+	player := server.currentPlayer()
+	if player.Port == 0 {
+		return
+	}
+
+	transmitter := transmitter.OSCTransmitter{Port: player.Port}
+	if err := transmitter.TransmitShutdownMessage(0); err != nil {
+		// The player process is gone or about to go, which is what we want.
+		log.Warn().
+			Err(err).
+			Interface("player", player).
+			Msg("Failed to tell player process to shut down.")
 	}
 
 	// Now we un-set the player so that we don't accidentally keep trying to use
 	// the same player process while it's in the process of shutting down. (This
 	// might also speed up the process of the `managePlayers` loop discovering
 	// that there is no player available, prompting it to find a replacement.)
-	//
-	// (Technically, there is still a potential race condition here where the
-	// `managePlayers` loop un-sets the player before we get to this line, so
-	// we double-unset it. But the risk is low because even if that happens, the
-	// worst case scenario is that we would end up replacing the player twice, and
-	// even if that happens, we would still end up with a player to use below.)
-	server.unsetPlayer()
-
-	return nil
+	server.playerMutex.Lock()
+	server.lastShutdown = player.ID
+	server.playerMutex.Unlock()
+
+	server.unsetPlayer(player)
 }
diff --git a/client/repl/server.go b/client/repl/server.go
index 4f6a56c..fdb82b3 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -12,6 +12,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -50,7 +51,14 @@ type Server struct {
 	// any new events that are added to the score when input is added.
 	eventIndex int
 	// The server's most recent information about the player process it is using.
-	player system.PlayerState
+	//
+	// The player is used and unset while handling requests and, at the same time,
+	// managed by the `managePlayers` loop. See repl/player_management.go.
+	player      system.PlayerState
+	playerMutex sync.Mutex
+	// The ID of the last player process that we told to shut down. It might still
+	// look available for a little while.
+	lastShutdown string
 	// A queue onto which bdecoded messages from clients are placed in one
 	// routine. In another routine, the messages are handled synchronously, one at
 	// a time. Therefore, messages can be received asynchronously, but results are
@@ -110,11 +118,7 @@ func (server *Server) respondError(
 }
 
 func (server *Server) resetState() error {
-	if server.hasPlayer() {
-		if err := server.shutdownPlayer(); err != nil {
-			return err
-		}
-	}
+	server.shutdownPlayer()
 
 	server.input = ""
 	server.score = model.NewScore()
@@ -533,7 +537,7 @@ var ops = map[string]func(*Server, nREPLRequest){
 		if err := server.withTransmitter(
 			func(transmitter transmitter.OSCTransmitter) error {
 				log.Info().
-					Interface("player", server.player).
+					Interface("player", server.currentPlayer()).
 					Msg("Sending \"stop\" message to player process.")
 				return transmitter.TransmitStopMessage()
 			},
@@ -664,7 +668,7 @@ func (server *Server) evalAndPlay(input string) error {
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
 			return transmitter.TransmitScore(server.score, transmitOpts...)
@@ -692,7 +696,7 @@ func (server *Server) load(input string) error {
 	return server.withTransmitter(
 		func(t transmitter.OSCTransmitter) error {
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Transmitting score to player.")
 
 			err := t.TransmitScore(server.score, transmitter.LoadOnly())
@@ -709,7 +713,7 @@ func (server *Server) load(input string) error {
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Int32("newOffset", newOffset).
 				Msg("Transmitting new offset to player.")
 
@@ -735,11 +739,7 @@ func (server *Server) replay(
 	// between the user entering each line of REPL input, which we are presuming
 	// is not what the user wants. (This would also be a departure from the
 	// behavior of `:play` in the Alda v1 REPL.)
-	if server.hasPlayer() {
-		if err := server.shutdownPlayer(); err != nil {
-			return err
-		}
-	}
+	server.shutdownPlayer()
 
 	// At this point, the `managePlayers` loop should find a replacement for the
 	// player, and this should generally happen quickly. `withTransmitter` will
@@ -748,7 +748,7 @@ func (server *Server) replay(
 	return server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
 			return transmitter.TransmitScore(server.score, transmitOpts...)
-- 
2.43.0


From e2066fde8c20ea0d91cbeaed2b4f05db527c068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 34/70] fix: don't crash the REPL server when it receives an
 invalid message

---
 client/repl/server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index fdb82b3..34a36e0 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -263,6 +263,20 @@ func RunServer(port int) (*Server, error) {
 	return server, nil
 }
 
+// Reads a bencoded message from a client.
+//
+// The bencode library panics if a message includes e.g. a negative length. We
+// don't want any client to be able to crash the server.
+func decodeMessage(reader *bufio.Reader) (decoded interface{}, err error) {
+	defer func() {
+		if problem := recover(); problem != nil {
+			err = fmt.Errorf("invalid message: %v", problem)
+		}
+	}()
+
+	return bencode.Decode(reader)
+}
+
 // Runs in a loop, listening for bencoded messages from clients, "bdecoding"
 // them, and putting them on a channel to be handled by another routine.
 //
@@ -302,7 +316,7 @@ func (server *Server) listen(l net.Listener) {
 			reader := bufio.NewReader(conn)
 
 			for {
-				decoded, err := bencode.Decode(reader)
+				decoded, err := decodeMessage(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From 2f5d812b2482630d402d3bd91cd0002a3c3ad428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 35/70] fix: don't look for a replacement among players that
 are shutting down

---
 client/repl/player_management.go    | 16 +++++++---------
 client/system/process_management.go | 14 +++++++++++---
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 73cf055..b8d44e4 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -21,17 +21,13 @@ func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 
 	if err := util.Await(
 		func() error {
-			availablePlayer, err := system.FindAvailablePlayer()
+			availablePlayer, err := system.FindAvailablePlayer(
+				server.shutDownPlayerID(),
+			)
 			if err != nil {
 				return err
 			}
 
-			if server.isShuttingDown(availablePlayer) {
-				return fmt.Errorf(
-					"player process %s is shutting down", availablePlayer.ID,
-				)
-			}
-
 			player = availablePlayer
 			return nil
 		},
@@ -116,11 +112,13 @@ func (server *Server) updatePlayer(current, updated system.PlayerState) {
 	}
 }
 
-func (server *Server) isShuttingDown(player system.PlayerState) bool {
+// Returns the ID of the last player process that we told to shut down, which
+// might still look available for a little while.
+func (server *Server) shutDownPlayerID() string {
 	server.playerMutex.Lock()
 	defer server.playerMutex.Unlock()
 
-	return player.ID == server.lastShutdown
+	return server.lastShutdown
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
diff --git a/client/system/process_management.go b/client/system/process_management.go
index 2630ac1..8f28d54 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -376,16 +376,24 @@ func PingPlayer(port int) (*osc.Client, error) {
 // and will also fill the player pool to help ensure that we don't run out of
 // players.
 //
+// Players whose IDs are included in `excludedIDs` (e.g. because they are about to
+// shut down) are not considered to be available.
+//
 // Returns `ErrNoPlayersAvailable` if no player is currently in an available
 // state.
-func FindAvailablePlayer() (PlayerState, error) {
+func FindAvailablePlayer(excludedIDs ...string) (PlayerState, error) {
 	players, err := ReadPlayerStates()
 	if err != nil {
 		return PlayerState{}, err
 	}
 
+	excluded := map[string]bool{}
+	for _, id := range excludedIDs {
+		excluded[id] = true
+	}
+
 	for _, player := range players {
-		if player.State != "ready" {
+		if player.State != "ready" || excluded[player.ID] {
 			continue
 		}
 
@@ -403,7 +411,7 @@ func FindAvailablePlayer() (PlayerState, error) {
 				return PlayerState{}, err
 			}
 
-			return FindAvailablePlayer()
+			return FindAvailablePlayer(excludedIDs...)
 		}
 
 		return player, nil
-- 
2.43.0


From f44b18dc9b18ada29652d076b2e34315297dd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 36/70] fix: resume playback although one of the player
 processes is gone

---
 client/cmd/play.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/cmd/play.go b/client/cmd/play.go
index c196ba5..62b4c20 100644
--- a/client/cmd/play.go
+++ b/client/cmd/play.go
@@ -297,6 +297,16 @@ var playCmd = &cobra.Command{
 					transmitter.OneOff(),
 				)
 			}
+			if transmissionError != nil && action == "unpause" &&
+				playerPort == -1 && playerID == "" {
+				// A player process that isn't there anymore shouldn't keep the other
+				// ones from resuming playback.
+				log.Warn().
+					Interface("player", player).
+					Err(transmissionError).
+					Msg("Failed to send \"play\" message to player process.")
+				continue
+			}
 			if transmissionError != nil {
 				return transmissionError
 			}
-- 
2.43.0


From f7bcec720bb4970d9beca213e0957f7e096ece7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 37/70] fix: keep the existing file if formatting or importing
 fails

---
 client/cmd/format.go   |  37 +++++-----
 client/cmd/import.go   |  22 +++---
 client/system/files.go | 159 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 188 insertions(+), 30 deletions(-)
 create mode 100644 client/system/files.go

diff --git a/client/cmd/format.go b/client/cmd/format.go
index da5a827..59b06f5 100644
--- a/client/cmd/format.go
+++ b/client/cmd/format.go
@@ -5,9 +5,10 @@ import (
 	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/parser"
+	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
-	"io"
 	"os"
 )
 
@@ -70,24 +71,9 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			return err
 		}
 
-		var out io.Writer
-		if formatOverwrite {
-			f, err := os.OpenFile(
-				formatInputFile,
-				os.O_WRONLY|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue opening file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer f.Close()
-			out = f
-		} else {
-			out = os.Stdout
-		}
+		// We don't write anything until we have the formatted output, so that the
+		// input file isn't affected if anything goes wrong.
+		out := &bytes.Buffer{}
 
 		if formatConfiguredWrapLen < 0 {
 			return help.UserFacingErrorf(
@@ -126,6 +112,19 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		if !formatOverwrite {
+			_, err := os.Stdout.Write(out.Bytes())
+			return err
+		}
+
+		if err := system.WriteFile(formatInputFile, out.Bytes()); err != nil {
+			return help.UserFacingErrorf(
+				`Issue writing file %s: %s.`,
+				color.Aurora.BrightYellow(formatInputFile),
+				err.Error(),
+			)
+		}
+
 		return nil
 	},
 }
diff --git a/client/cmd/import.go b/client/cmd/import.go
index a8da784..5cadd23 100644
--- a/client/cmd/import.go
+++ b/client/cmd/import.go
@@ -7,6 +7,7 @@ import (
 	"alda.io/client/model"
 	"alda.io/client/parser"
 	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"os"
@@ -136,23 +137,22 @@ Currently, the only supported input format is %s.`,
 				)
 			}
 		} else {
-			out, err := os.OpenFile(
-				outputAldaFilename,
-				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
+			// We don't write anything until we have the formatted output, so that an
+			// existing file isn't affected if anything goes wrong.
+			out := &bytes.Buffer{}
+
+			err = parser.FormatASTToCode(root, out)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue opening output file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
+					`Issue formatting imported Alda: %s.`,
+					err.Error(),
 				)
 			}
-			defer out.Close()
 
-			err = parser.FormatASTToCode(root, out)
-			if err != nil {
+			if err := system.WriteFile(outputAldaFilename, out.Bytes()); err != nil {
 				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
+					`Issue writing output file %s: %s.`,
+					color.Aurora.BrightYellow(outputAldaFilename),
 					err.Error(),
 				)
 			}
diff --git a/client/system/files.go b/client/system/files.go
new file mode 100644
index 0000000..93073d8
--- /dev/null
+++ b/client/system/files.go
@@ -0,0 +1,159 @@
+package system
+
+import (
+	"encoding/binary"
+	"errors"
+	"fmt"
+	"os"
+	"path/filepath"
+	"time"
+
+	"alda.io/client/util"
+)
+
+// WriteFile replaces the contents of a file, or creates the file if it doesn't
+// exist yet.
+//
+// The file is replaced in one step once the new contents have been written
+// successfully. If something goes wrong, the existing file is left as it was.
+func WriteFile(filename string, contents []byte) error {
+	// If the file is a symbolic link, we want to replace the file that it refers
+	// to, not the link.
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	info, err := os.Stat(filename)
+	exists := err == nil
+
+	// There is nothing to preserve (and nothing that can be replaced) in the case
+	// of e.g. a named pipe or /dev/stdout.
+	if exists && !info.Mode().IsRegular() {
+		return writeInPlace(filename, contents)
+	}
+
+	// We don't want to replace a file that we aren't allowed to write to.
+	if exists {
+		file, err := os.OpenFile(filename, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		file.Close()
+	}
+
+	tempFilename := filepath.Join(
+		filepath.Dir(filename),
+		fmt.Sprintf(
+			".%s.%d-%d.tmp",
+			filepath.Base(filename), os.Getpid(), time.Now().UnixNano(),
+		),
+	)
+
+	tempFile, err := os.OpenFile(
+		tempFilename,
+		os.O_WRONLY|os.O_CREATE|os.O_EXCL,
+		0664, // default rw-rw-r perms
+	)
+	if err != nil {
+		return err
+	}
+
+	_, err = tempFile.Write(contents)
+
+	if exists && err == nil {
+		err = tempFile.Chmod(info.Mode().Perm())
+	}
+
+	if err == nil {
+		err = tempFile.Sync()
+	}
+
+	if closeErr := tempFile.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tempFilename, filename)
+	}
+
+	if err != nil {
+		os.Remove(tempFilename)
+	}
+
+	return err
+}
+
+func writeInPlace(filename string, contents []byte) error {
+	file, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(contents)
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	return err
+}
+
+var errIncompleteMidiFile = errors.New("the MIDI file is incomplete")
+
+// Returns an error if `contents` isn't a whole MIDI file, i.e. a header chunk
+// followed by as many track chunks as the header says.
+func checkMidiFile(contents []byte) error {
+	tracks := 1 // until we've seen the header
+
+	for position := 0; tracks > 0; {
+		if len(contents)-position < 8 {
+			return errIncompleteMidiFile
+		}
+
+		chunkType := string(contents[position : position+4])
+		length := int64(binary.BigEndian.Uint32(contents[position+4:]))
+
+		if int64(len(contents)-position-8) < length {
+			return errIncompleteMidiFile
+		}
+
+		switch {
+		case position == 0 && (chunkType != "MThd" || length < 6):
+			return errors.New("not a MIDI file")
+		case position == 0:
+			tracks = int(binary.BigEndian.Uint16(contents[10:]))
+		case chunkType == "MTrk":
+			tracks--
+		}
+
+		position += 8 + int(length)
+	}
+
+	return nil
+}
+
+// AwaitMidiFile waits for a player process to write a MIDI file and returns the
+// contents of the file.
+//
+// The file might be visible to us before the player process is done writing it,
+// so we wait until the file is complete.
+func AwaitMidiFile(filename string, timeout time.Duration) ([]byte, error) {
+	var contents []byte
+
+	if err := util.Await(
+		func() error {
+			bytes, err := os.ReadFile(filename)
+			if err != nil {
+				return err
+			}
+
+			contents = bytes
+			return checkMidiFile(contents)
+		},
+		timeout,
+	); err != nil {
+		return nil, err
+	}
+
+	return contents, nil
+}
-- 
2.43.0


From 9dd599ab92adb3b6538022c9434adbb7658a99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 38/70] fix: wait for a complete MIDI file, write it where the
 user wants it and report if there is none

---
 client/cmd/export.go  | 70 ++++++++++++++++---------------------------
 client/repl/server.go | 21 ++-----------
 2 files changed, 28 insertions(+), 63 deletions(-)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1017df9..2ecdb43 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -2,7 +2,6 @@ package cmd
 
 import (
 	"fmt"
-	"io"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -186,31 +185,22 @@ Currently, the only supported output format is %s.`,
 				Msg("Sent shutdown message to player.")
 		}()
 
-		// When no output filename is specified, we write the result to stdout. But
-		// first, we need to ask the player to export to a file, so we use a
-		// temporary file.
-		tmpFilename := ""
-		if outputFilename == "" {
-			tmpdir, err := os.MkdirTemp("", "alda-export")
-			if err != nil {
-				return err
-			}
-
-			tmpFilename = filepath.Join(
-				tmpdir, fmt.Sprintf(
-					"export-%d-%d.mid",
-					time.Now().Unix(),
-					rand.Intn(10000),
-				),
-			)
+		// The player process exports to a temporary file, because it might not
+		// have the same working directory, and so that an existing output file isn't
+		// affected if anything goes wrong.
+		tmpdir, err := os.MkdirTemp("", "alda-export")
+		if err != nil {
+			return err
 		}
+		defer os.RemoveAll(tmpdir)
 
-		var targetFilename string
-		if outputFilename != "" {
-			targetFilename = outputFilename
-		} else {
-			targetFilename = tmpFilename
-		}
+		targetFilename := filepath.Join(
+			tmpdir, fmt.Sprintf(
+				"export-%d-%d.mid",
+				time.Now().Unix(),
+				rand.Intn(10000),
+			),
+		)
 
 		err = transmitter.TransmitMidiExportMessage(targetFilename)
 		if err != nil {
@@ -231,31 +221,23 @@ Currently, the only supported output format is %s.`,
 		// "hanging."
 		fmt.Fprintln(os.Stderr, "Exporting...")
 
-		var midiFile *os.File
-
-		if err := util.Await(
-			func() error {
-				mf, err := os.Open(targetFilename)
-				if err != nil {
-					return err
-				}
+		midiData, err := system.AwaitMidiFile(targetFilename, midiExportTimeout)
+		if err != nil {
+			return err
+		}
 
-				midiFile = mf
-				return nil
-			},
-			midiExportTimeout,
-		); err != nil {
-			return nil
+		if outputFilename == "" {
+			// When no output filename is specified, we write the result to stdout.
+			_, err := os.Stdout.Write(midiData)
+			return err
 		}
 
-		if outputFilename != "" {
-			fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
-		} else {
-			if _, err := io.Copy(os.Stdout, midiFile); err != nil {
-				return err
-			}
+		if err := system.WriteFile(outputFilename, midiData); err != nil {
+			return err
 		}
 
+		fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
+
 		return nil
 	},
 }
diff --git a/client/repl/server.go b/client/repl/server.go
index 34a36e0..f4c1807 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -25,7 +25,6 @@ import (
 	"alda.io/client/parser"
 	"alda.io/client/system"
 	"alda.io/client/transmitter"
-	"alda.io/client/util"
 )
 
 const midiExportTimeout = 20 * time.Second
@@ -793,6 +792,7 @@ func (server *Server) export() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer os.RemoveAll(tmpdir)
 
 	midiFilename := filepath.Join(
 		tmpdir, fmt.Sprintf(
@@ -810,22 +810,5 @@ func (server *Server) export() ([]byte, error) {
 		return nil, err
 	}
 
-	var midiFile *os.File
-
-	if err := util.Await(
-		func() error {
-			mf, err := os.Open(midiFilename)
-			if err != nil {
-				return err
-			}
-
-			midiFile = mf
-			return nil
-		},
-		midiExportTimeout,
-	); err != nil {
-		return nil, err
-	}
-
-	return io.ReadAll(midiFile)
+	return system.AwaitMidiFile(midiFilename, midiExportTimeout)
 }
-- 
2.43.0


From 86a19e9d84350180dcfe3ddbb7720ea3137aa2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 39/70] fix: don't let :save overwrite a file that could not be
 loaded

---
 client/repl/client.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index fff59ec..475ef27 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -113,7 +113,7 @@ func init() {
 				}
 				binaryData := []byte(res["binary-data"].(string))
 
-				return os.WriteFile(filename, binaryData, 0644)
+				return system.WriteFile(filename, binaryData)
 			},
 		},
 
@@ -213,23 +213,25 @@ file into the REPL server.`,
 					return err
 				}
 
+				path := client.inputFilepath
+
 				switch len(args) {
 				case 0:
-					if client.inputFilepath == "" {
+					if path == "" {
 						return fmt.Errorf("please specify the path to a file to load")
 					}
 				case 1:
-					client.inputFilepath = args[0]
+					path = args[0]
 				default:
 					return invalidArgsError(args)
 				}
 
-				contents, err := os.ReadFile(client.inputFilepath)
+				contents, err := os.ReadFile(path)
 				if err != nil {
 					return err
 				}
 
-				_, err = client.sendRequest(
+				res, err := client.sendRequest(
 					map[string]interface{}{
 						"op":   "load",
 						"code": string(contents)},
@@ -238,6 +240,12 @@ file into the REPL server.`,
 					return err
 				}
 
+				// If the file couldn't be loaded, then the current score isn't the one
+				// in that file, so a subsequent `:save` shouldn't overwrite it.
+				if len(ResponseErrors(res)) == 0 {
+					client.inputFilepath = path
+				}
+
 				return nil
 			},
 		},
@@ -361,13 +369,15 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
+				path := client.inputFilepath
+
 				switch len(args) {
 				case 0:
-					if client.inputFilepath == "" {
+					if path == "" {
 						return fmt.Errorf("please specify the path to a file")
 					}
 				case 1:
-					client.inputFilepath = args[0]
+					path = args[0]
 				default:
 					return invalidArgsError(args)
 				}
@@ -377,7 +387,13 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
-				return os.WriteFile(client.inputFilepath, []byte(scoreText), 0644)
+				if err := system.WriteFile(path, []byte(scoreText)); err != nil {
+					return err
+				}
+
+				client.inputFilepath = path
+
+				return nil
 			},
 		},
 
-- 
2.43.0


From 058d75a04fa4deb42473b265d022980d56f20bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 40/70] fix: reconnect the REPL client after a request without
 a response

---
 client/repl/client.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index 475ef27..80d9d48 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -662,15 +662,15 @@ func (client *Client) sendRequest(
 
 	log.Debug().Interface("request", req).Msg("Sending request.")
 
-	if err := bencode.Marshal(client.serverConn, req); err != nil {
-		return nil, err
-	}
-
-	// Avoid hanging forever if the server doesn't respond.
-	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
-
-	response, err := bencode.Decode(client.serverConn)
+	response, err := client.exchange(req)
 	if err != nil {
+		// At this point, there might still be a response to this request on its way
+		// to us (e.g. because it takes the server a long time to handle the
+		// request). We start over with a new connection the next time, because
+		// otherwise we would mistake it for the response to the next request.
+		client.Disconnect()
+		client.serverConn = nil
+
 		return nil, err
 	}
 
@@ -711,6 +711,26 @@ func (client *Client) sendRequest(
 	return res, nil
 }
 
+// Sends a request to the server and returns the bdecoded response.
+func (client *Client) exchange(
+	req map[string]interface{},
+) (interface{}, error) {
+	if client.serverConn == nil {
+		if err := client.connect(); err != nil {
+			return nil, err
+		}
+	}
+
+	if err := bencode.Marshal(client.serverConn, req); err != nil {
+		return nil, err
+	}
+
+	// Avoid hanging forever if the server doesn't respond.
+	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
+
+	return bencode.Decode(client.serverConn)
+}
+
 func ResponseErrors(res map[string]interface{}) []string {
 	statuses, ok := res["status"].([]interface{})
 	if !ok {
-- 
2.43.0


From 83189f7fabfdb00ebe440a3c3fe03c0fe1f39a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 41/70] fix: report malformed MusicXML instead of crashing, and
 read numbers beyond 127

---
 client/interop/musicxml/importer/handlers.go | 131 ++++++++++++-------
 client/interop/musicxml/importer/importer.go |  72 ++++++----
 client/interop/musicxml/importer/util.go     |   2 +-
 client/interop/musicxml/importer/values.go   | 107 +++++++++++++++
 4 files changed, 237 insertions(+), 75 deletions(-)
 create mode 100644 client/interop/musicxml/importer/values.go

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index b419111..c141170 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -4,8 +4,6 @@ import (
 	"fmt"
 	"math"
 	"reflect"
-	"strconv"
-	"strings"
 
 	"alda.io/client/color"
 	log "alda.io/client/logging"
@@ -54,6 +52,10 @@ func init() {
 // handle imports an element by finding and calling its handler
 func handle(element *etree.Element, importer *musicXMLImporter) {
 	if handler, ok := handlers[element.Tag]; ok {
+		if importer.currentPart == nil &&
+			element.Tag != "score-part" && element.Tag != "part" {
+			malformed(element, "not inside a <part>")
+		}
 		handler(element, importer)
 	} else {
 		recurseHandler(element, importer)
@@ -101,10 +103,13 @@ func recurseHandler(element *etree.Element, importer *musicXMLImporter) {
 
 func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Create the part
-	id := element.SelectAttr("id")
+	id := requiredAttr(element, "id")
 
 	part := newMusicXMLPart()
-	importer.parts[id.Value] = part
+	if _, exists := importer.parts[id]; exists {
+		malformed(element, "there is more than one part %q", id)
+	}
+	importer.parts[id] = part
 
 	midiInstruments := element.FindElements("midi-instrument")
 	if len(midiInstruments) == 0 {
@@ -116,16 +121,18 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		part.instruments = []string{"midi-percussion"}
 
 		// part.alias will be the Alda alias for the midi-percussion instrument
-		part.alias = percussionPartNameToAlias(
-			element.FindElement("part-name").Text(),
-		)
+		if partName := element.FindElement("part-name"); partName != nil {
+			part.alias = percussionPartNameToAlias(partName.Text())
+		}
 
 		// part.unpitched will be a map that tells us the MIDI pitches for the
 		// midi-percussion instruments
 		for _, instrument := range midiInstruments {
-			instrumentNumber, _ := strconv.ParseInt(
-				instrument.FindElement("midi-unpitched").Text(), 10, 8,
-			)
+			if instrument.FindElement("midi-unpitched") == nil {
+				continue
+			}
+
+			instrumentNumber := childInt(instrument, "midi-unpitched", 1, 128)
 
 			instrumentId := instrument.SelectAttrValue("id", "")
 
@@ -136,9 +143,11 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		// We use midi-program to identify what MIDI instrument is referenced
 		var instrumentIDs []int64
 		for _, instrument := range midiInstruments {
-			instrumentID, _ := strconv.ParseInt(
-				instrument.FindElement("midi-program").Text(), 10, 8,
-			)
+			// The sound of the instrument is optional; we default to a piano
+			instrumentID := int64(1)
+			if instrument.FindElement("midi-program") != nil {
+				instrumentID = childInt(instrument, "midi-program", 1, 128)
+			}
 			instrumentIDs = append(instrumentIDs, instrumentID)
 		}
 
@@ -154,7 +163,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	// If there is an existing importer part with the same instruments + alias
 	// Then we must make this newer part unique by incorporating id into alias
 	for k, v := range importer.parts {
-		if k != id.Value &&
+		if k != id &&
 			reflect.DeepEqual(v.instruments, part.instruments) &&
 			v.alias == part.alias {
 			addIdToAlias := func(alias string, id string) string {
@@ -165,7 +174,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 				}
 			}
 			v.alias = addIdToAlias(v.alias, k)
-			part.alias = addIdToAlias(part.alias, id.Value)
+			part.alias = addIdToAlias(part.alias, id)
 		}
 	}
 }
@@ -227,8 +236,13 @@ func addBarline(importer *musicXMLImporter) {
 
 func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Set current part in importer
-	id := element.SelectAttr("id")
-	part := importer.parts[id.Value]
+	id := requiredAttr(element, "id")
+	part, ok := importer.parts[id]
+	if !ok {
+		malformed(element, "the part %q is not in the part list", id)
+	} else if len(part.voices) > 0 {
+		malformed(element, "there is more than one part %q", id)
+	}
 	importer.currentPart = part
 
 	// Do a pass through all content and create all voices
@@ -236,9 +250,7 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	var recursivelyCreateVoices func(element *etree.Element)
 	recursivelyCreateVoices = func(element *etree.Element) {
 		if element.Tag == "voice" {
-			voiceNumber, _ := strconv.ParseInt(element.Text(), 10, 32)
-			voice := newMusicXMLVoice()
-			importer.part().voices[int32(voiceNumber)] = voice
+			importer.part().voices[voiceNumber(element)] = newMusicXMLVoice()
 		}
 
 		for _, child := range element.ChildElements() {
@@ -247,12 +259,19 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	recursivelyCreateVoices(element)
-	importer.currentPart.currentVoice = importer.part().voices[1]
+	if len(importer.part().voices) == 0 {
+		// The <voice> tag is optional
+		importer.part().voices[1] = newMusicXMLVoice()
+	}
+	importer.currentPart.currentVoice =
+		importer.part().voices[importer.part().voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
 		// Between each measure, we do cleanup
-		for _, voice := range importer.part().voices {
+		for _, number := range importer.part().voiceNumbers() {
+			voice := importer.part().voices[number]
+
 			// We pad each voice with rests
 			// This is because we can never backup to before a measure
 			importer.currentPart.currentVoice = voice
@@ -292,9 +311,8 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
 		if voice := child.FindElement("voice"); voice != nil {
-			voiceNumber, _ := strconv.ParseInt(voice.Text(), 10, 8)
 			importer.currentPart.currentVoice =
-				importer.part().voices[int32(voiceNumber)]
+				importer.part().voices[voiceNumber(voice)]
 
 			// We pad the voice with rests as necessary to align beats
 			padVoiceToPresent(child, importer)
@@ -427,9 +445,10 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		// (1) A normal repeat with no endings
 		maintainRepeatOctaveIntegrity()
 
-		times, _ := strconv.ParseInt(
-			repeat.SelectAttrValue("times", "2"), 10, 8,
-		)
+		times := int64(2)
+		if attr := repeat.SelectAttr("times"); attr != nil {
+			times = parseInt(repeat, attr.Value, 1, maxRepeatTimes)
+		}
 
 		if isRepeatOngoing {
 			setRepeatTimes(int32(times))
@@ -468,15 +487,13 @@ func backupHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We assume that we cannot backup to before an existing note in a voice
 	// This is not enforced by MusicXML, but exporters should have no reason to
 	// do this
-	duration, _ := translateDuration(element, importer)
-	importer.part().beats -= getBeats(model.Rest{Duration: duration})
+	importer.part().beats -= getElementBeats(element, importer)
 }
 
 func forwardHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We can handle forward by moving the part-level beats counter forward
 	// This is because when switching voices, we pad to present
-	duration, _ := translateDuration(element, importer)
-	importer.part().beats += getBeats(model.Rest{Duration: duration})
+	importer.part().beats += getElementBeats(element, importer)
 }
 
 func keyHandler(element *etree.Element, importer *musicXMLImporter) {
@@ -489,9 +506,7 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 		)(element, importer)
 	} else {
 		// traditional-key
-		fifths, _ := strconv.ParseInt(
-			element.FindElement("fifths").Text(), 10, 8,
-		)
+		fifths := childInt(element, "fifths", -maxFifths, maxFifths)
 		keySignature := model.KeySignatureFromCircleOfFifths(int(fifths))
 		keySignatureSet := model.AttributeUpdate{
 			PartUpdate: model.KeySignatureSet{KeySignature: keySignature},
@@ -516,14 +531,13 @@ func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Due to our management of Alda durations and beats, we do not need to
 	// maintain history for division changes
-	value, _ := strconv.ParseInt(element.Text(), 10, 8)
-	importer.part().divisions = int(value)
+	importer.part().divisions = int(
+		parseInt(element, element.Text(), 1, math.MaxInt32),
+	)
 }
 
 func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
-	semitones, _ := strconv.ParseInt(
-		element.FindElement("chromatic").Text(), 10, 8,
-	)
+	semitones := childInt(element, "chromatic", -128, 128)
 
 	transposeSet := model.AttributeUpdate{
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
@@ -532,6 +546,17 @@ func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 	importer.appendPartAttrs(transposeSet)
 }
 
+// getElementBeats returns how many beats a <forward> or a <backup> moves
+func getElementBeats(
+	element *etree.Element, importer *musicXMLImporter,
+) float64 {
+	beats := childDuration(element) / float64(importer.part().divisions)
+	if beats < 0 || beats > 4*maxWholeNotes {
+		malformed(element, "the duration is out of range")
+	}
+	return beats
+}
+
 // translateDuration translates a MusicXML element with a duration to an Alda
 // duration using the tracked divisions parameter
 func translateDuration(
@@ -546,13 +571,16 @@ func translateDuration(
 	// 2 dot - total duration = 1.75x
 	// This can be represented by sum from i = 0 to i = dots of (1/2)^dots
 	// This is a geometric series with sum (1 - r^(n + 1)) / (1 - r), r = 1/2
-	duration, _ := strconv.ParseFloat(element.FindElement("duration").Text(), 64)
+	duration := childDuration(element)
 	if dots > 0 {
 		divisor := (1 - math.Pow(0.5, float64(dots+1))) / 0.5
 		duration = duration / divisor
 	}
 
 	aldaDuration := 4 * float64(importer.currentPart.divisions) / duration
+	if !(aldaDuration >= 1/maxWholeNotes && aldaDuration <= 1/minWholeNotes) {
+		malformed(element, "the duration is out of range")
+	}
 	return idiomaticDuration(aldaDuration, dots), aldaDuration
 }
 
@@ -575,6 +603,9 @@ func translateNote(
 		// Cue notes are category (3) as they do not change music sound directly
 		// That being said, we cannot ignore cue notes as they have duration
 		// So we can handle cue notes by using a rest with the same duration
+		if cue == nil {
+			cue = noteType
+		}
 		unsupportedHandler("cue notes", true)(cue, importer)
 		return nil, 0, 0, 0
 	} else if grace := element.FindElement("grace"); grace != nil ||
@@ -582,6 +613,9 @@ func translateNote(
 		// Grace notes are category (2), as they can technically be imported
 		// into Alda by "stealing time"
 		// This is unnecessarily difficult, and is not planned to be handled
+		if grace == nil {
+			grace = noteType
+		}
 		unsupportedHandler("grace notes", false)(grace, importer)
 		return nil, 0, 0, 0
 	}
@@ -608,11 +642,7 @@ func translateNote(
 	// A full note can be pitched, unpitched, or a rest
 	if pitch := element.FindElement("pitch"); pitch != nil {
 		// Note letter
-		step := pitch.FindElement("step")
-
-		noteLetter, _ := model.NewNoteLetter(
-			[]rune(strings.ToLower(step.Text()))[0],
-		)
+		noteLetter := childNoteLetter(pitch)
 
 		// Accidentals
 		var accidentals []model.Accidental
@@ -620,7 +650,7 @@ func translateNote(
 			accidental.Text() == "natural" {
 			accidentals = []model.Accidental{model.Natural}
 		} else if alter := pitch.FindElement("alter"); alter != nil {
-			alterAmount, _ := strconv.ParseInt(alter.Text(), 10, 8)
+			alterAmount := childInt(pitch, "alter", -maxAlter, maxAlter)
 
 			var accidental model.Accidental
 			if alterAmount > 0 {
@@ -635,8 +665,7 @@ func translateNote(
 		}
 
 		// Octaves
-		octave := pitch.FindElement("octave")
-		octaveVal, _ := strconv.ParseInt(octave.Text(), 10, 8)
+		octaveVal := childInt(pitch, "octave", 0, 9)
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
@@ -689,8 +718,10 @@ func translateNote(
 			0
 	} else {
 		// Unpitched note
-		instrument := element.FindElement("instrument")
-		instrumentId := instrument.SelectAttrValue("id", "")
+		instrumentId := ""
+		if instrument := element.FindElement("instrument"); instrument != nil {
+			instrumentId = instrument.SelectAttrValue("id", "")
+		}
 		if instrumentNumber, ok := importer.part().unpitched[instrumentId]; ok {
 			note := model.Note{
 				Pitch: model.MidiNoteNumber{
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a8ce6f2..0f47622 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -45,43 +45,57 @@ func newMusicXMLPart() *musicXMLPart {
 	}
 }
 
+// voiceNumbers returns the numbers of the part's voices, in order
+func (part *musicXMLPart) voiceNumbers() []int32 {
+	var numbers []int32
+	for number := range part.voices {
+		numbers = append(numbers, number)
+	}
+
+	sort.Slice(numbers, func(i, j int) bool { return numbers[i] < numbers[j] })
+
+	return numbers
+}
+
 func (part *musicXMLPart) collapseVoices(end bool) {
-	if len(part.voices) == 1 {
+	if len(part.voices) == 0 {
+		// The part is listed, but there is nothing in it
+		return
+	} else if len(part.voices) == 1 {
 		// For a single voice, we don't include a voice marker
 		if !part.currentVoice.isEffectivelyEmpty() {
 			part.updates = append(part.updates,
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
-			part.voices[1] = newMusicXMLVoice()
-			part.voices[1].octave = -1 // force re-setting of octave
+			part.currentVoice = newMusicXMLVoice()
+			part.currentVoice.octave = -1 // force re-setting of octave
+			part.voices[part.voiceNumbers()[0]] = part.currentVoice
 			part.beats = 0
 		}
 	} else {
 		// Process voices in order of voice number
-		var voiceNumber int32 = 1
 		anyVoiceUpdates := false
-		for voicesLeft := len(part.voices); voicesLeft > 0; voiceNumber++ {
-			if voice, ok := part.voices[voiceNumber]; ok {
-				voiceMarker := model.VoiceMarker{
-					VoiceNumber: voiceNumber,
-				}
-				if !voice.isEffectivelyEmpty() {
-					anyVoiceUpdates = true
-					part.updates = append(part.updates,
-						voiceMarker,
-					)
-					part.updates = append(part.updates,
-						part.opt.optimize(voice.getScoreUpdates())...,
-					)
-					part.voices[voiceNumber] = newMusicXMLVoice()
-					part.voices[voiceNumber].octave = -1
-				}
-				voicesLeft--
+		voiceNumbers := part.voiceNumbers()
+		for _, voiceNumber := range voiceNumbers {
+			voice := part.voices[voiceNumber]
+			voiceMarker := model.VoiceMarker{
+				VoiceNumber: voiceNumber,
+			}
+			if !voice.isEffectivelyEmpty() {
+				anyVoiceUpdates = true
+				part.updates = append(part.updates,
+					voiceMarker,
+				)
+				part.updates = append(part.updates,
+					part.opt.optimize(voice.getScoreUpdates())...,
+				)
+				part.voices[voiceNumber] = newMusicXMLVoice()
+				part.voices[voiceNumber].octave = -1
 			}
 		}
 
 		if anyVoiceUpdates {
-			part.currentVoice = part.voices[1]
+			part.currentVoice = part.voices[voiceNumbers[0]]
 			part.beats = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
@@ -407,10 +421,10 @@ func findLastWithStateRecursive(
 
 // ImportMusicXML translates a MusicXML file into Alda score updates
 // ImportMusicXML requires valid MusicXML with a "score-partwise" root tag
-func ImportMusicXML(b []byte) ([]model.ScoreUpdate, error) {
+func ImportMusicXML(b []byte) (updates []model.ScoreUpdate, err error) {
 	doc := etree.NewDocument()
 
-	err := doc.ReadFromBytes(b)
+	err = doc.ReadFromBytes(b)
 	if err != nil {
 		return nil, help.UserFacingErrorf(
 			"Failed to read from input: %s.", err.Error(),
@@ -445,6 +459,16 @@ func ImportMusicXML(b []byte) ([]model.ScoreUpdate, error) {
 		))
 	}
 
+	defer func() {
+		if r := recover(); r != nil {
+			malformed, ok := r.(malformedError)
+			if !ok {
+				panic(r)
+			}
+			updates, err = nil, malformed.err
+		}
+	}()
+
 	importer := newMusicXMLImporter()
 	handle(scorePartwise, importer)
 
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 746aeec..7722399 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -346,7 +346,7 @@ func idiomaticDuration(aldaDuration float64, dots int32) model.Duration {
 	aldaDuration = roundIfCloseEnough(aldaDuration)
 
 	// We preserve actual dotted notes to not cause any confusion
-	if dots == 0 {
+	if dots == 0 && aldaDuration >= 1.0/maxWholeNotes {
 		// Otherwise, we try to decompose the duration into "normal" durations
 		normal := []float64{1, 2, 4, 8, 16}
 
diff --git a/client/interop/musicxml/importer/values.go b/client/interop/musicxml/importer/values.go
new file mode 100644
index 0000000..28cea07
--- /dev/null
+++ b/client/interop/musicxml/importer/values.go
@@ -0,0 +1,107 @@
+package importer
+
+import (
+	"fmt"
+	"math"
+	"strconv"
+	"strings"
+
+	"alda.io/client/help"
+	"alda.io/client/model"
+	"github.com/beevik/etree"
+)
+
+// Limits on what we accept, which no sensible score exceeds
+const (
+	maxFifths      = 14
+	maxAlter       = 4
+	maxRepeatTimes = 1000
+	maxVoice       = 10000
+	// The shortest and longest durations, as a number of whole notes
+	minWholeNotes = 1.0 / 100000
+	maxWholeNotes = 1000
+)
+
+// malformedError represents input that isn't valid MusicXML, and that we can't
+// make sense of
+// Element handlers panic with a malformedError, which ImportMusicXML recovers
+type malformedError struct {
+	err error
+}
+
+// malformed aborts the import because there is an issue with an element
+func malformed(element *etree.Element, format string, args ...interface{}) {
+	panic(malformedError{err: help.UserFacingErrorf(
+		"Issue importing MusicXML: %s: %s",
+		element.GetPath(), fmt.Sprintf(format, args...),
+	)})
+}
+
+// requiredAttr returns the value of an attribute that must be there
+func requiredAttr(element *etree.Element, name string) string {
+	attr := element.SelectAttr(name)
+	if attr == nil {
+		malformed(element, "missing attribute %q", name)
+	}
+	return attr.Value
+}
+
+// requiredText returns the text of a child that must be there
+func requiredText(element *etree.Element, tag string) string {
+	child := element.FindElement(tag)
+	if child == nil {
+		malformed(element, "missing element <%s>", tag)
+	}
+	return strings.TrimSpace(child.Text())
+}
+
+// parseNumber parses the text of an element as a number
+func parseNumber(element *etree.Element, text string) float64 {
+	number, err := strconv.ParseFloat(strings.TrimSpace(text), 64)
+	if err != nil || math.IsNaN(number) || math.IsInf(number, 0) {
+		malformed(element, "%q is not a number", text)
+	}
+	return number
+}
+
+// parseInt parses the text of an element as a whole number between min and max
+// MusicXML writes some whole numbers (e.g. <alter>) as decimals
+func parseInt(
+	element *etree.Element, text string, min float64, max float64,
+) int64 {
+	number := math.Round(parseNumber(element, text))
+	if number < min || number > max {
+		malformed(element, "%q is out of range", text)
+	}
+	return int64(number)
+}
+
+// childInt parses the text of a child as a whole number between min and max
+func childInt(
+	element *etree.Element, tag string, min float64, max float64,
+) int64 {
+	return parseInt(element, requiredText(element, tag), min, max)
+}
+
+// childDuration parses the <duration> of an element
+func childDuration(element *etree.Element) float64 {
+	return parseNumber(element, requiredText(element, "duration"))
+}
+
+// childNoteLetter parses the <step> of a pitch
+func childNoteLetter(element *etree.Element) model.NoteLetter {
+	step := strings.ToLower(requiredText(element, "step"))
+	if len(step) != 1 {
+		malformed(element, "%q is not a note", step)
+	}
+	noteLetter, err := model.NewNoteLetter(rune(step[0]))
+	if err != nil {
+		malformed(element, "%q is not a note", step)
+	}
+	return noteLetter
+}
+
+// voiceNumber parses a <voice>
+func voiceNumber(element *etree.Element) int32 {
+	return int32(parseInt(element, element.Text(), 1, maxVoice))
+}
-- 
2.43.0


From f1c9d560f7284d2dcb4c597e989861296bc461fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 42/70] fix: import naturals and percussion notes regardless of
 the key signature

---
 client/interop/musicxml/importer/optimizer.go | 15 +++++++++++++++
 client/interop/musicxml/importer/util.go      |  6 ++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 3969663..d07bb01 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -96,6 +96,15 @@ func (opt *optimizer) removeRedundantAccidentals(
 					// When accidentals are different than the key, we just
 					// update our current note state
 					opt.currentNoteState[letter] = true
+
+					// Without an accidental, Alda would follow the key
+					if len(accidentals) == 0 {
+						typedPitchIdentifier.Accidentals = []model.Accidental{
+							model.Natural,
+						}
+						typedUpdate.Pitch = typedPitchIdentifier
+						update = typedUpdate
+					}
 				} else {
 					if !opt.currentNoteState[letter] {
 						// Clear accidentals (redundant)
@@ -202,6 +211,12 @@ func (opt *optimizer) translateMidiNotePitches(
 				midiNoteNumber := typedUpdate.Pitch.(model.MidiNoteNumber)
 				laa, octave := toLetterAndAccidentalsAndOctave(midiNoteNumber)
 
+				// Without an accidental, Alda would follow the key
+				if len(laa.Accidentals) == 0 &&
+					len(opt.currentKeySignature[laa.NoteLetter]) > 0 {
+					laa.Accidentals = []model.Accidental{model.Natural}
+				}
+
 				typedUpdate.Pitch = laa
 				update = typedUpdate
 
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 7722399..756c067 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -271,10 +271,8 @@ func percussionPartNameToAlias(name string) string {
 func toLetterAndAccidentalsAndOctave(
 	number model.MidiNoteNumber,
 ) (model.LetterAndAccidentals, int32) {
-	quotient := (number.MidiNote - 24) / 12
-	remainder := (number.MidiNote - 24) % 12
-
-	octave := quotient + 1
+	octave := number.MidiNote/12 - 1
+	remainder := number.MidiNote % 12
 
 	// Find the closest letter than is above the current remainder
 	noteLetter := model.C
-- 
2.43.0


From 520e0cf77fc40df3661d7e5712b49f614045c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 43/70] fix: import transpositions by octaves

---
 client/interop/musicxml/importer/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index c141170..8431854 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -538,6 +538,10 @@ func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 
 func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 	semitones := childInt(element, "chromatic", -128, 128)
+	if element.FindElement("octave-change") != nil {
+		// octave-change is added to chromatic
+		semitones += 12 * childInt(element, "octave-change", -10, 10)
+	}
 
 	transposeSet := model.AttributeUpdate{
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
-- 
2.43.0


From 5699d0c53d61bc86552f31dd4d11ea82fcb5f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 44/70] fix: keep the octave, voice and slurs after a change of
 key in MusicXML

---
 client/interop/musicxml/importer/handlers.go |  9 ++++++++-
 client/interop/musicxml/importer/importer.go | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 8431854..2a52bd4 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -394,6 +394,12 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	maintainRepeatOctaveIntegrity := func() {
+		if importer.voice().sectionStartOctave == unknownOctave ||
+			importer.voice().octave == unknownOctave {
+			// The first note of the section sets its octave
+			return
+		}
+
 		for importer.voice().octave > importer.voice().sectionStartOctave {
 			importer.append(
 				model.AttributeUpdate{PartUpdate: model.OctaveDown{}},
@@ -673,7 +679,8 @@ func translateNote(
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
-			if len(importer.voice().getScoreUpdates()) == 0 {
+			if len(importer.voice().getScoreUpdates()) == 0 ||
+				importer.voice().octave == unknownOctave {
 				// If this is the first note, we will use an octave set
 				octaveUpdates = []model.ScoreUpdate{model.AttributeUpdate{
 					PartUpdate: model.OctaveSet{OctaveNumber: int32(octaveVal)},
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 0f47622..d3ecb94 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -67,8 +67,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 			part.updates = append(part.updates,
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
-			part.currentVoice = newMusicXMLVoice()
-			part.currentVoice.octave = -1 // force re-setting of octave
+			part.currentVoice = newContinuedMusicXMLVoice(part.currentVoice)
 			part.voices[part.voiceNumbers()[0]] = part.currentVoice
 			part.beats = 0
 		}
@@ -89,8 +88,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 				part.updates = append(part.updates,
 					part.opt.optimize(voice.getScoreUpdates())...,
 				)
-				part.voices[voiceNumber] = newMusicXMLVoice()
-				part.voices[voiceNumber].octave = -1
+				part.voices[voiceNumber] = newContinuedMusicXMLVoice(voice)
 			}
 		}
 
@@ -147,6 +145,20 @@ func newMusicXMLVoice() *musicXMLVoice {
 	}
 }
 
+// unknownOctave forces setting the octave before the next note
+const unknownOctave = -1
+
+// newContinuedMusicXMLVoice returns what follows the updates of a voice that
+// are already part of the score
+func newContinuedMusicXMLVoice(previous *musicXMLVoice) *musicXMLVoice {
+	voice := newMusicXMLVoice()
+	voice.slurs = previous.slurs
+	voice.octave = unknownOctave
+	voice.sectionStartOctave = unknownOctave
+	voice.endingStartOctave = unknownOctave
+	return voice
+}
+
 func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 	return voice.updates[0].(model.EventSequence).Events
 }
-- 
2.43.0


From 3a7779624349c7df8b0969d40b7b787f5fc95bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 45/70] fix: keep MusicXML voices aligned after short measures
 and cue notes

---
 client/interop/musicxml/importer/handlers.go | 27 ++++++++++++++++++--
 client/interop/musicxml/importer/importer.go |  4 +++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 2a52bd4..e0597df 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -290,7 +290,10 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 	beatDifference := importer.part().beats - importer.voice().beats
 
-	if beatDifference < 0 {
+	if math.Abs(beatDifference) < 0.0001 {
+		// There is no difference besides floating point arithmetic issues
+		return
+	} else if beatDifference < 0 {
 		// We make an assumption that this cannot happen
 		// If we must handle this case, importing would have to support changes
 		// by beats / duration. This would be non-trivial
@@ -308,6 +311,8 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 }
 
 func measureHandler(element *etree.Element, importer *musicXMLImporter) {
+	importer.part().measureEnd = importer.part().beats
+
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
 		if voice := child.FindElement("voice"); voice != nil {
@@ -318,7 +323,15 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 			padVoiceToPresent(child, importer)
 		}
 		handle(child, importer)
+
+		importer.part().measureEnd = math.Max(
+			importer.part().measureEnd, importer.part().beats,
+		)
 	}
+
+	// A measure lasts until the end of its longest voice, which isn't
+	// necessarily the last one
+	importer.part().beats = importer.part().measureEnd
 }
 
 func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
@@ -617,7 +630,17 @@ func translateNote(
 			cue = noteType
 		}
 		unsupportedHandler("cue notes", true)(cue, importer)
-		return nil, 0, 0, 0
+
+		if element.FindElement("duration") == nil ||
+			element.FindElement("chord") != nil {
+			return nil, 0, 0, 0
+		}
+
+		duration, durationValue := translateDuration(element, importer)
+		return []model.ScoreUpdate{model.Rest{Duration: duration}},
+			importer.voice().octave,
+			durationValue,
+			0
 	} else if grace := element.FindElement("grace"); grace != nil ||
 		noteType != nil && noteType.SelectAttrValue("type", "full") == "grace" {
 		// Grace notes are category (2), as they can technically be imported
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index d3ecb94..49c18bf 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -19,6 +19,8 @@ type musicXMLPart struct {
 	// State
 	divisions int
 	beats     float64
+	// measureEnd is the furthest that beats has been in the current measure
+	measureEnd float64
 
 	// Imported updates
 	updates      []model.ScoreUpdate
@@ -70,6 +72,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 			part.currentVoice = newContinuedMusicXMLVoice(part.currentVoice)
 			part.voices[part.voiceNumbers()[0]] = part.currentVoice
 			part.beats = 0
+			part.measureEnd = 0
 		}
 	} else {
 		// Process voices in order of voice number
@@ -95,6 +98,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 		if anyVoiceUpdates {
 			part.currentVoice = part.voices[voiceNumbers[0]]
 			part.beats = 0
+			part.measureEnd = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
 			}
-- 
2.43.0


From e4da748b28902e08fc8787752f2dc4ab3a9464d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 46/70] fix: don't lose a MusicXML backup or forward before a
 direction

---
 client/interop/musicxml/importer/handlers.go | 7 +++++--
 client/interop/musicxml/importer/importer.go | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index e0597df..7960685 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -301,12 +301,13 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 			element, `Voice is found to be behind in beats so output will not be entirely accurate.`,
 		)
 	} else if beatDifference > 0 {
-		// We update without using append and moving the part-level beats here
+		// We append without moving the part-level beats here
 		// This is because we pad the voice to "catch up", not move forwards
+		present := importer.part().beats
 		importer.append(model.Rest{
 			Duration: idiomaticDuration(4/beatDifference, 0),
 		})
-		importer.voice().beats += beatDifference
+		importer.part().beats = present
 	}
 }
 
@@ -536,6 +537,8 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 }
 
 func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
+	padVoiceToPresent(element, importer)
+
 	for _, marking := range element.ChildElements() {
 		if _, ok := model.DynamicVolumes[marking.Tag]; ok {
 			importer.append(model.AttributeUpdate{
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 49c18bf..fd424b5 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -288,7 +288,10 @@ func (importer *musicXMLImporter) recountBeats() {
 	beats := getBeats(importer.voice().updates...)
 	beats = roundIfCloseEnough(beats)
 
-	importer.part().beats = beats
+	// The part moves as much as the voice does
+	importer.part().beats = roundIfCloseEnough(
+		importer.part().beats + beats - importer.voice().beats,
+	)
 	importer.voice().beats = beats
 }
 
-- 
2.43.0


From 085e1e34b03c533b80ceb644efb3958446a8a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 47/70] fix: merge tied MusicXML notes at the right times and
 end slurs on them

---
 client/interop/musicxml/importer/handlers.go  | 133 +++++---------
 client/interop/musicxml/importer/importer.go  | 168 +++++++++++++-----
 .../interop/musicxml/importer/nested_index.go |  11 --
 client/interop/musicxml/importer/util.go      |   1 -
 4 files changed, 165 insertions(+), 148 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7960685..e80a260 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -9,7 +9,6 @@ import (
 	log "alda.io/client/logging"
 	"alda.io/client/model"
 	"github.com/beevik/etree"
-	"github.com/go-test/deep"
 )
 
 // elementHandler is a function that can handle the import of a MusicXML element
@@ -319,10 +318,13 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 		if voice := child.FindElement("voice"); voice != nil {
 			importer.currentPart.currentVoice =
 				importer.part().voices[voiceNumber(voice)]
+		}
 
+		if child.Tag == "note" && child.FindElement("chord") == nil {
 			// We pad the voice with rests as necessary to align beats
 			padVoiceToPresent(child, importer)
 		}
+
 		handle(child, importer)
 
 		importer.part().measureEnd = math.Max(
@@ -807,6 +809,11 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We obtain part-level attributes that must be handled separately
 	isChord := element.FindElement("chord") != nil
 
+	if !isChord {
+		importer.voice().groupStart = importer.voice().beats
+		importer.voice().groupImported = false
+	}
+
 	isTieStop := false
 	for _, tie := range element.FindElements("tie") {
 		if tie.SelectAttrValue("type", "") == "stop" {
@@ -822,106 +829,51 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 		// In MusicXML, a tied note is represented by tie start & stop tags
 		// A note with a tie stop tag is tied to the previous note with the
 		// same pitch. So we start by finding this previous note
+		// A note can be tied to a previous note even if there is a gap
+		// between them. In this case, the second note is not logical
+		// so we will ignore it when importing to Alda
 		note := noteUpdates[len(noteUpdates)-1].(model.Note)
 
-		getOctaveChange := func(update model.ScoreUpdate) int64 {
-			if reflect.TypeOf(update) == attributeUpdateType {
-				switch update.(model.AttributeUpdate).PartUpdate.(type) {
-				case model.OctaveUp:
-					// We need to reverse the octave change
-					// Note we ignore OctaveSet's because we should really never
-					// be searching for ties between when they are generated
-					return -1
-				case model.OctaveDown:
-					return 1
-				}
-			}
-			return 0
-		}
-
-		tieStart, tieStartNI, _ := importer.findLastWithState(
-			func(update model.ScoreUpdate, state interface{}) bool {
-				switch value := update.(type) {
-				case model.Note:
-					switch pitch := value.Pitch.(type) {
-					case model.LetterAndAccidentals:
-						laa, ok := note.Pitch.(model.LetterAndAccidentals)
-						if !ok {
-							return false
-						}
-						octave := state.(int64)
-						return octave == newOctave &&
-							pitch.NoteLetter == laa.NoteLetter
-					case model.MidiNoteNumber:
-						return deep.Equal(pitch, note.Pitch) == nil
-					default:
-						return false
-					}
-				default:
-					return false
-				}
-			},
-			importer.voice().octave,
-			func(update model.ScoreUpdate, state interface{}) interface{} {
-				return state.(int64) + getOctaveChange(update)
-			},
+		tieStartNI, ok := importer.findTieStart(
+			note, newOctave, importer.voice().groupStart,
 		)
-
-		if !tieStartNI.valid(importer) {
-			// We ignore a note if we can't find the start of the tie
+		if !ok {
 			warnWhileParsing(element, `cannot find start of tie`)
 			return
 		}
 
-		// A note can be tied to a previous note even if there is a gap
-		// between them. In this case, the second note is not logical
-		// so we will ignore it when importing to Alda
-		// To detect this gap, we use the fact that MusicXML restricts notes
-		// in a chord to all have the same duration
-		// Then we can find the last update with a duration, and compare its
-		// index with our tie start index
-		_, lastDurationNI := importer.findLast(filterUpdateWithDuration)
-		indexDiff := lastDiff(lastDurationNI, tieStartNI)
-
-		var isAdjacentTie bool
-		if isChord {
-			// If this note is part of a chord, we can allow one element
-			// This element represents the start of the chord
-			if indexDiff <= 0 {
-				isAdjacentTie = true
-			} else {
-				// We can allow a single element, no more
-				_, lastLastDurationNI := importer.findLastFrom(
-					filterUpdateWithDuration,
-					lastDurationNI.last(),
-				)
+		// We have passed all checks, so we add the duration
+		beats := importer.voice().beats
 
-				if !lastDurationNI.valid(importer) {
-					isAdjacentTie = true
-				} else {
-					indexDiff = lastDiff(lastLastDurationNI, tieStartNI)
-					isAdjacentTie = indexDiff <= 0
-				}
-			}
-		} else {
-			// If a note is not part of a chord, we can allow no elements
-			isAdjacentTie = indexDiff <= 0
-		}
+		tieStartNote := importer.getAt(tieStartNI).(model.Note)
+		tieStartNote.Duration.Components = append(
+			tieStartNote.Duration.Components,
+			note.Duration.Components...,
+		)
+		tieStartNote.Slurred = note.Slurred
+		importer.voice().slurs += slurChange
+		importer.setAt(tieStartNI, tieStartNote)
 
-		if isAdjacentTie {
-			// We have passed all checks, so we add the duration
-			tieStartNote := tieStart.(model.Note)
-			tieStartNote.Duration.Components = append(
-				tieStartNote.Duration.Components,
-				note.Duration.Components...,
+		if importer.voice().groupImported &&
+			importer.voice().beats > beats {
+			// The notes that aren't tied must keep their place
+			importer.addRestToEventAt(
+				tieStartNI, importer.voice().beats-beats,
 			)
-
-			importer.setAt(tieStartNI, tieStartNote)
-		} else {
-			// We ignore a note that is in a nonadjacent tie
-			warnWhileParsing(element, `Found nonadjacent tied note.`)
-			return
 		}
+	} else if isChord && !importer.voice().groupImported {
+		// All notes of the chord so far are tied to previous ones, and this is
+		// the first one that isn't
+		excess := importer.voice().beats - importer.voice().groupStart
+		if _, ni := importer.findLast(
+			filterUpdateWithDuration,
+		); excess > 0.0001 && ni.valid(importer) {
+			importer.addRestToEventAt(ni, excess)
+		}
+
+		updateImporterState()
+		importer.append(noteUpdates...)
+		importer.voice().groupImported = true
 	} else if isChord {
 		// We find the last score update that is a note, rest, or chord
 		lastDurationElement, lastDurationNI := importer.findLast(
@@ -959,5 +911,6 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	} else {
 		updateImporterState()
 		importer.append(noteUpdates...)
+		importer.voice().groupImported = true
 	}
 }
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index fd424b5..2599c7b 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -3,6 +3,7 @@ package importer
 import (
 	log "alda.io/client/logging"
 	"fmt"
+	"math"
 	"sort"
 
 	"alda.io/client/color"
@@ -123,6 +124,13 @@ type musicXMLVoice struct {
 	beats   float64
 	octave  int64
 
+	// A group is a note, together with the other notes of its chord
+	// groupStart is the number of beats before the group, and groupImported
+	// tells whether there is an update for (at least one note of) the group,
+	// which is not the case if its notes are only tied to previous ones
+	groupStart    float64
+	groupImported bool
+
 	// slurs are represented by start and stop tags
 	// slurs can be nested, so we track the nested depth as an integer
 	// Then a note is slurred if the depth is strictly greater than 0
@@ -362,19 +370,6 @@ func (importer *musicXMLImporter) findLast(
 	return findLastRecursive(updates, filter)
 }
 
-// findLastFrom finds the last update that passes filter, but starting from a
-// specific index in flatUpdates
-func (importer *musicXMLImporter) findLastFrom(
-	filter func(update model.ScoreUpdate) bool,
-	startIndex int,
-) (model.ScoreUpdate, nestedIndex) {
-	found, ni := findLastRecursive(importer.flatUpdates()[:startIndex], filter)
-	if len(ni.indices) > 0 {
-		return found, nestedIndex{indices: append([]int{0}, ni.indices...)}
-	}
-	return found, ni
-}
-
 func findLastRecursive(
 	updates []model.ScoreUpdate,
 	filter func(updates model.ScoreUpdate) bool,
@@ -396,46 +391,127 @@ func findLastRecursive(
 	return nil, nestedIndex{indices: nil}
 }
 
-// findLastWithState finds the last update to pass filter
-// findLastWithState modifies a state as it searches
-func (importer *musicXMLImporter) findLastWithState(
-	filter func(update model.ScoreUpdate, state interface{}) bool,
-	initialState interface{},
-	updateState func(update model.ScoreUpdate, state interface{}) interface{},
-) (model.ScoreUpdate, nestedIndex, interface{}) {
-	updates := importer.voice().updates
-	return findLastWithStateRecursive(
-		updates, filter, initialState, updateState,
-	)
-}
+// findTieStart finds the last note with the same pitch that ends at a specific
+// beat
+func (importer *musicXMLImporter) findTieStart(
+	note model.Note, octave int64, beat float64,
+) (nestedIndex, bool) {
+	currentOctave := importer.voice().octave
+
+	var find func(
+		updates []model.ScoreUpdate, end float64, isChord bool,
+	) (nestedIndex, bool)
+
+	find = func(
+		updates []model.ScoreUpdate, end float64, isChord bool,
+	) (nestedIndex, bool) {
+		for i := len(updates) - 1; i >= 0; i-- {
+			beats := getBeats(updates[i])
+
+			switch value := updates[i].(type) {
+			case model.Note:
+				noteEnd := end
+				if isChord {
+					// All notes of a chord start at the same time
+					noteEnd = end + beats
+				}
+				if math.Abs(noteEnd-beat) < 0.001 &&
+					isSamePitch(value, currentOctave, note, octave) {
+					return nestedIndex{indices: []int{i}}, true
+				}
+			case model.AttributeUpdate:
+				switch value.PartUpdate.(type) {
+				case model.OctaveUp:
+					// We search backwards, so we need to reverse the change
+					currentOctave--
+				case model.OctaveDown:
+					currentOctave++
+				case model.OctaveSet:
+					currentOctave = unknownOctave
+				}
+			}
 
-func findLastWithStateRecursive(
-	updates []model.ScoreUpdate,
-	filter func(updates model.ScoreUpdate, state interface{}) bool,
-	initialState interface{},
-	updateState func(update model.ScoreUpdate, state interface{}) interface{},
-) (model.ScoreUpdate, nestedIndex, interface{}) {
-	curr := initialState
-	for i := len(updates) - 1; i >= 0; i-- {
-		if filter(updates[i], curr) {
-			return updates[i], nestedIndex{indices: []int{i}}, curr
+			if nested, ok := getNestedUpdates(updates[i], false); ok {
+				_, nestedIsChord := updates[i].(model.Chord)
+				nestedEnd := end
+				if nestedIsChord {
+					nestedEnd = end - beats
+				}
+				if ni, ok := find(nested, nestedEnd, nestedIsChord); ok {
+					return nestedIndex{
+						indices: append([]int{i}, ni.indices...),
+					}, true
+				}
+			}
+
+			if !isChord {
+				end -= beats
+			}
 		}
 
-		curr = updateState(updates[i], curr)
+		return nestedIndex{indices: nil}, false
+	}
 
-		if nested, ok := getNestedUpdates(updates[i], false); ok {
-			update, ni, state := findLastWithStateRecursive(
-				nested, filter, curr, updateState,
-			)
-			curr = state
-			if len(ni.indices) > 0 {
-				return update, nestedIndex{
-					indices: append([]int{i}, ni.indices...),
-				}, curr
+	return find(importer.voice().updates, importer.voice().beats, false)
+}
+
+// isSamePitch returns whether two notes (in specific octaves) have the same
+// pitch
+func isSamePitch(
+	note1 model.Note, octave1 int64, note2 model.Note, octave2 int64,
+) bool {
+	alter := func(accidentals []model.Accidental) int {
+		sum := 0
+		for _, accidental := range accidentals {
+			switch accidental {
+			case model.Sharp:
+				sum++
+			case model.Flat:
+				sum--
 			}
 		}
+		return sum
+	}
+
+	switch pitch1 := note1.Pitch.(type) {
+	case model.LetterAndAccidentals:
+		pitch2, ok := note2.Pitch.(model.LetterAndAccidentals)
+		return ok &&
+			octave1 == octave2 &&
+			pitch1.NoteLetter == pitch2.NoteLetter &&
+			alter(pitch1.Accidentals) == alter(pitch2.Accidentals)
+	case model.MidiNoteNumber:
+		return note1.Pitch == note2.Pitch
+	default:
+		return false
+	}
+}
+
+// addRestToEventAt adds a rest to the note or chord at (or around) a specific
+// nestedIndex, so that whatever comes next starts earlier by a number of beats,
+// while the notes still sound
+func (importer *musicXMLImporter) addRestToEventAt(
+	ni nestedIndex, earlier float64,
+) {
+	indices := ni.indices
+	if len(indices) > 1 {
+		parent := nestedIndex{indices: indices[:len(indices)-1]}
+		if _, ok := importer.getAt(parent).(model.Chord); ok {
+			indices = parent.indices
+		}
+	}
+
+	event := importer.getAt(nestedIndex{indices: indices})
+	rest := model.Rest{
+		Duration: idiomaticDuration(4/(getBeats(event)-earlier), 0),
+	}
+
+	chord, ok := event.(model.Chord)
+	if !ok {
+		chord = model.Chord{Events: []model.ScoreUpdate{event}}
 	}
-	return nil, nestedIndex{indices: nil}, curr
+	chord.Events = append(chord.Events, rest)
+	importer.setAt(nestedIndex{indices: indices}, chord)
 }
 
 // ImportMusicXML translates a MusicXML file into Alda score updates
diff --git a/client/interop/musicxml/importer/nested_index.go b/client/interop/musicxml/importer/nested_index.go
index 4f50482..b3205e1 100644
--- a/client/interop/musicxml/importer/nested_index.go
+++ b/client/interop/musicxml/importer/nested_index.go
@@ -1,7 +1,5 @@
 package importer
 
-import "math"
-
 // nestedIndex identifies a model.ScoreUpdate in a []model.ScoreUpdate
 // nestedIndex is designed to work with slices as built by musicXMLImporter
 // indices (in order) represent the indices within slices of score updates
@@ -23,12 +21,3 @@ func (ni nestedIndex) valid(importer *musicXMLImporter) bool {
 func (ni nestedIndex) last() int {
 	return ni.indices[len(ni.indices)-1]
 }
-
-// lastDiff returns the diff between indices at the deepest recursive level
-func lastDiff(minuend nestedIndex, subtrahend nestedIndex) int {
-	index := math.Min(
-		float64(len(minuend.indices)),
-		float64(len(subtrahend.indices)),
-	) - 1
-	return minuend.indices[int(index)] - subtrahend.indices[int(index)]
-}
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 756c067..2dae4bd 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -13,7 +13,6 @@ import (
 var noteType = reflect.TypeOf(model.Note{})
 var chordType = reflect.TypeOf(model.Chord{})
 var restType = reflect.TypeOf(model.Rest{})
-var attributeUpdateType = reflect.TypeOf(model.AttributeUpdate{})
 
 // Commenting these out because staticcheck is complaining that they're unused:
 //
-- 
2.43.0


From d48da77cf6aa22ab3d56de69b37b659affd91cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 48/70] fix: import MusicXML repeats and endings for all
 voices, from the right place

---
 client/interop/musicxml/importer/handlers.go  | 254 +++++++++++++-----
 client/interop/musicxml/importer/optimizer.go |  16 +-
 2 files changed, 196 insertions(+), 74 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index e80a260..90fa75f 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"strings"
 
 	"alda.io/client/color"
 	log "alda.io/client/logging"
@@ -341,72 +342,104 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Obtaining information helpful for barline handling
 	ending := element.FindElement("ending")
 	endingType := ""
+	endingNumbers := []int32{}
 	if ending != nil {
 		endingType = ending.SelectAttrValue("type", "")
 		if endingType == "discontinue" {
 			// We treat discontinue the same as stopping
 			endingType = "stop"
 		}
+
+		for _, number := range strings.FieldsFunc(
+			ending.SelectAttrValue("number", ""),
+			func(r rune) bool { return r == ',' || r == ' ' },
+		) {
+			endingNumbers = append(endingNumbers, int32(
+				parseInt(ending, number, 1, maxRepeatTimes),
+			))
+		}
 	}
 
 	repeat := element.FindElement("repeat")
 	repeatDirection := ""
+	times := int64(2)
 	if repeat != nil {
 		repeatDirection = repeat.SelectAttrValue("direction", "")
+		if attr := repeat.SelectAttr("times"); attr != nil {
+			times = parseInt(repeat, attr.Value, 1, maxRepeatTimes)
+		}
 	}
 
-	importTo, _ := importer.findLast(filterNestedImportableUpdate)
-	isRepeatOngoing := reflect.TypeOf(importTo) == repeatType
-
 	// No significant barline attributes, just continue
 	if ending == nil && repeat == nil {
 		return
 	}
 
+	if endingType == "stop" || repeatDirection == "backward" {
+		// The measure ends here, and it lasts until the end of its longest voice
+		importer.part().beats = math.Max(
+			importer.part().beats, importer.part().measureEnd,
+		)
+	}
+
+	// Repeats and endings concern all voices
+	currentVoice := importer.voice()
+	for _, number := range importer.part().voiceNumbers() {
+		importer.currentPart.currentVoice = importer.part().voices[number]
+		padVoiceToPresent(element, importer)
+		handleBarlineOfVoice(
+			importer, endingType, endingNumbers, repeatDirection, int32(times),
+		)
+	}
+	importer.currentPart.currentVoice = currentVoice
+}
+
+// handleBarlineOfVoice handles the repeats and endings of a barline for the
+// current voice
+func handleBarlineOfVoice(
+	importer *musicXMLImporter,
+	endingType string, endingNumbers []int32,
+	repeatDirection string, times int32,
+) {
+	isImportingInto := func(t reflect.Type) bool {
+		importTo, _ := importer.findLast(filterNestedImportableUpdate)
+		return reflect.TypeOf(importTo) == t
+	}
+
 	// Dealing with start of repeats & endings
 	startRepeat := func() {
 		importer.voice().sectionStartOctave = importer.voice().octave
 		importer.append(model.Repeat{Event: model.EventSequence{}})
 	}
 
-	startEnding := func() {
-		importer.voice().endingStartOctave = importer.voice().octave
-		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
-	}
+	// repeatSection turns everything since the last repeat into a repeat
+	repeatSection := func() {
+		updates := importer.flatUpdates()
+
+		start := len(updates)
+		for start > 0 && reflect.TypeOf(updates[start-1]) != repeatType {
+			start--
+		}
 
-	if ending == nil && repeatDirection == "forward" {
-		// (1) Repeat starting (no ending start)
-		startRepeat()
-	} else if endingType == "start" && repeatDirection == "forward" {
-		// (2) Repeat starting & first ending starting
-		startRepeat()
-		startEnding()
-	} else if endingType == "start" && !isRepeatOngoing {
-		// (3) First ending start, no repeat yet
-		// We have to build the repeat
 		repeatUpdate := model.Repeat{Event: model.EventSequence{
-			Events: importer.flatUpdates(),
+			Events: append([]model.ScoreUpdate{}, updates[start:]...),
 		}}
-
-		importer.setAll([]model.ScoreUpdate{repeatUpdate})
-		startEnding()
-	} else if endingType == "start" && isRepeatOngoing {
-		// (4) Ending starting, but already have repeat and previous ending
-		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
+		importer.setAll(append(
+			append([]model.ScoreUpdate{}, updates[:start]...), repeatUpdate,
+		))
 	}
 
-	// Dealing with conclusion of repeats & endings
-	countEndings := func() int {
+	// usedEndingNumbers returns the numbers of the endings that are complete
+	usedEndingNumbers := func() map[int32]bool {
 		repeat, _ := importer.findLast(filterType(repeatType))
-		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
+		return getEndingNumbers(repeat.(model.Repeat))
+	}
 
-		count := 0
-		for _, update := range repeatEvents {
-			if reflect.TypeOf(update) == repetitionType {
-				count++
-			}
+	startEnding := func() {
+		if len(usedEndingNumbers()) == 0 {
+			importer.voice().endingStartOctave = importer.voice().octave
 		}
-		return count
+		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
 	}
 
 	maintainRepeatOctaveIntegrity := func() {
@@ -431,21 +464,16 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		}
 	}
 
-	setEndingRepetitions := func() {
-		endingNumber := countEndings()
-		repetitionRange := []model.RepetitionRange{{
-			First: int32(endingNumber),
-			Last:  int32(endingNumber),
-		}}
-
+	setEndingRepetitions := func(numbers []int32) {
 		// Find the repetition corresponding to this ending
 		_, ni := importer.findLast(filterNestedImportableUpdate)
 		// Set the repetitions
+		repetitions := getEndingRepetitions(numbers, usedEndingNumbers())
 		importer.modifyAt(
 			ni,
 			func(update model.ScoreUpdate) model.ScoreUpdate {
 				ending := update.(model.OnRepetitions)
-				ending.Repetitions = repetitionRange
+				ending.Repetitions = repetitions
 				return ending
 			},
 		)
@@ -461,47 +489,129 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 				return repeat
 			},
 		)
+		// The next section starts here
+		importer.voice().sectionStartOctave = importer.voice().octave
 	}
 
-	if ending == nil && repeatDirection == "backward" {
-		// (1) A normal repeat with no endings
-		maintainRepeatOctaveIntegrity()
+	if isImportingInto(repetitionType) && endingType != "stop" {
+		if repeatDirection == "backward" {
+			// An ending that isn't stopped explicitly
+			endingType = "stop"
+		} else if endingType == "start" || repeatDirection == "forward" {
+			setEndingRepetitions(nil)
+		}
+	}
 
-		times := int64(2)
-		if attr := repeat.SelectAttr("times"); attr != nil {
-			times = parseInt(repeat, attr.Value, 1, maxRepeatTimes)
+	if repeatDirection == "forward" {
+		// (1) Repeat starting
+		if isImportingInto(repeatType) {
+			// The section before isn't repeated
+			setRepeatTimes(getMaxEndingNumber(usedEndingNumbers()))
 		}
+		startRepeat()
+	} else if endingType == "start" && !isImportingInto(repeatType) {
+		// (2) First ending start, no repeat yet
+		// We have to build the repeat
+		repeatSection()
+	}
 
-		if isRepeatOngoing {
-			setRepeatTimes(int32(times))
+	if endingType == "start" {
+		startEnding()
+	}
+
+	// Dealing with conclusion of repeats & endings
+	if endingType == "stop" && isImportingInto(repetitionType) {
+		if repeatDirection == "backward" {
+			// (1) Both ending and repeat concluding
+			// This means this is not the last ending
+			maintainRepeatOctaveIntegrity()
+
+			setEndingRepetitions(endingNumbers)
+
+			// Set the current octave manually to the ending start octave
+			// This is because when going to an ending we skip previous endings
+			importer.voice().octave = importer.voice().endingStartOctave
 		} else {
-			// We have to create the repeat with all the existing score updates
-			repeatUpdate := model.Repeat{
-				Event: model.EventSequence{
-					Events: importer.flatUpdates(),
-				},
-			}
-			importer.setAll([]model.ScoreUpdate{repeatUpdate})
-			setRepeatTimes(int32(times))
-		}
-	} else if endingType == "stop" && repeat == nil {
-		// (2) Only an ending is concluding, but not a repeat
-		// This means this is the last ending in a repeated section
-		// Note how we don't have to maintain any octave information because
-		// we just continue on playing after this point
-		setEndingRepetitions()
-		setRepeatTimes(int32(countEndings()))
-	} else if endingType == "stop" && repeatDirection == "backward" {
-		// (3) Both ending and repeat concluding
-		// This means this is not the last ending
+			// (2) Only an ending is concluding, but not a repeat
+			// This means this is the last ending in a repeated section
+			// Note how we don't have to maintain any octave information because
+			// we just continue on playing after this point
+			setEndingRepetitions(endingNumbers)
+			setRepeatTimes(getMaxEndingNumber(usedEndingNumbers()))
+		}
+	} else if repeatDirection == "backward" {
+		// (3) A normal repeat with no endings
 		maintainRepeatOctaveIntegrity()
 
-		setEndingRepetitions()
+		if !isImportingInto(repeatType) {
+			// We have to create the repeat with the existing score updates
+			repeatSection()
+		}
+		setRepeatTimes(times)
+	}
+}
+
+// getEndingNumbers returns the numbers of the endings in a repeat
+func getEndingNumbers(repeat model.Repeat) map[int32]bool {
+	numbers := map[int32]bool{}
+	for _, update := range repeat.Event.(model.EventSequence).Events {
+		if ending, ok := update.(model.OnRepetitions); ok {
+			for _, repetition := range ending.Repetitions {
+				for i := repetition.First; i <= repetition.Last; i++ {
+					numbers[i] = true
+				}
+			}
+		}
+	}
+	return numbers
+}
 
-		// Set the current octave manually to the ending start octave
-		// This is because when going to an ending we skip previous endings
-		importer.voice().octave = importer.voice().endingStartOctave
+// getMaxEndingNumber returns how often a repeat with endings is played
+func getMaxEndingNumber(numbers map[int32]bool) int32 {
+	max := int32(1)
+	for number := range numbers {
+		if number > max {
+			max = number
+		}
+	}
+	return max
+}
+
+// getEndingRepetitions returns the repetitions for an ending with the provided
+// numbers, which is simply the next one if the numbers don't make sense given
+// those that are already used
+func getEndingRepetitions(
+	numbers []int32, used map[int32]bool,
+) []model.RepetitionRange {
+	next := int32(1)
+	for used[next] {
+		next++
+	}
+
+	isNext := false
+	for _, number := range numbers {
+		isNext = isNext || number == next
+		if used[number] {
+			numbers = nil
+			break
+		}
+	}
+
+	if !isNext {
+		numbers = nil
+	}
+
+	if len(numbers) == 0 {
+		numbers = []int32{next}
+	}
+
+	var repetitions []model.RepetitionRange
+	for _, number := range numbers {
+		repetitions = append(repetitions, model.RepetitionRange{
+			First: number, Last: number,
+		})
 	}
+	return repetitions
 }
 
 func backupHandler(element *etree.Element, importer *musicXMLImporter) {
diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index d07bb01..3d7a12e 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -262,7 +262,8 @@ func (opt *optimizer) translateMidiNotePitches(
 
 // handleUnfinishedRepeats deals with repeats that are not closed
 // These repeats have Times == 0 (i.e. no repeat end set the proper value)
-// Currently, we set Times to 1 to showcase that there is repeat information
+// Currently, we set Times to 1 to showcase that there is repeat information,
+// or to what the endings require
 func (opt *optimizer) handleUnfinishedRepeats(
 	updates []model.ScoreUpdate,
 ) []model.ScoreUpdate {
@@ -270,7 +271,18 @@ func (opt *optimizer) handleUnfinishedRepeats(
 		switch r := update.(type) {
 		case model.Repeat:
 			if r.Times == 0 {
-				r.Times = 1
+				events := r.Event.(model.EventSequence).Events
+				for i, event := range events {
+					ending, ok := event.(model.OnRepetitions)
+					if ok && len(ending.Repetitions) == 0 {
+						ending.Repetitions = getEndingRepetitions(
+							nil, getEndingNumbers(r),
+						)
+						events[i] = ending
+					}
+				}
+
+				r.Times = getMaxEndingNumber(getEndingNumbers(r))
 				return r
 			}
 		}
-- 
2.43.0


From 8ed5a0f8017e1c08a2126d86412e5ce19e2f5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 49/70] fix: keep the octave after an ending that is played
 more than once

---
 client/interop/musicxml/importer/handlers.go | 13 ++--
 client/interop/musicxml/importer/importer.go | 76 +++++++++++++++-----
 2 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 90fa75f..9995531 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -383,15 +383,12 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	// Repeats and endings concern all voices
-	currentVoice := importer.voice()
-	for _, number := range importer.part().voiceNumbers() {
-		importer.currentPart.currentVoice = importer.part().voices[number]
+	importer.forEachVoice(func() {
 		padVoiceToPresent(element, importer)
 		handleBarlineOfVoice(
 			importer, endingType, endingNumbers, repeatDirection, int32(times),
 		)
-	}
-	importer.currentPart.currentVoice = currentVoice
+	})
 }
 
 // handleBarlineOfVoice handles the repeats and endings of a barline for the
@@ -535,7 +532,11 @@ func handleBarlineOfVoice(
 			// (2) Only an ending is concluding, but not a repeat
 			// This means this is the last ending in a repeated section
 			// Note how we don't have to maintain any octave information because
-			// we just continue on playing after this point
+			// we just continue on playing after this point, unless the ending
+			// is played more than once
+			if len(endingNumbers) > 1 {
+				maintainRepeatOctaveIntegrity()
+			}
 			setEndingRepetitions(endingNumbers)
 			setRepeatTimes(getMaxEndingNumber(usedEndingNumbers()))
 		}
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 2599c7b..33aaf29 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -66,7 +66,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 		return
 	} else if len(part.voices) == 1 {
 		// For a single voice, we don't include a voice marker
-		if !part.currentVoice.isEffectivelyEmpty() {
+		if len(part.currentVoice.getScoreUpdates()) > 0 {
 			part.updates = append(part.updates,
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
@@ -84,7 +84,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 			voiceMarker := model.VoiceMarker{
 				VoiceNumber: voiceNumber,
 			}
-			if !voice.isEffectivelyEmpty() {
+			if len(voice.getScoreUpdates()) > 0 {
 				anyVoiceUpdates = true
 				part.updates = append(part.updates,
 					voiceMarker,
@@ -175,22 +175,6 @@ func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 	return voice.updates[0].(model.EventSequence).Events
 }
 
-// isEffectivelyEmpty returns if a voice has no updates, or just an empty repeat
-func (voice *musicXMLVoice) isEffectivelyEmpty() bool {
-	if len(voice.getScoreUpdates()) == 1 {
-		repeat, ok := voice.getScoreUpdates()[0].(model.Repeat)
-		if ok {
-			eventSeq, ok := repeat.Event.(model.EventSequence)
-			if ok {
-				if len(eventSeq.Events) == 0 {
-					return true
-				}
-			}
-		}
-	}
-	return len(voice.getScoreUpdates()) == 0
-}
-
 // musicXMLImporter contains global state for importing a MusicXML file
 type musicXMLImporter struct {
 	parts       map[string]*musicXMLPart
@@ -273,13 +257,69 @@ func (importer *musicXMLImporter) append(newUpdates ...model.ScoreUpdate) {
 // appendPartAttrs appends attribute updates to the current part
 // We make these apply to the entire part by closing out any ongoing voices
 func (importer *musicXMLImporter) appendPartAttrs(update model.ScoreUpdate) {
+	// A repeat that has just started continues after the attribute update
+	repeatStarted := importer.removeStartedRepeat()
 	importer.currentPart.collapseVoices(true)
+	if repeatStarted {
+		importer.forEachVoice(func() {
+			importer.voice().sectionStartOctave = importer.voice().octave
+			importer.append(model.Repeat{Event: model.EventSequence{}})
+		})
+	}
+
 	importer.currentPart.updates = append(importer.currentPart.updates,
 		// We optimize the single attr update to catch key signature changes
 		importer.currentPart.opt.optimize([]model.ScoreUpdate{update})...,
 	)
 }
 
+// removeStartedRepeat removes a repeat that has started, but has nothing in it
+// yet, and returns whether there is one
+func (importer *musicXMLImporter) removeStartedRepeat() bool {
+	removed := false
+	importer.forEachVoice(func() {
+		updates := importer.flatUpdates()
+		if len(updates) == 0 {
+			return
+		}
+
+		repeat, ok := updates[len(updates)-1].(model.Repeat)
+		if ok && repeat.Times == 0 && len(
+			repeat.Event.(model.EventSequence).Events,
+		) == 0 {
+			importer.modifyAt(
+				nestedIndex{indices: []int{0}},
+				func(update model.ScoreUpdate) model.ScoreUpdate {
+					modified, _ := setNestedUpdates(update, updates[:len(updates)-1])
+					return modified
+				},
+			)
+			removed = true
+		}
+	})
+	return removed
+}
+
+// forEachVoice calls a function with each voice of the current part (in order)
+// as the current voice
+func (importer *musicXMLImporter) forEachVoice(f func()) {
+	part := importer.currentPart
+
+	currentNumber := int32(0)
+	for _, number := range part.voiceNumbers() {
+		if part.voices[number] == part.currentVoice {
+			currentNumber = number
+		}
+	}
+
+	for _, number := range part.voiceNumbers() {
+		part.currentVoice = part.voices[number]
+		f()
+	}
+
+	part.currentVoice = part.voices[currentNumber]
+}
+
 // setAll replaces the updates for the current slice to import into
 func (importer *musicXMLImporter) setAll(newUpdates []model.ScoreUpdate) {
 	_, ni := importer.findLast(filterNestedImportableUpdate)
-- 
2.43.0


From a6be078747368822c03c51104d428fd61f899e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 50/70] fix: give imported MusicXML parts valid and distinct
 names

---
 client/interop/musicxml/importer/handlers.go | 20 +--------
 client/interop/musicxml/importer/importer.go | 46 ++++++++++++++++++++
 client/interop/musicxml/importer/util.go     | 16 +++++++
 3 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 9995531..b0eb5c4 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -114,7 +114,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	midiInstruments := element.FindElements("midi-instrument")
 	if len(midiInstruments) == 0 {
 		// If no instruments are listed, we default to a piano
-		part.instruments = []string{"piano"}
+		part.instruments = []string{model.InstrumentsList()[0]}
 	} else if len(element.FindElements("midi-instrument/midi-unpitched")) > 0 {
 		// We're dealing with an unpitched percussion part
 		// We must setup additional attributes of our musicXMLPart
@@ -159,24 +159,6 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 
 		part.instruments = instruments
 	}
-
-	// If there is an existing importer part with the same instruments + alias
-	// Then we must make this newer part unique by incorporating id into alias
-	for k, v := range importer.parts {
-		if k != id &&
-			reflect.DeepEqual(v.instruments, part.instruments) &&
-			v.alias == part.alias {
-			addIdToAlias := func(alias string, id string) string {
-				if alias == "" {
-					return id
-				} else {
-					return alias + fmt.Sprintf("_%s", id)
-				}
-			}
-			v.alias = addIdToAlias(v.alias, k)
-			part.alias = addIdToAlias(part.alias, id)
-		}
-	}
 }
 
 // addBarline adds a barline to represent a measure passing
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 33aaf29..da56d4d 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -201,6 +201,7 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	}
 
 	sort.Strings(partIDs)
+	importer.assignAliases(partIDs)
 
 	for _, id := range partIDs {
 		part := importer.parts[id]
@@ -210,6 +211,51 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	return updates
 }
 
+// assignAliases makes sure that the names of all parts are distinct (and valid)
+// Parts that share an instrument all need an alias, which incorporates the ID
+// if it isn't unique otherwise
+func (importer *musicXMLImporter) assignAliases(partIDs []string) {
+	shareInstrument := func(part1 *musicXMLPart, part2 *musicXMLPart) bool {
+		for _, instrument1 := range part1.instruments {
+			for _, instrument2 := range part2.instruments {
+				if instrument1 == instrument2 {
+					return true
+				}
+			}
+		}
+		return false
+	}
+
+	aliases := map[string]string{}
+	for _, id := range partIDs {
+		part := importer.parts[id]
+		aliases[id] = part.alias
+
+		for _, otherID := range partIDs {
+			other := importer.parts[otherID]
+			if id == otherID {
+				continue
+			}
+
+			if part.alias == "" && shareInstrument(part, other) {
+				aliases[id] = id
+			} else if part.alias != "" && part.alias == other.alias {
+				aliases[id] = part.alias + "_" + id
+			}
+		}
+	}
+
+	used := map[string]bool{}
+	for _, id := range partIDs {
+		alias := toValidAlias(aliases[id])
+		for alias != "" && used[alias] {
+			alias += "_"
+		}
+		used[alias] = true
+		importer.parts[id].alias = alias
+	}
+}
+
 func (importer *musicXMLImporter) part() *musicXMLPart {
 	return importer.currentPart
 }
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 2dae4bd..12ed2fe 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -263,6 +263,22 @@ func percussionPartNameToAlias(name string) string {
 	return strings.Join(strings.Split(name, " "), "_")
 }
 
+// toValidAlias replaces whatever Alda doesn't allow in an alias
+func toValidAlias(alias string) string {
+	return strings.Map(
+		func(r rune) rune {
+			switch {
+			case 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z', '0' <= r && r <= '9',
+				strings.ContainsRune("_-+'()", r):
+				return r
+			default:
+				return '_'
+			}
+		},
+		alias,
+	)
+}
+
 // toLetterAndAccidentalsAndOctave translates a MidiNoteNumber to an equivalent
 // pitch representation consisting of a LetterAndAccidentals and an octave
 // toLetterAndAccidentalsAndOctave naively generates a note letter with either
-- 
2.43.0


From f7db30879b88ece1b948e66b094e76abca09fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 51/70] fix: ignore MusicXML chord notes without a first note,
 and reject measures outside parts

---
 client/interop/musicxml/importer/handlers.go | 13 +++++++++++++
 client/interop/musicxml/importer/importer.go |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index b0eb5c4..15b55bb 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -265,6 +265,8 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 			}
 		}
 	}
+
+	importer.currentPart = nil
 }
 
 // padVoiceToPresent fills the current voice with rests to catch up to the
@@ -295,6 +297,9 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 
 func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	importer.part().measureEnd = importer.part().beats
+	importer.forEachVoice(func() {
+		importer.voice().groupStarted = false
+	})
 
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
@@ -902,7 +907,15 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We obtain part-level attributes that must be handled separately
 	isChord := element.FindElement("chord") != nil
 
+	if isChord && !importer.voice().groupStarted {
+		warnWhileParsing(
+			element, `Note found in chord with no starting note. The note will be ignored.`,
+		)
+		return
+	}
+
 	if !isChord {
+		importer.voice().groupStarted = true
 		importer.voice().groupStart = importer.voice().beats
 		importer.voice().groupImported = false
 	}
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index da56d4d..564e384 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -125,9 +125,11 @@ type musicXMLVoice struct {
 	octave  int64
 
 	// A group is a note, together with the other notes of its chord
+	// groupStarted tells whether there is a group in the current measure,
 	// groupStart is the number of beats before the group, and groupImported
 	// tells whether there is an update for (at least one note of) the group,
 	// which is not the case if its notes are only tied to previous ones
+	groupStarted  bool
 	groupStart    float64
 	groupImported bool
 
-- 
2.43.0


From 86096b99a3bc869e71adbc175b09815601060680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 52/70] fix: import percussion notes below octave 0, and nested
 or unfinished repeats without looping forever

---
 client/interop/musicxml/importer/handlers.go  | 24 ++++++++++++-------
 client/interop/musicxml/importer/importer.go  | 23 +++++++++++-------
 client/interop/musicxml/importer/optimizer.go | 11 ++++++++-
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 15b55bb..19b8290 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -55,6 +55,8 @@ func handle(element *etree.Element, importer *musicXMLImporter) {
 		if importer.currentPart == nil &&
 			element.Tag != "score-part" && element.Tag != "part" {
 			malformed(element, "not inside a <part>")
+		} else if importer.currentPart != nil && element.Tag == "part" {
+			malformed(element, "inside another <part>")
 		}
 		handler(element, importer)
 	} else {
@@ -249,6 +251,10 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.part().voices[importer.part().voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
+		importer.forEachVoice(func() {
+			importer.voice().groupStarted = false
+		})
+
 		handle(child, importer)
 		// Between each measure, we do cleanup
 		for _, number := range importer.part().voiceNumbers() {
@@ -297,9 +303,6 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 
 func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	importer.part().measureEnd = importer.part().beats
-	importer.forEachVoice(func() {
-		importer.voice().groupStarted = false
-	})
 
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
@@ -408,7 +411,7 @@ func handleBarlineOfVoice(
 		repeatUpdate := model.Repeat{Event: model.EventSequence{
 			Events: append([]model.ScoreUpdate{}, updates[start:]...),
 		}}
-		importer.setAll(append(
+		importer.setFlatUpdates(append(
 			append([]model.ScoreUpdate{}, updates[:start]...), repeatUpdate,
 		))
 	}
@@ -477,12 +480,17 @@ func handleBarlineOfVoice(
 		importer.voice().sectionStartOctave = importer.voice().octave
 	}
 
-	if isImportingInto(repetitionType) && endingType != "stop" {
-		if repeatDirection == "backward" {
-			// An ending that isn't stopped explicitly
-			endingType = "stop"
+	if isImportingInto(repetitionType) {
+		if endingType == "stop" && repeatDirection == "forward" {
+			// The last ending, directly followed by the next repeat
+			setEndingRepetitions(endingNumbers)
+			endingType = ""
 		} else if endingType == "start" || repeatDirection == "forward" {
+			// An ending that isn't stopped explicitly
 			setEndingRepetitions(nil)
+		} else if repeatDirection == "backward" {
+			// An ending that isn't stopped explicitly
+			endingType = "stop"
 		}
 	}
 
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 564e384..ae54ad5 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -160,7 +160,7 @@ func newMusicXMLVoice() *musicXMLVoice {
 }
 
 // unknownOctave forces setting the octave before the next note
-const unknownOctave = -1
+const unknownOctave = -100
 
 // newContinuedMusicXMLVoice returns what follows the updates of a voice that
 // are already part of the score
@@ -271,6 +271,19 @@ func (importer *musicXMLImporter) flatUpdates() []model.ScoreUpdate {
 	return importer.voice().updates[0].(model.EventSequence).Events
 }
 
+// setFlatUpdates replaces the base level updates of the current voice
+func (importer *musicXMLImporter) setFlatUpdates(
+	newUpdates []model.ScoreUpdate,
+) {
+	importer.modifyAt(
+		nestedIndex{indices: []int{0}},
+		func(update model.ScoreUpdate) model.ScoreUpdate {
+			modified, _ := setNestedUpdates(update, newUpdates)
+			return modified
+		},
+	)
+}
+
 // updates returns the current list of model.ScoreUpdate to import into
 func (importer *musicXMLImporter) updates() []model.ScoreUpdate {
 	// We can use findLast to recursively determine the current updates
@@ -335,13 +348,7 @@ func (importer *musicXMLImporter) removeStartedRepeat() bool {
 		if ok && repeat.Times == 0 && len(
 			repeat.Event.(model.EventSequence).Events,
 		) == 0 {
-			importer.modifyAt(
-				nestedIndex{indices: []int{0}},
-				func(update model.ScoreUpdate) model.ScoreUpdate {
-					modified, _ := setNestedUpdates(update, updates[:len(updates)-1])
-					return modified
-				},
-			)
+			importer.setFlatUpdates(updates[:len(updates)-1])
 			removed = true
 		}
 	})
diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 3d7a12e..e0ad8b4 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -48,7 +48,7 @@ func (opt *optimizer) resetDuration() {
 }
 
 func (opt *optimizer) resetOctave() {
-	opt.currentOctave = -1
+	opt.currentOctave = unknownOctave
 }
 
 func (opt *optimizer) softReset() {
@@ -254,6 +254,15 @@ func (opt *optimizer) translateMidiNotePitches(
 			OctaveNumber: octaveSetOctaves[i],
 		}}
 
+		if octaveSetOctaves[i] < 0 {
+			// Alda has no way to set an octave below 0 directly
+			octaveDown := model.AttributeUpdate{PartUpdate: model.OctaveDown{}}
+			updates = insert(octaveDown, updates, octaveSetIndices[i])
+			octaveSet = model.AttributeUpdate{PartUpdate: model.OctaveSet{
+				OctaveNumber: 0,
+			}}
+		}
+
 		updates = insert(octaveSet, updates, octaveSetIndices[i])
 	}
 
-- 
2.43.0


From 4c905fa3f023e1d3fe159a3f3e349589436c64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 53/70] fix: don't add MusicXML chord notes to a group before a
 barline

---
 client/interop/musicxml/importer/handlers.go | 7 +++----
 client/interop/musicxml/importer/importer.go | 8 ++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 19b8290..62d5186 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -251,10 +251,7 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.part().voices[importer.part().voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
-		importer.forEachVoice(func() {
-			importer.voice().groupStarted = false
-		})
-
+		importer.endGroups()
 		handle(child, importer)
 		// Between each measure, we do cleanup
 		for _, number := range importer.part().voiceNumbers() {
@@ -329,6 +326,8 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 }
 
 func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
+	importer.endGroups()
+
 	// Obtaining information helpful for barline handling
 	ending := element.FindElement("ending")
 	endingType := ""
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index ae54ad5..2c5dec2 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -319,6 +319,7 @@ func (importer *musicXMLImporter) append(newUpdates ...model.ScoreUpdate) {
 // We make these apply to the entire part by closing out any ongoing voices
 func (importer *musicXMLImporter) appendPartAttrs(update model.ScoreUpdate) {
 	// A repeat that has just started continues after the attribute update
+	importer.endGroups()
 	repeatStarted := importer.removeStartedRepeat()
 	importer.currentPart.collapseVoices(true)
 	if repeatStarted {
@@ -375,6 +376,13 @@ func (importer *musicXMLImporter) forEachVoice(f func()) {
 	part.currentVoice = part.voices[currentNumber]
 }
 
+// endGroups ends the current group of each voice of the current part
+func (importer *musicXMLImporter) endGroups() {
+	for _, voice := range importer.currentPart.voices {
+		voice.groupStarted = false
+	}
+}
+
 // setAll replaces the updates for the current slice to import into
 func (importer *musicXMLImporter) setAll(newUpdates []model.ScoreUpdate) {
 	_, ni := importer.findLast(filterNestedImportableUpdate)
-- 
2.43.0


From 2882b3676ef4be509c8dc06e9b3dcba742c0f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 54/70] fix: compare offsets as points in time, ignoring
 floating point rounding

---
 client/model/attributes.go | 27 ++++++++++++++++++++++++---
 client/model/marker.go     |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index 2a2c280..bc50ef5 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -108,6 +109,19 @@ func NewGlobalAttributes() *GlobalAttributes {
 	}
 }
 
+// offsetTolerance is the largest difference, in milliseconds, between two
+// offsets that are considered to be the same point in time.
+//
+// Offsets are the sums of the durations of events, and sums of floating point
+// numbers can differ slightly, even if the durations add up to the same amount
+// of musical time. (For example, a septuplet and a whole note.)
+const offsetTolerance = 0.001
+
+// sameOffset returns true if two offsets are the same point in time.
+func sameOffset(offset1 float64, offset2 float64) bool {
+	return math.Abs(offset1-offset2) <= offsetTolerance
+}
+
 // Record adds attribute changes at a particular offset to the itinerary of
 // global attribute changes.
 func (ga *GlobalAttributes) Record(offset float64, update PartUpdate) {
@@ -116,6 +130,13 @@ func (ga *GlobalAttributes) Record(offset float64, update PartUpdate) {
 		Interface("update", update).
 		Msg("Recording global attribute update.")
 
+	for _, existingOffset := range ga.offsets {
+		if sameOffset(existingOffset, offset) {
+			offset = existingOffset
+			break
+		}
+	}
+
 	_, hit := ga.itinerary[offset]
 	if !hit {
 		ga.itinerary[offset] = []PartUpdate{}
@@ -137,11 +158,11 @@ func (ga GlobalAttributes) InWindow(
 	updates := []PartUpdate{}
 
 	for _, offset := range ga.offsets {
-		if offset > endOffset {
+		if offset > endOffset+offsetTolerance {
 			return updates
 		}
 
-		if offset > startOffset {
+		if offset > startOffset+offsetTolerance {
 			updates = append(updates, ga.itinerary[offset]...)
 		}
 	}
@@ -218,7 +239,7 @@ func (gau GlobalAttributeUpdate) UpdateScore(score *Score) error {
 	default:
 		offset = score.CurrentParts[0].CurrentOffset
 		for _, part := range score.CurrentParts[1:] {
-			if part.CurrentOffset != offset {
+			if !sameOffset(part.CurrentOffset, offset) {
 				return fmt.Errorf(
 					"can't set global attribute; there are multiple current parts with " +
 						"different offsets",
diff --git a/client/model/marker.go b/client/model/marker.go
index 54d87fc..a79dba7 100644
--- a/client/model/marker.go
+++ b/client/model/marker.go
@@ -42,7 +42,7 @@ func (marker Marker) UpdateScore(score *Score) error {
 
 	if len(score.CurrentParts) > 1 {
 		for _, part := range score.CurrentParts[1:len(score.CurrentParts)] {
-			if part.CurrentOffset != offset {
+			if !sameOffset(part.CurrentOffset, offset) {
 				return fmt.Errorf("offset of marker \"%s\" unclear", marker.Name)
 			}
 		}
-- 
2.43.0


From 5fed6c2de05bc7b62769210f5aca00792895a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 55/70] fix: play all notes at the start of an excerpt, and
 none at its end, despite rounding

---
 client/model/attributes.go | 10 +++++-----
 client/transmitter/osc.go  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc50ef5..beee88b 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -109,17 +109,17 @@ func NewGlobalAttributes() *GlobalAttributes {
 	}
 }
 
-// offsetTolerance is the largest difference, in milliseconds, between two
+// OffsetTolerance is the largest difference, in milliseconds, between two
 // offsets that are considered to be the same point in time.
 //
 // Offsets are the sums of the durations of events, and sums of floating point
 // numbers can differ slightly, even if the durations add up to the same amount
 // of musical time. (For example, a septuplet and a whole note.)
-const offsetTolerance = 0.001
+const OffsetTolerance = 0.001
 
 // sameOffset returns true if two offsets are the same point in time.
 func sameOffset(offset1 float64, offset2 float64) bool {
-	return math.Abs(offset1-offset2) <= offsetTolerance
+	return math.Abs(offset1-offset2) <= OffsetTolerance
 }
 
 // Record adds attribute changes at a particular offset to the itinerary of
@@ -158,11 +158,11 @@ func (ga GlobalAttributes) InWindow(
 	updates := []PartUpdate{}
 
 	for _, offset := range ga.offsets {
-		if offset > endOffset+offsetTolerance {
+		if offset > endOffset+OffsetTolerance {
 			return updates
 		}
 
-		if offset > startOffset+offsetTolerance {
+		if offset > startOffset+OffsetTolerance {
 			updates = append(updates, ga.itinerary[offset]...)
 		}
 	}
diff --git a/client/transmitter/osc.go b/client/transmitter/osc.go
index 722cf52..db23bc4 100644
--- a/client/transmitter/osc.go
+++ b/client/transmitter/osc.go
@@ -313,12 +313,12 @@ func (oe OSCTransmitter) ScoreToOSCBundle(
 
 		// Filter out events before the `--from` time marking / marker, when
 		// supplied.
-		if eventOffset < startOffset {
+		if eventOffset < startOffset-model.OffsetTolerance {
 			continue
 		}
 
 		// Filter out events after the `--to` time marking / marker, when supplied.
-		if eventOffset >= endOffset {
+		if eventOffset >= endOffset-model.OffsetTolerance {
 			break
 		}
 
-- 
2.43.0


From e9fa7ed9132e781c77a9c2959a457ef2f40cf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 56/70] fix: don't go back to any of the players that the REPL
 has told to shut down

---
 client/repl/player_management.go | 12 ++++++------
 client/repl/server.go            |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index b8d44e4..43603dc 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -22,7 +22,7 @@ func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 	if err := util.Await(
 		func() error {
 			availablePlayer, err := system.FindAvailablePlayer(
-				server.shutDownPlayerID(),
+				server.shutDownPlayerIDs()...,
 			)
 			if err != nil {
 				return err
@@ -112,13 +112,13 @@ func (server *Server) updatePlayer(current, updated system.PlayerState) {
 	}
 }
 
-// Returns the ID of the last player process that we told to shut down, which
-// might still look available for a little while.
-func (server *Server) shutDownPlayerID() string {
+// Returns the IDs of the player processes that we told to shut down, which might
+// still look available for a little while.
+func (server *Server) shutDownPlayerIDs() []string {
 	server.playerMutex.Lock()
 	defer server.playerMutex.Unlock()
 
-	return server.lastShutdown
+	return append([]string{}, server.shutDownPlayers...)
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
@@ -258,7 +258,7 @@ func (server *Server) shutdownPlayer() {
 	// might also speed up the process of the `managePlayers` loop discovering
 	// that there is no player available, prompting it to find a replacement.)
 	server.playerMutex.Lock()
-	server.lastShutdown = player.ID
+	server.shutDownPlayers = append(server.shutDownPlayers, player.ID)
 	server.playerMutex.Unlock()
 
 	server.unsetPlayer(player)
diff --git a/client/repl/server.go b/client/repl/server.go
index f4c1807..299c683 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -55,9 +55,9 @@ type Server struct {
 	// managed by the `managePlayers` loop. See repl/player_management.go.
 	player      system.PlayerState
 	playerMutex sync.Mutex
-	// The ID of the last player process that we told to shut down. It might still
+	// The IDs of the player processes that we told to shut down. They might still
 	// look available for a little while.
-	lastShutdown string
+	shutDownPlayers []string
 	// A queue onto which bdecoded messages from clients are placed in one
 	// routine. In another routine, the messages are handled synchronously, one at
 	// a time. Therefore, messages can be received asynchronously, but results are
-- 
2.43.0


From 8737fca4a14a749a7e6e8b9df533a07aecdac505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 57/70] fix: don't delete other files whose names contain that
 of a renamed executable

---
 client/system/dirs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/system/dirs.go b/client/system/dirs.go
index 1737590..38f86f1 100644
--- a/client/system/dirs.go
+++ b/client/system/dirs.go
@@ -53,7 +53,7 @@ func RenamedExecutable(path string) string {
 // "alda.1615061099.2081.old") looks like it's a renamed Alda executable.
 func IsRenamedExecutable(basename string) bool {
 	return regexp.MustCompile(
-		`alda(-player)?(\.exe)?\.\d+\.\d+\.old`,
+		`^alda(-player)?(\.exe)?\.\d+\.\d+\.old$`,
 	).MatchString(basename)
 }
 
-- 
2.43.0


From 5f36974d7b752f2542ffa0954a62d8854a29836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 58/70] fix: don't crash if there is no answer when prompting
 for confirmation

---
 client/text/interaction.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/text/interaction.go b/client/text/interaction.go
index 01d6ff4..efb96e1 100644
--- a/client/text/interaction.go
+++ b/client/text/interaction.go
@@ -19,8 +19,11 @@ func PromptForConfirmation(prompt string, defaultToYes bool) bool {
 		fmt.Printf("%s %s ", prompt, options)
 
 		response, err := reader.ReadString('\n')
-		if err != nil {
-			panic(err)
+
+		// There won't be an answer, e.g. because we've reached the end of the input.
+		if err != nil && strings.TrimSpace(response) == "" {
+			fmt.Println()
+			return false
 		}
 
 		switch strings.ToLower(strings.TrimSpace(response)) {
-- 
2.43.0


From 9579b7cb2026232a571b8cc3bda33375c9b4eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 59/70] fix: don't hang or leave temporary files if a download
 fails during an update

---
 client/cmd/update.go | 57 +++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 064231f..6d09efa 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -83,12 +83,7 @@ type releaseAsset struct {
 	assetUrl  string
 }
 
-func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
-	outdir, err := os.MkdirTemp("", "alda-update")
-	if err != nil {
-		return "", err
-	}
-
+func downloadAssets(assets []releaseAsset, outdir string) error {
 	maxAssetNameLength := -1
 	for _, asset := range assets {
 		nameLength := len(asset.assetName)
@@ -98,7 +93,6 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	}
 
 	var waitGroup sync.WaitGroup
-	waitGroup.Add(len(assets))
 
 	progress := mpb.New(
 		mpb.WithWidth(25),
@@ -106,13 +100,14 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		mpb.WithWaitGroup(&waitGroup),
 	)
 
-	var downloadError error
+	downloadErrors := make(chan error, 2*len(assets))
 
 	for _, asset := range assets {
 		client := &http.Client{Timeout: 10 * time.Second}
 		response, err := client.Get(asset.assetUrl)
 		if err != nil {
-			return "", err
+			downloadErrors <- err
+			break
 		}
 		defer response.Body.Close()
 
@@ -127,9 +122,16 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 					Msg("Asset HTTP response")
 			}
 
-			return "", fmt.Errorf(
+			downloadErrors <- fmt.Errorf(
 				"unexpected HTTP response (%d)", response.StatusCode,
 			)
+			break
+		}
+
+		out, err := os.Create(filepath.Join(outdir, asset.assetName))
+		if err != nil {
+			downloadErrors <- err
+			break
 		}
 
 		bar := progress.Add(
@@ -152,28 +154,34 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		proxyReader := bar.ProxyReader(response.Body)
 		defer proxyReader.Close()
 
-		out, err := os.Create(filepath.Join(outdir, asset.assetName))
-		if err != nil {
-			return "", err
-		}
-		defer out.Close()
+		waitGroup.Add(1)
 
 		go func() {
 			defer waitGroup.Done()
 
-			if _, err := io.Copy(out, proxyReader); err != nil {
-				downloadError = err
+			_, err := io.Copy(out, proxyReader)
+
+			if closeErr := out.Close(); err == nil {
+				err = closeErr
+			}
+
+			if err != nil {
+				downloadErrors <- err
+
+				// Otherwise, we would keep waiting for the progress bar to complete.
+				bar.Abort(false)
 			}
 		}()
 	}
 
 	progress.Wait()
 
-	if downloadError != nil {
-		return "", downloadError
+	select {
+	case err := <-downloadErrors:
+		return err
+	default:
+		return nil
 	}
-
-	return outdir, nil
 }
 
 func installAsset(indir string, asset releaseAsset) error {
@@ -302,10 +310,15 @@ func installAsset(indir string, asset releaseAsset) error {
 }
 
 func downloadAndInstallAssets(assets []releaseAsset) error {
-	assetsDir, err := downloadAssets(assets)
+	assetsDir, err := os.MkdirTemp("", "alda-update")
 	if err != nil {
 		return err
 	}
+	defer os.RemoveAll(assetsDir)
+
+	if err := downloadAssets(assets, assetsDir); err != nil {
+		return err
+	}
 
 	for _, asset := range assets {
 		fmt.Println()
-- 
2.43.0


From d0b2da31712f1359a71abac6ed42297240158e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 60/70] fix: don't break the installation if an update can't be
 installed

---
 client/cmd/update.go | 124 +++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 63 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 6d09efa..abd7264 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -203,38 +203,11 @@ func installAsset(indir string, asset releaseAsset) error {
 		color.Aurora.Bold(fmt.Sprintf("Installing %s...", asset.assetName)),
 	)
 
-	// Naïvely, you would think we could simply replace `alda` with the new
-	// version that we downloaded. However, this doesn't always work, especially
-	// given that we're currently _running_ the old version in this very process.
-	//
-	// We're doing something safer here, following the advice here:
-	// https://stackoverflow.com/a/7198760/2338327
-	//
-	// (That StackOverflow question is specifically about Windows, but this is a
-	// safer method in general, and it works regardless of OS.)
-
 	inpath := filepath.Join(indir, asset.assetName)
 	outpath := filepath.Join(outdir, asset.assetName)
 
-	oldRenamed := system.RenamedExecutable(outpath)
-
-	// Move the old (and probably currently running) executable, giving it a new
-	// name that also designates it as an old version to be cleaned up.
-	//
-	// NOTE: The Alda CLI checks for the existence of these old executable
-	// versions and cleans them up on each run.
-	log.Debug().
-		Str("old-name", outpath).
-		Str("new-name", oldRenamed).
-		Msg("Renaming existing executable.")
-
-	err = os.Rename(outpath, oldRenamed)
-	if err != nil && !errors.Is(err, os.ErrNotExist) {
-		return err
-	}
-
-	// Now that we've moved the existing executable, we create a new one at the
-	// same location and copy the new version into it.
+	// First, we copy the new version into the directory under a temporary name.
+	// If anything goes wrong, the existing executable isn't affected.
 
 	log.Debug().
 		Str("source", inpath).
@@ -246,28 +219,19 @@ func installAsset(indir string, asset releaseAsset) error {
 	}
 	defer in.Close()
 
-	log.Debug().
-		Str("destination", outpath).
-		Msg("Opening destination.")
-
-	out, err := os.Create(outpath)
+	out, err := os.CreateTemp(outdir, fmt.Sprintf(".%s.*.tmp", asset.assetName))
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	temppath := out.Name()
 
-	log.Debug().Msg("Copying file.")
-
-	if _, err := io.Copy(out, in); err != nil {
-		return err
-	}
+	log.Debug().
+		Str("destination", temppath).
+		Msg("Copying file.")
 
-	// The copy was successful, so now we can remove the temporary file that we
-	// copied in. (It isn't really a problem if this fails, because it's a temp
-	// file, so we're ignoring `err` here.)
-	_ = os.Remove(inpath)
+	_, err = io.Copy(out, in)
 
-	if runtime.GOOS != "windows" {
+	if err == nil && runtime.GOOS != "windows" {
 		// Here, we make the file executable. The code below should be equivalent to
 		// running `chmod +x ...` on the file, i.e. ensuring that the "execute" bit
 		// is present for each permissions digit (owner, group, others) in this
@@ -279,34 +243,68 @@ func installAsset(indir string, asset releaseAsset) error {
 		// The execute bit adds 1 to the total, so to ensure that each digit
 		// includes the execute bit, we do a bitwise OR operation with 0111 as the
 		// operand.
-		fileInfo, err := out.Stat()
-		if err != nil {
-			return err
+		perms := os.FileMode(0644)
+		if fileInfo, err := os.Stat(outpath); err == nil {
+			perms = fileInfo.Mode().Perm()
 		}
-		perms := fileInfo.Mode().Perm()
+
+		err = out.Chmod(perms | 0111)
+	}
+
+	if err == nil {
+		err = out.Sync()
+	}
+
+	if closeErr := out.Close(); err == nil {
+		err = closeErr
+	}
+
+	// Now we put the new version in the place of the old one.
+	if err == nil {
+		err = replaceExecutable(temppath, outpath)
+	}
+
+	if err != nil {
+		_ = os.Remove(temppath)
+	}
+
+	return err
+}
+
+func replaceExecutable(temppath, outpath string) error {
+	// On Windows, we can't simply replace the executable, given that we're
+	// currently _running_ the old version in this very process.
+	//
+	// What we can do is move the old executable, giving it a new name that also
+	// designates it as an old version to be cleaned up. See:
+	// https://stackoverflow.com/a/7198760/2338327
+	//
+	// NOTE: The Alda CLI checks for the existence of these old executable
+	// versions and cleans them up on each run.
+	if runtime.GOOS == "windows" {
+		oldRenamed := system.RenamedExecutable(outpath)
 
 		log.Debug().
-			Str("filename", outpath).
-			Str("perms", fmt.Sprintf("%#o", perms)).
-			Msg("Before making file executable")
+			Str("old-name", outpath).
+			Str("new-name", oldRenamed).
+			Msg("Renaming existing executable.")
 
-		if err := os.Chmod(outpath, perms|0111); err != nil {
+		err := os.Rename(outpath, oldRenamed)
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
 			return err
 		}
 
-		fileInfo, err = out.Stat()
-		if err != nil {
-			return err
-		}
-		perms = fileInfo.Mode().Perm()
+		if err == nil {
+			if err := os.Rename(temppath, outpath); err != nil {
+				_ = os.Rename(oldRenamed, outpath)
+				return err
+			}
 
-		log.Debug().
-			Str("filename", outpath).
-			Str("perms", fmt.Sprintf("%#o", perms)).
-			Msg("After making file executable")
+			return nil
+		}
 	}
 
-	return nil
+	return os.Rename(temppath, outpath)
 }
 
 func downloadAndInstallAssets(assets []releaseAsset) error {
-- 
2.43.0


From 947d0c3a08c16594992f943d7b01704c19bea19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 61/70] fix: don't lose the user's choice about telemetry if
 the status file is being written

---
 client/cmd/telemetry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index a8c353c..1c320f9 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -106,7 +106,7 @@ func writeTelemetryStatus(status string) error {
 		Str("filepath", telemetryStatusFilepath).
 		Msg("Writing telemetry status file.")
 
-	return os.WriteFile(telemetryStatusFilepath, []byte(status), 0644)
+	return system.WriteFile(telemetryStatusFilepath, []byte(status))
 }
 
 func informUserOfTelemetry() {
-- 
2.43.0


From efb3d2e195a087370536eaa7353bce4c68b7560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 62/70] fix: an error in the WebAssembly module doesn't end it

---
 client/wasm/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client/wasm/main.go b/client/wasm/main.go
index 7968b13..28b92b4 100644
--- a/client/wasm/main.go
+++ b/client/wasm/main.go
@@ -14,6 +14,8 @@ package main
 // library.
 
 import (
+	"fmt"
+
 	"alda.io/client/generated"
 	log "alda.io/client/logging"
 	"alda.io/client/model"
@@ -44,7 +46,9 @@ func safeFunction(f func([]js.Value) interface{}) js.Func {
 		// If Alda panics, recover and log the error to the console.
 		defer func() {
 			if err := recover(); err != nil {
-				js.Global().Get("console").Call("error", err)
+				// `err` can be any Go value, so we have to make sure that it's something
+				// that can be passed to JS.
+				js.Global().Get("console").Call("error", fmt.Sprint(err))
 			}
 		}()
 
@@ -69,6 +73,13 @@ func safePromiseFunction(f func([]js.Value) (interface{}, error)) js.Func {
 				resolve := promiseArgs[0]
 				reject := promiseArgs[1]
 
+				// If Alda panics, recover and reject the promise.
+				defer func() {
+					if err := recover(); err != nil {
+						reject.Invoke(js.Global().Get("Error").New(fmt.Sprint(err)))
+					}
+				}()
+
 				value, err := f(args)
 				if err != nil {
 					reject.Invoke(js.Global().Get("Error").New(err.Error()))
-- 
2.43.0


From 49aa6a30f1723a175e425ca5aca46260344ab3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 63/70] fix: a REPL server removes only its own port file

---
 client/repl/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/repl/server.go b/client/repl/server.go
index 299c683..fb8cccf 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -215,6 +215,13 @@ func (server *Server) manageStateFile() {
 }
 
 func (server *Server) removePortFile() {
+	// Another server that was started in the same directory might have replaced
+	// the file in the meantime, in which case it isn't ours to remove.
+	contents, err := os.ReadFile(nREPLPortFile)
+	if err != nil || string(contents) != strconv.Itoa(server.Port) {
+		return
+	}
+
 	os.Remove(nREPLPortFile)
 }
 
-- 
2.43.0


From c570506d769eb4bc6ca408baa0be857678a94e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 64/70] fix: alda repl ends when it is interrupted or
 terminated

---
 client/cmd/repl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/cmd/repl.go b/client/cmd/repl.go
index 12598c3..749e848 100644
--- a/client/cmd/repl.go
+++ b/client/cmd/repl.go
@@ -186,6 +186,7 @@ Examples:
 				go func() {
 					<-signals
 					server.Close()
+					os.Exit(0)
 				}()
 			} else {
 				<-signals
-- 
2.43.0


From a6629bf9c094a1f3904791718eaf2628d8774875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 65/70] fix: a malformed response doesn't crash the REPL client

---
 client/repl/client.go | 3 ++-
 client/repl/server.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index 80d9d48..768acfd 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"net"
@@ -728,7 +729,7 @@ func (client *Client) exchange(
 	// Avoid hanging forever if the server doesn't respond.
 	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
 
-	return bencode.Decode(client.serverConn)
+	return decodeMessage(bufio.NewReader(client.serverConn))
 }
 
 func ResponseErrors(res map[string]interface{}) []string {
diff --git a/client/repl/server.go b/client/repl/server.go
index fb8cccf..8884b38 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -269,10 +269,10 @@ func RunServer(port int) (*Server, error) {
 	return server, nil
 }
 
-// Reads a bencoded message from a client.
+// Reads a bencoded message from a client (or the server, if we're the client).
 //
 // The bencode library panics if a message includes e.g. a negative length. We
-// don't want any client to be able to crash the server.
+// don't want any client to be able to crash the server, or vice versa.
 func decodeMessage(reader *bufio.Reader) (decoded interface{}, err error) {
 	defer func() {
 		if problem := recover(); problem != nil {
-- 
2.43.0


From a357d9c2b23f527648ff2646577a6cd42c7f7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 66/70] fix: alda doctor reads the exported MIDI file as a file

---
 client/cmd/doctor.go | 84 +++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/client/cmd/doctor.go b/client/cmd/doctor.go
index f976c58..682783c 100644
--- a/client/cmd/doctor.go
+++ b/client/cmd/doctor.go
@@ -25,7 +25,7 @@ import (
 	"github.com/daveyarwood/go-osc/osc"
 	"github.com/spf13/cobra"
 	"gitlab.com/gomidi/midi/midimessage/channel"
-	"gitlab.com/gomidi/midi/midireader"
+	"gitlab.com/gomidi/midi/smf/smfreader"
 )
 
 const reasonableTimeout = 20 * time.Second
@@ -389,69 +389,49 @@ version of %s.`,
 						return err
 					}
 
-					var midiFile *os.File
-
-					if err := util.Await(
-						func() error {
-							mf, err := os.Open(midiFilename)
-							if err != nil {
-								return err
-							}
-
-							midiFile = mf
-							return nil
-						},
-						reasonableTimeout,
-					); err != nil {
-						return err
-					}
-
-					rdr := midireader.New(bufio.NewReader(midiFile), nil)
-
-					// NB: For some reason, the contents of the MIDI sequence (at least,
-					// according to the library we're using to parse the MIDI file) appear
-					// to contain a bunch of other messages that don't make sense in the
-					// context of the score, in addition to containing all the notes that
-					// we expect.
-					//
-					// I suspect that there are some edge cases that the MIDI parsing
-					// library isn't handling correctly. Perhaps there is some header
-					// information that the MIDI parsing library is interpreting as
-					// NoteOn/NoteOff messages?
-					//
-					// When I play the MIDI file, it sounds correct, and when I load it
-					// into MuseScore, the sheet music looks correct, so I'm satisfied
-					// that the player is exporting usable MIDI files.
-					//
 					// Since this is just a smoke test, we only really need to test that
 					// the MIDI sequence contains the notes we expect, and we can ignore
 					// all of the other messages. If this test passes, then we can be
 					// confident that the client can talk to the player, the player is up
 					// and running, and the player successfully handled the "play" and
 					// "export" instructions.
-				ExpectedNotesLoop:
-					for _, expectedNote := range expectedNotes {
-						for {
-							msg, err := rdr.Read()
-
-							// Error scenarios include reaching EOF (err == io.EOF), which we
-							// consider a failure case because we reached the end before we
-							// saw that all of the expected notes were included in the
-							// sequence.
-							if err != nil {
-								return err
-							}
+					checkNotes := func() error {
+						midiFile, err := os.Open(midiFilename)
+						if err != nil {
+							return err
+						}
+						defer midiFile.Close()
+
+						rdr := smfreader.New(bufio.NewReader(midiFile))
+
+					ExpectedNotesLoop:
+						for _, expectedNote := range expectedNotes {
+							for {
+								msg, err := rdr.Read()
 
-							switch msg := msg.(type) {
-							case channel.NoteOn:
-								if msg.Key() == expectedNote {
-									continue ExpectedNotesLoop
+								// Error scenarios include reaching the end of the file, which
+								// we consider a failure case because we reached the end before
+								// we saw that all of the expected notes were included in the
+								// sequence.
+								if err != nil {
+									return err
+								}
+
+								switch msg := msg.(type) {
+								case channel.NoteOn:
+									if msg.Key() == expectedNote {
+										continue ExpectedNotesLoop
+									}
 								}
 							}
 						}
+
+						return nil
 					}
 
-					return nil
+					// The player writes the file in its own time, so we might be looking
+					// at a file that isn't complete yet.
+					return util.Await(checkNotes, reasonableTimeout)
 				},
 			); err != nil {
 				return err
-- 
2.43.0


From 4920a9d7fd84b90a1d56ee5617c1b4b41d72ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 67/70] fix: alda doctor removes its temporary directory

---
 client/cmd/doctor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/cmd/doctor.go b/client/cmd/doctor.go
index 682783c..09187c4 100644
--- a/client/cmd/doctor.go
+++ b/client/cmd/doctor.go
@@ -377,6 +377,7 @@ version of %s.`,
 					if err != nil {
 						return err
 					}
+					defer os.RemoveAll(tmpdir)
 
 					midiFilename := filepath.Join(
 						tmpdir, fmt.Sprintf("%d.mid", time.Now().Unix()),
-- 
2.43.0


From 5eb8f83161829ebc4ca0e00ae11e72ac71f67cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 68/70] fix: alda doctor doesn't use or shut down other players

---
 client/cmd/doctor.go | 46 +++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/client/cmd/doctor.go b/client/cmd/doctor.go
index 09187c4..280d616 100644
--- a/client/cmd/doctor.go
+++ b/client/cmd/doctor.go
@@ -509,9 +509,21 @@ version of %s.`,
 
 		//////////////////////////////////////////////////
 
+		// The players that are already there aren't ours to use (or shut down).
+		otherPlayers := map[string]bool{}
+
 		if err := step(
 			"Spawn a player on an unknown port",
 			func() error {
+				players, err := system.ReadPlayerStates()
+				if err != nil {
+					return err
+				}
+
+				for _, p := range players {
+					otherPlayers[p.ID] = true
+				}
+
 				playerArgs := []string{"-v", "run"}
 				if noAudio {
 					playerArgs = append(playerArgs, "--lazy-audio")
@@ -537,39 +549,25 @@ version of %s.`,
 							return err
 						}
 
-						foundPlayer := false
 						for _, p := range players {
+							// We're doing all of this so fast that the player that we
+							// spawned and shut down earlier might still be around, and might
+							// not even have been there yet when we looked at the other
+							// players.
+							if otherPlayers[p.ID] || p.Port == playerPort {
+								continue
+							}
+
 							// A player process only enters the "ready" state after the MIDI
 							// system is initialized, and that never happens if the --no-audio
 							// flag is provided.
 							if p.State == "ready" || (noAudio && p.State == "starting") {
-								foundPlayer = true
 								player = p
-								break
+								return nil
 							}
 						}
 
-						if !foundPlayer {
-							return system.ErrNoPlayersAvailable
-						}
-
-						// We're doing all of this so fast that the player we find might
-						// inadvertently be the one that we spawned and shut down earlier.
-						// (This can only happen if the --no-audio flag is provided, because
-						// otherwise, the player we just used will have been used to play a
-						// score already and thus will not be considered "available.")
-						//
-						// To avoid this, we check the port of the player we just found
-						// and consider it a failure condition. This will cue `util.Await`
-						// to keep checking until it finds a player that isn't that one.
-						if player.Port == playerPort {
-							return fmt.Errorf(
-								"only found the player from before (%s/%d)",
-								player.ID, player.Port,
-							)
-						}
-
-						return nil
+						return system.ErrNoPlayersAvailable
 					},
 					reasonableTimeout,
 				)
-- 
2.43.0


From 79d3b58ce75640a71d31b953cea4a7459ea5a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 69/70] fix: a MusicXML part that has an instrument twice can
 be imported

---
 client/interop/musicxml/importer/handlers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 62d5186..e8fd595 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -155,8 +155,13 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 
 		var instruments []string
 		instrumentsList := model.InstrumentsList()
+		included := map[int64]bool{}
 		for _, instrumentID := range instrumentIDs {
-			instruments = append(instruments, instrumentsList[instrumentID-1])
+			// A part can't include an instrument more than once
+			if !included[instrumentID] {
+				instruments = append(instruments, instrumentsList[instrumentID-1])
+			}
+			included[instrumentID] = true
 		}
 
 		part.instruments = instruments
-- 
2.43.0


From 3ab91c23dbb3f9297f49d097259767ad7563c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:31 +0000
Subject: [PATCH 70/70] fix: octave changes and attributes in a chord have no
 duration

---
 client/model/chord.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/client/model/chord.go b/client/model/chord.go
index c735bf8..492e62e 100644
--- a/client/model/chord.go
+++ b/client/model/chord.go
@@ -55,18 +55,26 @@ func (chord Chord) UpdateScore(score *Score) error {
 		//
 		// Here, we take note of the event's duration so that we can keep track of
 		// which one is the shortest.
+		// Other events (e.g. octave and attribute changes) don't have a duration.
 		var specifiedDuration Duration
+		hasDuration := true
 		switch event := event.(type) {
 		case Note:
 			specifiedDuration = event.Duration
 		case Rest:
 			specifiedDuration = event.Duration
+		default:
+			hasDuration = false
 		}
 
-		for _, part := range score.CurrentParts {
-			duration := effectiveDuration(specifiedDuration, part)
-			durationMs := duration.Ms(part.Tempo) * part.TimeScale
-			shortestDurationMs[part] = math.Min(shortestDurationMs[part], durationMs)
+		if hasDuration {
+			for _, part := range score.CurrentParts {
+				duration := effectiveDuration(specifiedDuration, part)
+				durationMs := duration.Ms(part.Tempo) * part.TimeScale
+				shortestDurationMs[part] = math.Min(
+					shortestDurationMs[part], durationMs,
+				)
+			}
 		}
 
 		// Now, we update the score with the event, in "chord mode," which means
@@ -78,6 +86,10 @@ func (chord Chord) UpdateScore(score *Score) error {
 	score.chordMode = false
 
 	for _, part := range score.CurrentParts {
+		if shortestDurationMs[part] == math.MaxFloat64 {
+			continue
+		}
+
 		part.LastOffset = part.CurrentOffset
 		part.CurrentOffset += shortestDurationMs[part]
 	}
-- 
2.43.0

