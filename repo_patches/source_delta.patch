From 83151f2f4d1652726edcebe85dcedcce07d8204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 01/10] fix: define runesio.AsRunesWriter, which linebreak
 needs to compile

---
 terminal/runes/runesio/writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..e442867 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,16 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter returns w itself when it already knows how to write runes.
+// Otherwise, it builds a new runes Writer on top of w.
+func AsRunesWriter(w io.Writer) Writer {
+	if rw, ok := w.(Writer); ok {
+		return rw
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From 06d37f6fe32b51e7be619b588cf66ccbd2653f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 02/10] fix: Widths agrees with Width on U+2E3B and does not
 panic on invalid runes

---
 terminal/runes/width.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..2a1fee0 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -48,9 +48,8 @@ func Widths(runes []rune, opts ...Option) (width int) {
 		return width
 	}
 
-	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		width += Width(r)
 	}
 
 	return width
-- 
2.43.0


From 855d655a56e75bfc5879dddfe3d59103e87b568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 03/10] fix: decode ANSI parameters with 3 digits, and don't
 slice past the input when they are truncated

---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..4bbf095 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; i <= maxDigits; i++ { // up to maxDigits digits, then the rune that follows
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if i == maxDigits || !unicode.IsDigit(r) {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; i <= maxDigits; i++ { // up to maxDigits digits, then the rune that follows
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if i == maxDigits || !unicode.IsDigit(r) {
 				break
 			}
 
-- 
2.43.0


From 4b654b4828099fab7f9cd7284c5a464820993d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 04/10] fix: StripANSIFromRunes does not write to the caller's
 slice of runes

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 4bbf095..684d8eb 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 995b9438f7875b1273d184beaf6ea948b0d1ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 05/10] fix: regional variants of a supported language use its
 hyphenation patterns

---
 wordbreak/hyphenator/languages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..df0e47f 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,10 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	// NOTE: the matched tag may carry extensions from the requested tag, e.g. its region
+	_, index, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[index] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From b0f7199b69f76216074c95153c950a758fbf5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 06/10] fix: hyphenation exceptions are not case sensitive,
 like patterns

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..5d625b3 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lowered := make([]rune, 0, len(word))
+	for _, r := range word {
+		lowered = append(lowered, unicode.ToLower(r))
+	}
+
+	val := h.exceptions.Get(lowered)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 35579fcb260a5b3f09bfe7fb49b3531a6d16ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 07/10] fix: load the hyphenation exception that closes its
 section

---
 wordbreak/hyphenator/dictionary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..5b739fb 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -115,7 +115,7 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		case strings.HasPrefix(line, exceptionsSection):
 			// decode the exceptions section
 			for scanner.Scan() {
-				line = scanner.Text()
+				line = strings.TrimSuffix(scanner.Text(), "}") // the section may be closed right after its last exception
 				dict.exceptions.Put(dict.readException(line))
 			}
 
-- 
2.43.0


From 3aa52f349ab804295f3dbb97a70aa27ae83b7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 08/10] fix: break lines deterministically, whatever the
 iteration order of maps

---
 linebreak/knuth_plass.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..d6dadb2 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -233,7 +233,9 @@ func (l *LineBreaker) mainLoop(index int) {
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-	for class, candidate := range candidates {
+	// NOTE: iterate in a fixed order, as the order of insertion settles ties in findBestBreak
+	for class := fitnessClassZero; class <= fitnessClassThree; class++ {
+		candidate := candidates[class]
 		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
-- 
2.43.0


From cff5bf10fd34fac1a1d9861852d76023f715d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 09/10] fix: a LineBreaker does not carry attributes over from
 one paragraph to the next

---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..ffb9c8e 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,9 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	// 0. attributes from a previously set paragraph don't apply to this one
+	l.attrList = attributes.NewState()
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
 
-- 
2.43.0


From 11934eb498c028e4a7b1d55dbcf4106b664aa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 10/10] fix: render soft hyphens at soft breaks only, whatever
 the hyphen penalty

---
 linebreak/knuth_plass_types.go | 18 +++++++++++++-----
 linebreak/linebreaker.go       |  4 ++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..1ac119f 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -8,11 +8,12 @@ import (
 
 type (
 	nodeT struct {
-		nodeType  nodeType
-		penalty   float64
-		flagged   bool
-		value     []rune
-		attribute attributes.Renderer // attributes such as color, italic, bold ...
+		nodeType   nodeType
+		penalty    float64
+		flagged    bool
+		softHyphen bool // a penalty to be rendered as an hyphen at the end of a line
+		value      []rune
+		attribute  attributes.Renderer // attributes such as color, italic, bold ...
 
 		sums
 	}
@@ -129,6 +130,13 @@ func newPenalty(width float64, penalty float64, flagged bool) nodeT {
 	}
 }
 
+func newSoftHyphen(width float64, penalty float64) nodeT {
+	node := newPenalty(width, penalty, flaggedPenalty)
+	node.softHyphen = true
+
+	return node
+}
+
 // newFitnessClass establish a coarse fitness classification according to the cost ratio.
 func newFitnessClass(ratio float64) fitnessClass {
 	switch {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index ffb9c8e..d15ed27 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -180,7 +180,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.softHyphen && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -299,7 +299,7 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0

