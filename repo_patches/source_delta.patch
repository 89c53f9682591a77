From d67ad6578579d0af866ceae39343f24a8fcbd76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 01/32] fix: Holey must not match at the end of the input

DecodeRuneInString reports RuneError with size 0 for an empty string, which
lies in most Holey ranges. Holey succeeded there without moving, so that for
example the JSON grammar never returned for an unterminated string.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
-- 
2.43.0


From 91bf8edb2f1938cb6556ef02dfd68804f2107832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 02/32] fix: Not must fail if there is no rune left to move
 over

Not reported success at the end of the input without moving, Many(Not(r)) and
Zom(Not(r)) never returned if r was not found.
---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index dc734a0..66fd8aa 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From e73b98cd5b236d92934c85fcfbb7ad7b0ab2edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:37 +0000
Subject: [PATCH 03/32] fix: MoveRunes moves over an invalid byte by its own
 width

An invalid byte is decoded as RuneError with a width of one byte, but RuneLen
of RuneError is three. MoveRunes skipped up to two valid bytes or did not move
at all, Past and Body never returned for such an input.
---
 scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scanner.go b/scanner.go
index 475845e..3802f42 100644
--- a/scanner.go
+++ b/scanner.go
@@ -334,10 +334,12 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		tail := s.Tail()
+		for i := range tail {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, size := utf8.DecodeRuneInString(tail[i:])
+				return s.Move(i + size)
 			}
 		}
 		return false
-- 
2.43.0


From 1c06277ea64ba22088f7b38271efc9ff543ffb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 04/32] fix: stop Many and Zom if the sub Reader matches
 without moving

A sub Reader that succeeds without moving the scanner, like Opt or Zom,
kept both Reader in an endless loop.
---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 66fd8aa..79c8294 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,8 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	for m := start; r.sub.Read(s) == nil && s.Mark() != m; {
+		m = s.Mark()
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1003,7 +1004,8 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	for m := s.Mark(); r.sub.Read(s) == nil && s.Mark() != m; {
+		m = s.Mark()
 	}
 	return nil
 }
-- 
2.43.0


From b4a123ebbd7548b44a3548752442b993e3ff97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 05/32] fix: move the scanner back if a sub Reader fails after
 it has moved

Any, Opt, Many, Zom, To, Past, Body and BodyTail continued at the position a
failed sub Reader left behind, Times itself left the scanner moved if a
repetition failed. Any(Times(2, Rune('a')), "ab") was not able to read "ab".
---
 reader.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/reader.go b/reader.go
index 79c8294..a0bff65 100644
--- a/reader.go
+++ b/reader.go
@@ -92,7 +92,7 @@ func (r *anyReader) Read(s *Scanner) error {
 	m := s.Mark()
 	errs := []error{}
 	for _, sub := range r.readers {
-		if e := sub.Read(s); e == nil {
+		if e := s.Use(sub); e == nil {
 			return nil
 		} else {
 			errs = append(errs, e)
@@ -324,7 +324,7 @@ func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ; !s.AtEnd(); s.MoveRunes(1) {
 		t := s.Mark()
-		if e := r.tail.Read(s); e == nil {
+		if e := s.Use(r.tail); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
@@ -357,7 +357,7 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ; !s.AtEnd(); s.MoveRunes(1) {
 		t := s.Mark()
-		if e := r.tail.Read(s); e == nil {
+		if e := s.Use(r.tail); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
@@ -607,7 +607,7 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for m := start; r.sub.Read(s) == nil && s.Mark() != m; {
+	for m := start; s.Use(r.sub) == nil && s.Mark() != m; {
 		m = s.Mark()
 	}
 	end := s.Mark()
@@ -728,7 +728,7 @@ type optReader struct {
 }
 
 func (r *optReader) Read(s *Scanner) error {
-	r.sub.Read(s)
+	s.Use(r.sub)
 	return nil
 }
 
@@ -754,7 +754,7 @@ type pastReader struct {
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ; !s.AtEnd(); s.MoveRunes(1) {
-		if e := r.sub.Read(s); e == nil {
+		if e := s.Use(r.sub); e == nil {
 			return nil
 		}
 	}
@@ -896,8 +896,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
@@ -922,7 +924,7 @@ func (r *toReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		subM := s.Mark()
-		if e := r.sub.Read(s); e == nil {
+		if e := s.Use(r.sub); e == nil {
 			s.ToMarker(subM)
 			return nil
 		}
@@ -1004,7 +1006,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for m := s.Mark(); r.sub.Read(s) == nil && s.Mark() != m; {
+	for m := s.Mark(); s.Use(r.sub) == nil && s.Mark() != m; {
 		m = s.Mark()
 	}
 	return nil
-- 
2.43.0


From cf859658b0dbb004fe10df15d19bd597a5430c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 06/32] fix: do not panic if less text is left than the fold
 functions look for

IfFold, RevIfFold and RevToFold sliced beyond the text.
---
 scanner.go     | 3 +++
 scanner_rev.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/scanner.go b/scanner.go
index 3802f42..efb4b59 100644
--- a/scanner.go
+++ b/scanner.go
@@ -102,6 +102,9 @@ func (s *Scanner) To(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
 	i := len(str)
+	if len(s.Tail()) < i {
+		return false
+	}
 	prefix := s.Tail()[:i]
 	if strings.EqualFold(prefix, str) {
 		return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..9e70d62 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -53,6 +53,9 @@ func (s *Scanner) RevTo(str string) bool {
 func (s *Scanner) RevIfFold(str string) bool {
 	i := len(str)
 	head := s.Head()
+	if len(head) < i {
+		return false
+	}
 	suffix := head[len(head)-i:]
 	if strings.EqualFold(suffix, str) {
 		return s.Move(-i)
@@ -66,6 +69,9 @@ func (s *Scanner) RevToFold(str string) bool {
 	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
+		if len(itr.Str) < i {
+			return false
+		}
 		suffix := itr.Str[len(itr.Str)-i:]
 		if strings.EqualFold(suffix, str) {
 			return s.Move(-itr.pos())
-- 
2.43.0


From e41a3313f8fd3521c2c70abb7dd0dd25d270f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:40 +0000
Subject: [PATCH 07/32] fix: ToMarker refuses a Marker outside of the text

The condition was never true, an invalid Marker moved the scanner outside of
the text and the next access did panic.
---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index efb4b59..cbb0270 100644
--- a/scanner.go
+++ b/scanner.go
@@ -376,7 +376,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 22581c70b6d1158ef6b25c1390fb0e220aa47bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 08/32] fix: keep the exit values of Log entries if the Log
 grows

Exit wrote through a pointer into an outdated backing array if Entries was
reallocated between Enter and Exit, ExitAt and Error were lost.
---
 monitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..d768c6b 100644
--- a/monitor.go
+++ b/monitor.go
@@ -12,6 +12,7 @@ type LogEntry struct {
 	Level   int
 	ExitAt  int
 	Error   error
+	index   int
 }
 
 func (e LogEntry) String() string {
@@ -36,6 +37,7 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 		EnterAt: pos,
 		Info:    info,
 		Level:   l.level,
+		index:   i,
 	})
 	return &l.Entries[i]
 }
@@ -43,6 +45,10 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
+	// e points to an outdated copy if Entries has grown in the meantime
+	if e.index < len(l.Entries) {
+		l.Entries[e.index] = *e
+	}
 	l.level--
 }
 
-- 
2.43.0


From 2ee05e4d9536dbfdd2d4cc9178dc42c4480485d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 09/32] fix: read the body of Body and BodyTail with positions
 of the full text

The body was read with a Scanner for the sub string, so that Map, Pick and
Monitor inside of the body got positions relative to it. The Basket of the MXT
grammar had for example wordchar Segments at the start of the text.
---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index a0bff65..ba15163 100644
--- a/reader.go
+++ b/reader.go
@@ -325,7 +325,7 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ; !s.AtEnd(); s.MoveRunes(1) {
 		t := s.Mark()
 		if e := s.Use(r.tail); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
@@ -358,7 +358,7 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ; !s.AtEnd(); s.MoveRunes(1) {
 		t := s.Mark()
 		if e := s.Use(r.tail); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			sub := &Scanner{full: s.full[:t], pos: int(m)}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
-- 
2.43.0


From fc396e44910582829f3f6f37851eb9f00224ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 10/32] fix: do not reuse the salt of an earlier MXT chunk

The salt of the last chunk of a file was still expected if the same grammar
was used to read another file, chunks after a header without salt were then
read as content.
---
 grammar/mxt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..246a7df 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,8 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	noSalt := Seq(At(Any(&g.NL, AtEnd())), saltHead)
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(Any(&g.Salt, noSalt)))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
-- 
2.43.0


From 006bc95f27c9c3de92202cc32efb2e7e4d79fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 11/32] fix: decide where a Node belongs before the graph is
 changed

rankNodes moved Nodes below the new Node before it knew that the new Node
clashes or belongs below one of its siblings. With empty Segments was a Node
then part of the graph more than once.
---
 graph.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graph.go b/graph.go
index 8d2dece..e2db0b4 100644
--- a/graph.go
+++ b/graph.go
@@ -56,6 +56,14 @@ func rankNodes(a *Node, b *Node) bool {
 	if a.Clashes(b.Token) {
 		return false
 	}
+	for _, c := range a.Nodes {
+		if b.Clashes(c.Token) {
+			return false
+		}
+		if c.Covers(b.Token) && !b.Covers(c.Token) {
+			return rankNodes(c, b)
+		}
+	}
 	nodes := []*Node{}
 	var ok bool
 	for i := 0; i < len(a.Nodes); i++ {
-- 
2.43.0


From df8111ef0e8d52d8b8b2657d5097fd7a604287a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:09 +0000
Subject: [PATCH 12/32] fix: ReadInt and ReadUint stop in front of the digit
 that overflows

An overflow of 64 bits was only noticed if the wrapped value was smaller than
the value before, "23000000000000000000" was read as 4553255926290448384.
---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 0773827..3fcd521 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,10 +196,10 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
+		tmp = (u64 * uint64(base)) + uint64(v)
 
 		u64 = tmp
 		n = i
-- 
2.43.0


From 2f4b610131dc546714ac09272062518c862cd006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:00 +0000
Subject: [PATCH 13/32] fix: tell the Tracker that Body goes back before the
 body is read

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index ba15163..3fc2b7e 100644
--- a/reader.go
+++ b/reader.go
@@ -325,6 +325,7 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ; !s.AtEnd(); s.MoveRunes(1) {
 		t := s.Mark()
 		if e := s.Use(r.tail); e == nil {
+			s.ToMarker(m)
 			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
-- 
2.43.0


From afb5b77dcb50dfd82794faf4d69947ee569cd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:10 +0000
Subject: [PATCH 14/32] fix: there is no rune to match at the start and at the
 end of the text

---
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index cbb0270..e172748 100644
--- a/scanner.go
+++ b/scanner.go
@@ -131,7 +131,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 9e70d62..0c4ecf5 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -86,7 +86,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -131,7 +131,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From 474a3331d3b0bc6f2575b3ddbd95ead465710ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:11 +0000
Subject: [PATCH 15/32] fix: RevIfBetween and RevIfMatch move if the rune
 matches

---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 0c4ecf5..609ecb9 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -174,7 +174,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -217,7 +217,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From ee02ce2e169584c70c01c5c6540e238bf87ff216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 16/32] fix: WhileMatch moves to the end if all runes pass the
 check

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index e172748..dc5e3c0 100644
--- a/scanner.go
+++ b/scanner.go
@@ -294,7 +294,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
-- 
2.43.0


From 47542b3655d288b90fb0039d9e5ac8c4141b1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:12 +0000
Subject: [PATCH 17/32] fix: ScanString can read all the runes that are left

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..98a1206 100644
--- a/intl.go
+++ b/intl.go
@@ -44,7 +44,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 87288509e1252772c7666bcbb34e7cac18fa7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 18/32] fix: walk back over invalid bytes by their own width

---
 intl.go    | 6 ++----
 scanner.go | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/intl.go b/intl.go
index 98a1206..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index dc5e3c0..d378eb2 100644
--- a/scanner.go
+++ b/scanner.go
@@ -351,7 +351,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 20ab3e4b712e2dc1f27a1cbebdcc2f349a9d382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:57 +0000
Subject: [PATCH 19/32] fix: the end of a Janus pair keeps its text if the
 match is given up

---
 reader.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index 3fc2b7e..b24c10b 100644
--- a/reader.go
+++ b/reader.go
@@ -517,11 +517,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From 4b209db6c35061fb34aafdd87c29340c20369ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 20/32] fix: Lua lists of names and fields with whitespace
 behind the separator

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..57fc224 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -109,7 +109,7 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
+	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -131,7 +131,7 @@ func Lua() *LuaReader {
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
 	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
-- 
2.43.0


From 7ea13ccceb33f51e1b19988b0d541103e3a06beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 21/32] fix: Lua operators //, >> and <<

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 57fc224..b9e83ba 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<=", "<<", "<", ">=", ">>", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From 3010014b7d1d6e9485df01dd53b00eb947bac3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 22/32] fix: Lua keywords are whole words and no names

---
 grammar/lua.go | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b9e83ba..5e551cc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -108,15 +108,23 @@ func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	word := func(str string) Reader {
+		return Seq(str, Any(At(Not(Set("a-zA-Z0-9", "_"))), AtEnd()))
+	}
+	keyword := Any(
+		word("and"), word("break"), word("do"), word("else"), word("elseif"), word("end"), word("false"), word("for"),
+		word("function"), word("goto"), word("if"), word("in"), word("local"), word("nil"), word("not"), word("or"),
+		word("repeat"), word("return"), word("then"), word("true"), word("until"), word("while"),
+	)
+	g.Name.Reader = Seq(At(Not(keyword)), Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<<", "<", ">=", ">>", ">", "==", "~=", "and", "or",
+		"..", "<=", "<<", "<", ">=", ">>", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -138,8 +146,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
+	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -149,7 +157,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		word("nil"), word("false"), word("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -173,25 +181,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = word("break")
+	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
+	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
 	g.IfElse.Reader = SkipWSSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
-		"end",
+		word("if"), &g.Exp, word("then"), &g.Block,
+		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(SkipWSSeq(word("else"), &g.Block)),
+		word("end"),
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From 76bfb81cdceccfff9f984274ca860bba48fdf2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:14 +0000
Subject: [PATCH 23/32] fix: Lua comments are skipped everywhere, also at the
 end of the text

---
 grammar/lua.go | 62 +++++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 5e551cc..0d5dc7d 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", Any(At(Not(Seq('[', Zom("="), '['))), AtEnd()), Zom(Holey(0, utf8.MaxRune, "\r\n")))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
@@ -117,7 +117,12 @@ func Lua() *LuaReader {
 		word("repeat"), word("return"), word("then"), word("true"), word("until"), word("while"),
 	)
 	g.Name.Reader = Seq(At(Not(keyword)), Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
+	skiper := Zom(Any(WS(), &g.Comment))
+	skipSeq := func(list ...interface{}) Reader {
+		return SkipSeq(skiper, list...)
+	}
+
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -128,11 +133,6 @@ func Lua() *LuaReader {
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
-	skipSeq := func(list ...interface{}) Reader {
-		return SkipSeq(skiper, list...)
-	}
-
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
@@ -142,12 +142,12 @@ func Lua() *LuaReader {
 	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
-	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -165,44 +165,44 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
+	g.Label.Reader = skipSeq("::", &g.Name, "::")
+	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
-	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
-	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
-	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
+	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = skipSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		word("if"), &g.Exp, word("then"), &g.Block,
-		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
-		Opt(SkipWSSeq(word("else"), &g.Block)),
+		Zom(skipSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(skipSeq(word("else"), &g.Block)),
 		word("end"),
 	)
-	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
-	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
-	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = skipSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = skipSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
-		Seq(&g.VarList, '=', &g.ExpList),
+		skipSeq(&g.VarList, '=', &g.ExpList),
 		&g.Label,
 		&g.Break,
 		&g.GoTo,
@@ -217,7 +217,7 @@ func Lua() *LuaReader {
 		&g.LocalAtt,
 		&g.FuncCall,
 	)
-	g.Block.Reader = skipSeq(Zom(&g.Stat), Opt(&g.RetStat))
+	g.Block.Reader = skipSeq(Zom(skipSeq(&g.Stat)), Opt(&g.RetStat))
 	g.Chunk.Reader = &g.Block
 	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)
 
-- 
2.43.0


From cd625df457d54e654dc191f43d855a3ac2f141ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 24/32] fix: Lua numerals with a point at the begin or end, and
 no other text as numeral

---
 grammar/lua.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 0d5dc7d..38c65bc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -9,12 +9,12 @@ import (
 
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
-	hexFloat := Seq('0', AnyRune("xX"), Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))
+	hexDigits := Any(Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))), Seq('.', Many(HexDigit())))
+	hexValue := Seq('0', AnyRune("xX"), hexDigits, Opt(hexExponent))
 	exponent := Seq(AnyRune("eE"), Opt(AnyRune("+-")), Many(Digit()))
-	floatValue := Seq(Many(Digit()), Opt(Seq('.', Many(Digit()))), Opt(exponent))
-	intValue := Many(Digit())
-	hexValue := Seq('0', AnyRune("xX"), Many(HexDigit()))
-	return Any(hexFloat, hexValue, floatValue, intValue)
+	digits := Any(Seq(Many(Digit()), Opt(Seq('.', Zom(Digit())))), Seq('.', Many(Digit())))
+	value := Seq(digits, Opt(exponent))
+	return Seq(Any(hexValue, value), Any(At(Not(Set("a-zA-Z0-9", "_."))), AtEnd()))
 }
 
 func LuaString() Reader {
@@ -158,7 +158,7 @@ func Lua() *LuaReader {
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
 		word("nil"), word("false"), word("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		&g.Numeral, &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From eb5f49acb323514ca6846de83425c86fca52537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:17 +0000
Subject: [PATCH 25/32] fix: Lua strings with tabs, escaped line ends and
 decimal escapes

---
 grammar/lua.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 38c65bc..28c6285 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -20,19 +20,24 @@ func LuaNumeral() Reader {
 func LuaString() Reader {
 	utfEscape := Seq("\\u{", Many(HexDigit()), "}")
 	hexEscape := Seq("\\x", Times(2, HexDigit()))
-	decimalEscape := Any(
-		Seq('\\', Digit()),
-		Seq('\\', Times(2, Digit())),
-		Seq('\\', Between('0', '2'), Times(2, Digit())),
-	)
+	noDigit := At(Not(Digit()))
+	decimalEscape := Seq('\\', Any(
+		Seq(AnyRune("01"), Times(2, Digit())),
+		Seq('2', Between('0', '4'), Digit()),
+		Seq("25", Between('0', '5')),
+		Seq(Times(2, Digit()), noDigit),
+		Seq(Digit(), noDigit),
+	))
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq('\\', AnyRune("abfnrtv\"'\\")),
+		Seq('\\', Any("\r\n", "\n\r", '\n', '\r')),
+		Seq("\\z", Zom(WS())),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From 7c5c6e2eb0ca20af9525e40878728971cd137049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 26/32] fix: Lua shebang line at the end of the text

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 28c6285..fb88ef5 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -112,7 +112,7 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
-	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
+	g.SheBang.Reader = Seq("#!", Zom(Holey(0, utf8.MaxRune, "\r\n")))
 	word := func(str string) Reader {
 		return Seq(str, Any(At(Not(Set("a-zA-Z0-9", "_"))), AtEnd()))
 	}
-- 
2.43.0


From 832102a6716d09327566f9e79e4dd8ea7cd3ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:21 +0000
Subject: [PATCH 27/32] fix: Lua expressions without operator are not read
 twice

---
 grammar/lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index fb88ef5..fa6e5f0 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -169,10 +169,7 @@ func Lua() *LuaReader {
 		&g.TableConstructor,
 		&g.PrefixExp,
 	)
-	g.Exp.Reader = Any(
-		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
-		&g.FinalExp,
-	)
+	g.Exp.Reader = skipSeq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-- 
2.43.0


From c68173b6ab944753e32fd505adfdf62d3339b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:22 +0000
Subject: [PATCH 28/32] fix: Lua tokens are read as long as possible

---
 grammar/lua.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index fa6e5f0..a7e5ffd 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -134,13 +134,14 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<<", "<", ">=", ">>", ">", "==", "~=", word("and"), word("or"),
+		Seq("..", At(Not(Rune('.')))), "<=", "<<", "<", ">=", ">>", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
+	beg := Seq('[', At(Not(AnyRune("[="))))
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
-		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
+		skipSeq(beg, &g.Exp, ']', '=', &g.Exp),
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
@@ -172,7 +173,7 @@ func Lua() *LuaReader {
 	g.Exp.Reader = skipSeq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
-		skipSeq('[', &g.Exp, ']'),
+		skipSeq(beg, &g.Exp, ']'),
 		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
@@ -184,7 +185,7 @@ func Lua() *LuaReader {
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = skipSeq("::", &g.Name, "::")
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, Seq('>', Any(At(Not(Rune('='))), AtEnd()))))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
-- 
2.43.0


From 25f0b96912b107945ea88d2716e0d67fdcd7394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:53 +0000
Subject: [PATCH 29/32] fix: preview the text at the byte position of a log
 entry

---
 monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index d768c6b..4c44e88 100644
--- a/monitor.go
+++ b/monitor.go
@@ -66,7 +66,12 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		preview := ""
+		// EnterAt counts bytes
+		if e.EnterAt < len(str) {
+			preview, _ = getPrefix(str[e.EnterAt:], n)
+		}
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From 89c286513029479516fd3fa179d2166b94a70835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:44 +0000
Subject: [PATCH 30/32] fix: while calls report a move only if there was one

---
 scanner.go     | 8 +++++++-
 scanner_rev.go | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scanner.go b/scanner.go
index d378eb2..cbd3a42 100644
--- a/scanner.go
+++ b/scanner.go
@@ -158,6 +158,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -201,7 +204,7 @@ func (s *Scanner) WhileAnyRune(str string) bool {
 			return s.Move(i)
 		}
 	}
-	return true
+	return false
 }
 
 // --------------------------------------------------------------------- between
@@ -247,6 +250,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
diff --git a/scanner_rev.go b/scanner_rev.go
index 609ecb9..e3a849d 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -116,7 +116,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -160,7 +160,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -202,7 +202,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -245,7 +245,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 02db3d3b82a67a2c4b0eb8c36558a4e145749c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:03 +0000
Subject: [PATCH 31/32] fix: CheckRuleName refuses names that only start like a
 rule name

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..28d5204 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 832a70779783343f1f021729127dbc0d519a1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:04 +0000
Subject: [PATCH 32/32] fix: unexported fields of a grammar do not crash
 SetRuleNames and CollectRules

---
 grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 28d5204..8bfa5ca 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || field.PkgPath != "" {
 			continue
 		}
 		name := field.Tag.Get("name")
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0

