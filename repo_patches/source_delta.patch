From 34773bcb505174c8c16e1bbf57d4f18ffa73f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 01/29] fix: return a copy of the stored label values instead
 of the live set

---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..3d437e1 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// copy while we hold the lock: later updates keep writing to the stored set
+	return sets.NewString().Union(values)
 }
-- 
2.43.0


From 97f012c7c1720e5e7c4d565d4a58a616f1f40383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 02/29] fix: insert out-of-order samples at their place in time
 order

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From 64073fe362d5498952239e08d0b64be39d6145ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 03/29] fix: forget expired series entirely so that they can
 come back

---
 promq/prom/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..cd53978 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,13 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	// forget the series itself as well, otherwise it would stay invisible if it
+	// ever got new data points
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From 44b45b0702dd2e6704b999f3f38e4805dd60caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 04/29] fix: don't re-acquire the postings lock while iterating
 label values

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index cd53978..908e891 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -207,7 +207,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From c3fa60f6afbd39430d58da5d0ed9bec2737ff468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 05/29] fix: don't read the stored data while a scrape is
 updating it

---
 promq/prom/multi.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..3260c3d 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -95,13 +95,21 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 		return err
 	}
 
-	if err := q.ManuallyExecuteQuery(ctx, q.Callback); err != nil {
+	if err := q.executeQuery(ctx, q.Callback); err != nil {
 		return fmt.Errorf("unable to execute query: %w", err)
 	}
 	return nil
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.storageMu.RLock()
+	defer q.storageMu.RUnlock()
+	return q.executeQuery(ctx, cb)
+}
+
+// executeQuery executes the current query against the stored data.  It must be
+// called with storageMu held.
+func (q *PeriodicData) executeQuery(ctx context.Context, cb ResultsCallback) error {
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-- 
2.43.0


From 117f723739faee165881ccecca8b26a000f96c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 06/29] fix: read the query under its lock

---
 promq/prom/multi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 3260c3d..aed25d7 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -110,10 +110,14 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 // executeQuery executes the current query against the stored data.  It must be
 // called with storageMu held.
 func (q *PeriodicData) executeQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	queryStr := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryStr, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -121,7 +125,7 @@ func (q *PeriodicData) executeQuery(ctx context.Context, cb ResultsCallback) err
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryStr, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From cbbd8ea07970e902d5ae90abbeedf315b105f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 07/29] fix: shift the lines down when scrolling up past the
 top of a text area

---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From ea37c770d61e58581b3981254272898b0bb1cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 08/29] fix: keep the cursor of a text area inside of it

---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 35 ++++++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..54b5c6a 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,25 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+	t.clampCursor()
+}
+
+// clampCursor moves the cursor back inside the wrapper, if it's outside.  A
+// column of t.cols is fine: that's where the cursor ends up after writing to the
+// last column.
+func (t *textWrapper) clampCursor() {
+	if t.cursorCol > t.cols {
+		t.cursorCol = t.cols
+	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
+	if t.cursorRow >= t.rows {
+		t.cursorRow = t.rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -59,6 +78,7 @@ func (t *textWrapper) Newline() {
 		t.cursorRow = t.rows-1
 		t.ScrollDown()
 	}
+	t.clampCursor()
 }
 
 // WriteString writes the given string in with the given style, wrapping as
@@ -123,6 +143,7 @@ func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
 	}
 	t.buf.SetContent(t.cursorCol, t.cursorRow, runes[0], runes[1:], sty)
 	t.cursorCol += width
+	t.clampCursor()
 }
 
 func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
@@ -246,15 +267,14 @@ func (t *textWrapper) CursorForward(n int) {
 	if t.cursorCol >= t.cols {
 		t.cursorCol = t.cols-1
 	}
+	t.clampCursor()
 }
 
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
 	t.cursorCol -= n
-	if t.cursorCol < 0 {
-		t.cursorCol = 0
-	}
+	t.clampCursor()
 }
 
 // CursorPosition reports the column and row of the cursor.
@@ -266,19 +286,16 @@ func (t *textWrapper) CursorPosition() (col, row int) {
 func (t *textWrapper) CursorGoTo(row, col int) {
 	t.cursorRow = row
 	t.cursorCol = col
+	t.clampCursor()
 }
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
 	t.cursorRow += n
-	if t.cursorRow >= t.rows {
-		t.cursorRow = t.rows-1
-	}
+	t.clampCursor()
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
 	t.cursorRow -= n
-	if t.cursorRow < 0 {
-		t.cursorRow = 0
-	}
+	t.clampCursor()
 }
-- 
2.43.0


From 7a3f44d45fa968ec1aaec15d9adfcb1613f0633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 09/29] fix: read the position of the prompt under its lock

---
 promq/term/prompt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..63ee1a9 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,13 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	cursorCol += w.startCol
+	cursorRow += w.startRow
+	w.textMu.Unlock()
+
+	w.screen.ShowCursor(cursorCol, cursorRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From 9db71ba48ce90cabfc9b3f53b8054e51984c4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 10/29] fix: synchronize the prompt's setup with the event loop

---
 promq/term/withprompt.go | 53 +++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..ca02c36 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -19,6 +19,8 @@ package term
 import (
 	"context"
 	"errors"
+	"sync"
+
 	"github.com/c-bata/go-prompt"
 	"github.com/gdamore/tcell"
 )
@@ -33,6 +35,10 @@ import (
 // Due to the internals, this widget shouldn't be used until Run is called and
 // you've received a callback to OnSetup.
 type PromptView struct {
+	// mu guards writer, reader, start & pos: they're set up by Run, but the
+	// event loop uses them too.
+	mu sync.Mutex
+
 	writer *cellWriter
 
 	reader *screenParser
@@ -57,6 +63,14 @@ type PromptView struct {
 }
 
 func (v *PromptView) SetBox(box PositionBox) {
+	v.mu.Lock()
+	defer v.mu.Unlock()
+
+	v.setBox(box)
+}
+
+// setBox is SetBox, with the lock held.
+func (v *PromptView) setBox(box PositionBox) {
 	v.pos = box
 	if v.reader != nil && v.writer != nil {
 		v.writer.SetBox(box)
@@ -69,13 +83,29 @@ func (v *PromptView) SetBox(box PositionBox) {
 	}
 }
 func (v *PromptView) FlushTo(screen tcell.Screen) {
-	v.writer.FlushTo(screen, v.pos.StartCol, v.pos.StartRow)
+	v.mu.Lock()
+	writer, pos := v.writer, v.pos
+	v.mu.Unlock()
+
+	if writer == nil {
+		// not running yet, so there's nothing to draw
+		return
+	}
+	writer.FlushTo(screen, pos.StartCol, pos.StartRow)
 }
 
 // HandleKey receives key events from an input loop.  Use this as the runner's
 // KeyHandler.
 func (v *PromptView) HandleKey(evt *tcell.EventKey) {
-	v.reader.AddKey(evt)
+	v.mu.Lock()
+	reader := v.reader
+	v.mu.Unlock()
+
+	if reader == nil {
+		// not running yet, so there's nobody to handle it
+		return
+	}
+	reader.AddKey(evt)
 }
 
 // Run starts the go-prompt even loop, repeatedly asking the user for input, handling the input
@@ -83,20 +113,25 @@ func (v *PromptView) HandleKey(evt *tcell.EventKey) {
 // prompt followed by a synthetic "enter" event.  shutdownScreen will be called when HandleInput
 // asks for to be stopped.  It's generally the Runner's context's cancel function.
 func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScreen func()) error {
-	v.writer = &cellWriter{
+	writer := &cellWriter{
 		screen: v.Screen,
 	}
-	v.reader = &screenParser{
+	reader := &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
 	}
-	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
+	viewPrompt := v.SetupPrompt(prompt.OptionParser(reader), prompt.OptionWriter(writer))
 	start := make(chan struct{})
+
+	v.mu.Lock()
+	v.writer = writer
+	v.reader = reader
 	v.start = start
 
 	// we've already been asked to start
 	if v.pos != (PositionBox{}) {
-		v.SetBox(v.pos)
+		v.setBox(v.pos)
 	}
+	v.mu.Unlock()
 
 	if v.OnSetup != nil {
 		v.OnSetup()
@@ -116,8 +151,8 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 			input := viewPrompt.Input()
 			output, stop := v.HandleInput(input)
 			if output != nil {
-				v.writer.WriteStr(*output)
-				v.writer.Flush() // always flush after we write
+				writer.WriteStr(*output)
+				writer.Flush() // always flush after we write
 			}
 			if stop {
 				shutdownScreen()
@@ -129,7 +164,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	// do this after starting the input loop so that we don't block on the channel capacity
 	if initialInput != nil {
 		// populate the initial command
-		v.reader.AddString(*initialInput+"\r")
+		reader.AddString(*initialInput+"\r")
 	}
 
 	<-ctx.Done()
-- 
2.43.0


From 2b8e1b07e9defc47788e835815d4de397d392be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 11/29] fix: don't block on undelivered input once the prompt
 is shut down

---
 promq/term/prompt.go     | 9 +++++++--
 promq/term/withprompt.go | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 63ee1a9..cc76c64 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -150,6 +150,8 @@ type screenParser struct {
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
 	evts chan *tcell.EventKey
+	// done is closed once nobody's going to read events any more
+	done <-chan struct{}
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -233,12 +235,15 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	select {
+	case p.evts <- evt:
+	case <-p.done:
+	}
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index ca02c36..bf1900f 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -118,6 +118,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 	reader := &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
+		done: ctx.Done(),
 	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(reader), prompt.OptionWriter(writer))
 	start := make(chan struct{})
@@ -138,7 +139,11 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 
 	go func() {
-		<-start
+		select {
+		case <-start:
+		case <-ctx.Done():
+			return
+		}
 		for {
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From ead7db48804bafaa4a51df325f6c14fc3bab61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 12/29] fix: report a screen that can't be initialized

---
 promq/term/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 3793a9c..162a589 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -85,7 +85,9 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			return err
 		}
 	}
-	screen.Init()
+	if err := screen.Init(); err != nil {
+		return err
+	}
 	// TODO(directxman12): we should probably figure out how to call Fini in a
 	// defer but before the waiting for the evtLoopDone
 
-- 
2.43.0


From d5467c8a9d399e6d208144d28d37144dccb7cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 13/29] fix: keep handling events after an unknown one

---
 promq/term/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 162a589..86b3a2e 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -133,7 +133,8 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 				screen.Clear()
 				// continue below
 			default:
-				return
+				// not something we handle
+				continue
 			}
 
 			if mainView == nil {
-- 
2.43.0


From 45e95342669aa3ed9dac9f0cdba09cef69e739f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 14/29] fix: ignore screen requests made before the screen is
 set up

---
 promq/term/runner.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 86b3a2e..889e7de 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -163,6 +163,10 @@ func (r *Runner) RequestRepaint() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	if r.screen == nil {
+		// not running yet
+		return
+	}
 	r.screen.PostEvent(tcell.NewEventInterrupt(nil))
 }
 
@@ -172,6 +176,10 @@ func (r *Runner) RequestUpdate(newView View) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	if r.screen == nil {
+		// not running yet
+		return
+	}
 	r.screen.PostEvent(tcell.NewEventInterrupt(newView))
 }
 
@@ -180,6 +188,10 @@ func (r *Runner) ShowCursor(col, row int) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	if r.screen == nil {
+		// not running yet
+		return
+	}
 	r.screen.ShowCursor(col, row)
 }
 // HideCursor hides the cursor.
@@ -187,5 +199,9 @@ func (r *Runner) HideCursor() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
+	if r.screen == nil {
+		// not running yet
+		return
+	}
 	r.screen.HideCursor()
 }
-- 
2.43.0


From bcadf89b3b9ada4edf950be03b7d0c2e8d804078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 15/29] fix: don't crash on a series without points

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From 39a0cee779f2b047fcb6c7166b9dc8a32c934b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 16/29] fix: always stop adding range ticks

---
 promq/term/plot/axes.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..af6ca7b 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -107,20 +107,20 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 	// evenly space the range ticks, always including min and max
 	var platRngTicks []float64 // TODO: size this appropriately?
 	{
-		rngTicksBase := float64(int(outerSize.Cols) / scale.RangeDensity)
+		rngTicksBase := int(outerSize.Cols) / scale.RangeDensity
 		if rngTicksBase == 0 {
 			rngTicksBase = 1
 		}
 
 
-		platRngInc := (graph.RangeMax - graph.RangeMin)/rngTicksBase
-		if platRngInc == 0 {
-			platRngInc = graph.RangeMax // just two ticks
-		}
-		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
-			platRngInc = 1
-		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
+		platRngInc := (graph.RangeMax - graph.RangeMin)/float64(rngTicksBase)
+		// count the ticks, don't rely on adding the increment to get anywhere:
+		// for flat lines (or close to it) it won't
+		for i := 0; i <= rngTicksBase; i++ {
+			x := graph.RangeMin + platRngInc*float64(i)
+			if !(x <= graph.RangeMax) || (i > 0 && x == platRngTicks[i-1]) {
+				break
+			}
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From c179e4949bc5ba963e6b970123483d87047b0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 17/29] fix: don't crash on values that can't be drawn

---
 promq/term/plot/plot.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..77d64bb 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -82,6 +82,12 @@ type PlatonicGraph struct {
 	Series SeriesSet
 }
 
+// isFinite checks if the given value has a place on the graph -- NaN and the
+// infinities are perfectly valid query results, but they don't.
+func isFinite(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
 func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGraph {
 	res := &PlatonicGraph{
 		Series: seriesSet,
@@ -103,6 +109,10 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isFinite(val) {
+					// can't be drawn
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -162,6 +172,9 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isFinite(inY) {
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
@@ -245,6 +258,10 @@ type Cell struct {
 }
 
 func (g *RenderedGraph) setCell(row Row, col Column, isPoint bool, series SeriesId) {
+	if row < 0 || row >= g.Rows || col < 0 || col >= g.Cols {
+		// values too far apart to scale end up outside of the graph
+		return
+	}
 	ind := g.SubCellMapper(row, col, g.ScreenSize)
 
 	// and save it
-- 
2.43.0


From 6d516a8151afda76b01d8b2b80e96f36929aaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 18/29] fix: don't mix up bytes and characters when looking for
 the prefix

---
 promq/autocomplete/earley/completer.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..5e13fac 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,8 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	// NB: the separators are all ASCII, so this is the index of the byte before the prefix (or -1).
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From a8a45d4c26fd597313bc080cea88f291c9d3798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 19/29] fix: complete at the cursor's byte offset, not at its
 display column

---
 cmd/metrics/autocompleter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..c96a7ba 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -37,10 +37,11 @@ func NewCompleter(completor autocomplete.PromQLCompleter) *Completer {
 }
 
 func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
-	if d.TextBeforeCursor() == "" {
+	textBeforeCursor := d.TextBeforeCursor()
+	if textBeforeCursor == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(textBeforeCursor))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0


From a01ef4ad21248cf29a741ab733018cfe56fd5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 20/29] fix: suggest nothing for input without any valid token

---
 promq/autocomplete/earley/earley.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..41a0c4b 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -184,10 +184,11 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 }
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
-	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	if len(tokens) == 0 {
+		// nothing that the lexer understands, so there's nothing to go on
+		return nil
 	}
+	lastTokenPos := len(tokens) - 1
 
 	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
 		p.ParseTokens(tokens)
-- 
2.43.0


From e1bd9d3c7af04cf95a75ccfd3b285da62e170f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 21/29] fix: parse the rest of the input when it extends the
 previous one

---
 promq/autocomplete/earley/luthor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..8347ada 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,7 +63,6 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
@@ -72,7 +71,7 @@ func (ws Tokens) Compare(tks2 Tokens) int {
 	}
 	// return negative i if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From d48748b8d3db32eda26e7ad4cd435aa24c5ddda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 22/29] fix: forget the previous input when parsing from the
 beginning

---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 41a0c4b..adc35d8 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From 638ddb745283b04ef23a5c489da6fa8f2144a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 23/29] fix: keep the case of the suggestions when filtering
 without regard to it

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..9e0b105 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		candidate := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			candidate = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(candidate, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From b3b992e8331f58389c1dc60c9abc5245b7eaaddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 24/29] fix: treat an unsuccessful HTTP status as a failed
 scrape

---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..1d3a649 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From 6b85e99bf6a7a088a42b9c3ae368812c95b2d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 25/29] fix: start scraping in the background only once the
 callback is set

---
 cmd/metrics/metrics.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 1d3a649..2db04b9 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -182,9 +182,6 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
 		// it's valid, let's try drawing
@@ -430,6 +427,10 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+	defer stopScreen()
+
+	// asyncronously trigger scrape -- only now that there's a callback to call
+	go c.scrape(ctx, runner)
 	go promptView.Run(ctx, &qs, stopScreen)
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
-- 
2.43.0


From e9c2c315fe67885c26a014c691a7f7b72bf4fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 26/29] fix: never scale values to positions outside of the
 graph

---
 promq/term/plot/plot.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 77d64bb..00fbbbe 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -126,6 +126,21 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 	return res
 }
 
+// clampToScreen rounds the given position to the closest one in [0, size).
+// Positions that can't be represented (e.g. because the distance between the
+// smallest and the largest value can't be, either) end up at the edge, too.
+func clampToScreen(pos float64, size int) int {
+	pos = math.Round(pos)
+	switch {
+	case !(pos > 0):
+		return 0
+	case pos > float64(size-1):
+		return size-1
+	default:
+		return int(pos)
+	}
+}
+
 func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize) (func(int64) Column, func(float64) Row) {
 	// since the valid values for rows are [0, Rows), subtract one to make sure
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
@@ -144,10 +159,10 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
-		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
+		return Column(clampToScreen(float64(x-g.DomainMin)*domainScaleFactor, int(size.Cols)))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(clampToScreen(float64(scale(y-g.RangeMin))*rangeScaleFactor, int(size.Rows)))
 	}
 
 	return domain, rng
-- 
2.43.0


From 7d58742f9be5caef3df467d2f7dd68215aff0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 27/29] fix: give each iterator over a series its own position

Iterating over a series a second time continued where the first iterator
had ended, although storage.Series demands independent iterators.
---
 promq/prom/query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 908e891..1b48159 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -288,7 +288,11 @@ type blockSeries struct {
 }
 
 func (s *blockSeries) Iterator() chunkenc.Iterator {
-	return s
+	// every iterator has to be independent of all others
+	return &blockSeries{
+		block: s.block,
+		ind:   -1,
+	}
 }
 func (s *blockSeries) Labels() labels.Labels {
 	return s.block.series
-- 
2.43.0


From b30ca88492ab444f061b4da5ac0180471e537e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 28/29] fix: don't seek backwards in a series

Seeking to a time before the current sample went back to an earlier one,
although it is to have no effect then.
---
 promq/prom/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 1b48159..7b18739 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -302,6 +302,10 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
+	if s.ind >= 0 && s.ind < len(s.block.data) && s.block.data[s.ind].timestamp >= targetTime {
+		// never go backwards
+		return true
+	}
 	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
 		return s.block.data[ind].timestamp >= targetTime
 	})
-- 
2.43.0


From cd7e1c04788a8945cc06529e348caf1a1756d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 29/29] fix: don't send F17-F20 to the prompt as other keys

---
 promq/term/keytobytes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/term/keytobytes.go b/promq/term/keytobytes.go
index bd9e5f0..b1ef2da 100644
--- a/promq/term/keytobytes.go
+++ b/promq/term/keytobytes.go
@@ -125,7 +125,8 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	// this is hillariously inefficient since go-prompt immediately reverses
 	// it, but it's what we're stuck with
 	for _, seq := range prompt.ASCIISequences {
-		if seq.Key == key {
+		// some sequences are listed for several keys, and only stand for the first of those
+		if seq.Key == key && prompt.GetKey(seq.ASCIICode) == key {
 			return seq.ASCIICode
 		}
 	}
-- 
2.43.0

