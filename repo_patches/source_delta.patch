From 376746b464bbd47e1bed28998941efd3c0c05ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 01/57] fix: render: reset SGR attributes when the style
 changes and before erasing

---
 render/internal/infrastructure/ansi/writer.go | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..0b469d7 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -72,15 +72,23 @@ func (w *Writer) SetStyle(style value2.Style) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	return w.applyStyle(style)
+}
+
+// applyStyle switches the terminal to style (caller holds the lock).
+// SGR attributes accumulate, so an active style is reset first: otherwise
+// attributes the new style does not have would stay on.
+func (w *Writer) applyStyle(style value2.Style) error {
 	if style.Equals(w.currentStyle) {
 		return nil // Style already set
 	}
 
-	// Write style sequence.
 	ansi := style.ToANSI()
+	if !w.currentStyle.IsEmpty() {
+		ansi = Reset + ansi
+	}
 	if ansi != "" {
-		_, err := w.buf.WriteString(ansi)
-		if err != nil {
+		if _, err := w.buf.WriteString(ansi); err != nil {
 			return err
 		}
 	}
@@ -95,14 +103,8 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	defer w.mu.Unlock()
 
 	// Set style if different.
-	if !cell.Style().Equals(w.currentStyle) {
-		ansi := cell.Style().ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
-		}
-		w.currentStyle = cell.Style()
+	if err := w.applyStyle(cell.Style()); err != nil {
+		return err
 	}
 
 	// Write character.
@@ -129,14 +131,8 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 	defer w.mu.Unlock()
 
 	// Set style.
-	if !style.Equals(w.currentStyle) {
-		ansi := style.ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
-		}
-		w.currentStyle = style
+	if err := w.applyStyle(style); err != nil {
+		return err
 	}
 
 	// Write text.
@@ -163,6 +159,11 @@ func (w *Writer) Clear() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// Erasing fills with the active background: go back to the default first.
+	if err := w.applyStyle(value2.NewStyle()); err != nil {
+		return err
+	}
+
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
@@ -172,6 +173,10 @@ func (w *Writer) ClearLine() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	if err := w.applyStyle(value2.NewStyle()); err != nil {
+		return err
+	}
+
 	_, err := w.buf.WriteString(ClearLine)
 	return err
 }
-- 
2.43.0


From dab6262b7b0e87defdd62a62e2ec0a5a4fae5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 02/57] fix: render: draw the right half of a wide character
 only with the character

---
 render/internal/application/renderer.go |  7 +++++++
 render/internal/domain/service/diff.go  | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..ddf0ac8 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -134,8 +134,15 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 
 	// Render all non-empty cells.
 	for y := 0; y < buffer.Height(); y++ {
+		next := 0 // first column not covered by a wide character
+
 		for x := 0; x < buffer.Width(); x++ {
+			if x < next {
+				continue
+			}
+
 			cell := buffer.Get(value.NewPosition(x, y))
+			next = x + cell.Width()
 			if !cell.IsEmpty() {
 				if err := r.writer.MoveCursor(x, y); err != nil {
 					return err
diff --git a/render/internal/domain/service/diff.go b/render/internal/domain/service/diff.go
index 78005f3..f0f17c8 100644
--- a/render/internal/domain/service/diff.go
+++ b/render/internal/domain/service/diff.go
@@ -49,13 +49,26 @@ func (s *DiffService) Diff(oldBuf, newBuf *model2.Buffer) []DiffOp {
 
 	// Compare cell by cell.
 	for y := 0; y < newBuf.Height(); y++ {
+		oldNext, newNext := 0, 0 // first column not covered by a wide character
+
 		for x := 0; x < newBuf.Width(); x++ {
 			pos := value.NewPosition(x, y)
 			oldCell := oldBuf.Get(pos)
 			newCell := newBuf.Get(pos)
 
+			oldCovered := x < oldNext
+			if !oldCovered {
+				oldNext = x + oldCell.Width()
+			}
+
+			// The right half of a wide character is drawn with the character.
+			if x < newNext {
+				continue
+			}
+			newNext = x + newCell.Width()
+
 			// Only emit operation if cells differ.
-			if !oldCell.Equals(newCell) {
+			if oldCovered || !oldCell.Equals(newCell) {
 				ops = append(ops, DiffOp{
 					Type:     OpTypeSet,
 					Position: pos,
-- 
2.43.0


From 4f2e28011983ca32c1fb51a0d83b18a2ca8893f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 03/57] fix: render: do not let a wide character in the last
 column wrap

---
 render/internal/domain/model/buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 9d63dde..b539f3c 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -71,6 +71,10 @@ func (b *Buffer) Set(pos value2.Position, cell Cell) {
 	if x < 0 || x >= b.width || y < 0 || y >= b.height {
 		return
 	}
+	if cell.Width() > 1 && x+cell.Width() > b.width {
+		// Half a character cannot be shown, and the terminal would wrap it.
+		cell = NewCellWithWidth(' ', cell.Style(), 1)
+	}
 	b.cells[y][x] = cell
 }
 
-- 
2.43.0


From 23058abca643b4b489103a3e95e3f5cce573e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 04/57] fix: render: do not hand out pooled buffers of the size
 before a resize

---
 render/internal/application/renderer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index ddf0ac8..5ebac32 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -301,7 +301,15 @@ func (r *Renderer) Height() int {
 
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
+	r.mu.Lock()
+	width, height := r.width, r.height
+	r.mu.Unlock()
+
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if buf.Width() != width || buf.Height() != height {
+		// Pooled before a resize.
+		return model.NewBuffer(width, height)
+	}
 	buf.Clear()
 	return buf
 }
-- 
2.43.0


From 192ce7a78a9ceaa0d9108912e3379797138c2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 05/57] fix: render: leave default attributes behind on Close

---
 render/internal/infrastructure/ansi/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 0b469d7..995c4c9 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -274,5 +274,9 @@ func (w *Writer) SetPosition(x, y int) {
 
 // Close flushes and closes the writer.
 func (w *Writer) Close() error {
+	// Leave the terminal with default attributes.
+	if err := w.SetStyle(value2.NewStyle()); err != nil {
+		return err
+	}
 	return w.Flush()
 }
-- 
2.43.0


From ebbadafc8a81ef5017820dd61bc992d41eaee175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 06/57] fix: tea: inline renderer keeps the last line when the
 view shrinks, the last column of full lines, and redraws after Repaint

---
 .../infrastructure/renderer/inline.go         | 49 +++++++++++++------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..79bc3e4 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -78,8 +78,9 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	// No-op if the view is identical to the previous render.
-	if view == r.lastView && r.linesRendered > 0 {
+	// No-op if the view is identical to the previous render. lastLines is nil
+	// when Repaint or Resize asked for everything to be drawn again.
+	if view == r.lastView && r.linesRendered > 0 && r.lastLines != nil {
 		return nil
 	}
 
@@ -102,7 +103,12 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 		newLines = newLines[len(newLines)-r.height:]
 	}
 
+	// A shrinking view leaves rows of the previous frame below its last line.
+	shrinking := r.linesRendered > len(newLines)
+
 	for i, line := range newLines {
+		last := i == len(newLines)-1
+
 		// Truncate to terminal width to prevent line wrap, which would
 		// inflate the physical line count and corrupt cursor positioning.
 		if r.width > 0 {
@@ -112,28 +118,36 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 		// Per-line diff: skip lines that are identical to the previous render.
 		// Compare using the original (pre-truncation) content because lastLines
 		// also stores originals. If width changed, Resize() clears the cache.
-		if i < len(r.lastLines) && r.lastLines[i] == newLines[i] {
-			if i < len(newLines)-1 {
+		// The last line of a shrinking view is always redrawn: the erase below
+		// starts on its row.
+		if i < len(r.lastLines) && r.lastLines[i] == newLines[i] && !(last && shrinking) {
+			if !last {
 				buf.WriteString("\r\n")
 			}
 			continue
 		}
 
+		// Erase any extra lines from the previous render that are no longer
+		// present. This is done from column 0, before the last line is written:
+		// afterwards the cursor may still sit on the line's last character.
+		if last && shrinking {
+			buf.WriteString(eraseScreenBelow)
+		}
+
 		// Write the (possibly truncated) line content followed by erase-to-EOL.
 		// The erase sequence clears any leftover characters from a longer previous line.
+		// A line that fills the row leaves nothing to erase, and the cursor stays
+		// on its last column, which the erase would clear.
 		buf.WriteString(line)
-		buf.WriteString(eraseLineRight)
+		if r.width <= 0 || visualWidth(line) < r.width {
+			buf.WriteString(eraseLineRight)
+		}
 
-		if i < len(newLines)-1 {
+		if !last {
 			buf.WriteString("\r\n")
 		}
 	}
 
-	// Erase any extra lines from the previous render that are no longer present.
-	if r.linesRendered > len(newLines) {
-		buf.WriteString(eraseScreenBelow)
-	}
-
 	// Leave cursor at column 0 of the last rendered line for consistent positioning.
 	buf.WriteString(carriageReturn)
 
@@ -313,8 +327,9 @@ func visualWidth(s string) int {
 }
 
 // truncateLine truncates s so that its visual display width does not exceed
-// maxWidth columns. ANSI escape sequences are preserved in the output but
-// do not count toward the width budget. If the line fits within maxWidth
+// maxWidth columns. ANSI escape sequences are preserved in the output (also
+// those after the cut, which end what earlier ones began) but do not count
+// toward the width budget. If the line fits within maxWidth
 // the original string is returned unchanged.
 func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyclop,funlen // ANSI-preserving truncation with CSI/OSC/two-byte parsing
 	if maxWidth <= 0 || visualWidth(s) <= maxWidth {
@@ -324,6 +339,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	var b strings.Builder
 	b.Grow(len(s))
 	width := 0
+	full := false
 	i := 0
 
 	for i < len(s) {
@@ -372,13 +388,14 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
+		i += size
 		rw := runeDisplayWidth(r)
-		if width+rw > maxWidth {
-			break
+		if full || width+rw > maxWidth {
+			full = true
+			continue
 		}
 		b.WriteRune(r)
 		width += rw
-		i += size
 	}
 
 	return b.String()
-- 
2.43.0


From a3a7262fb4a097cb1dbc7c6f2fba855cdbd6de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 07/57] fix: render: move the cursor for the first cell,
 wherever the terminal's cursor is

---
 render/internal/infrastructure/ansi/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 995c4c9..0d7cad3 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -18,6 +18,7 @@ type Writer struct {
 	currentX     int
 	currentY     int
 	currentStyle value2.Style
+	positioned   bool // false until the first move: the terminal's cursor may be anywhere
 	mu           sync.Mutex
 }
 
@@ -48,7 +49,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if x == w.currentX && y == w.currentY {
+	if w.positioned && x == w.currentX && y == w.currentY {
 		return nil // Already at position
 	}
 
@@ -59,6 +60,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 
 	w.currentX = x
 	w.currentY = y
+	w.positioned = true
 	return nil
 }
 
@@ -270,6 +272,7 @@ func (w *Writer) SetPosition(x, y int) {
 
 	w.currentX = x
 	w.currentY = y
+	w.positioned = true
 }
 
 // Close flushes and closes the writer.
-- 
2.43.0


From c4287a8919f879adbd35ce7d8de723ade3cb5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 08/57] fix: tea: read whole escape sequences (F1-F4, long CSI)
 instead of leaking their tails as keys

---
 tea/internal/infrastructure/input/reader.go | 56 ++++++++++++++-------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..2bcd9a3 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -91,25 +91,14 @@ func (ir *Reader) Read() (model.Msg, error) {
 		// Peek ahead to see if more bytes available
 		// (with simple buffered check to avoid blocking forever)
 
-		// Try to read up to 10 more bytes (enough for most sequences)
-		for i := 0; i < 10; i++ {
-			// Check if byte available (non-blocking peek)
-			if ir.reader.Buffered() > 0 {
-				nextByte, err := ir.reader.ReadByte()
-				if err != nil {
-					break
-				}
-				seq = append(seq, nextByte)
-
-				// Stop if we hit a letter or tilde (end of most sequences)
-				if (nextByte >= 'A' && nextByte <= 'Z') ||
-					(nextByte >= 'a' && nextByte <= 'z') ||
-					nextByte == '~' {
-					break
-				}
-			} else {
+		// Read to the end of the sequence, as far as it has arrived
+		for ir.reader.Buffered() > 0 {
+			next, err := ir.reader.Peek(1)
+			if err != nil || !continuesSequence(seq, next[0]) {
 				break
 			}
+			_, _ = ir.reader.ReadByte()
+			seq = append(seq, next[0])
 		}
 	}
 
@@ -147,3 +136,36 @@ func (ir *Reader) Read() (model.Msg, error) {
 	//nolint:nilnil // Intentional: nil msg + nil error = skip this byte, continue reading
 	return nil, nil
 }
+
+// maxOtherSequence limits escape sequences that are neither CSI nor SS3.
+const maxOtherSequence = 11
+
+// continuesSequence reports whether next belongs to the escape sequence seq
+// (which starts with ESC).
+//
+//   - CSI (ESC [): parameters and intermediates up to the final byte 0x40-0x7E.
+//   - SS3 (ESC O): one more byte (F1-F4).
+//   - Others: up to the first letter or tilde.
+func continuesSequence(seq []byte, next byte) bool {
+	if len(seq) == 1 {
+		return true
+	}
+	last := seq[len(seq)-1]
+	switch {
+	case seq[1] == '[':
+		if len(seq) > 2 && (last < 0x20 || last > 0x3F) {
+			// Complete, except for the Linux console's ESC [ [ A.
+			return len(seq) == 3 && last == '['
+		}
+		return next >= 0x20 && next <= 0x7E
+	case seq[1] == 'O':
+		return len(seq) == 2 && next >= 0x20 && next <= 0x7E
+	default:
+		return !isSequenceEnd(last) && len(seq) < maxOtherSequence
+	}
+}
+
+// isSequenceEnd reports whether b ends most escape sequences.
+func isSequenceEnd(b byte) bool {
+	return (b >= 'A' && b <= 'Z') || (b >= 'a' && b <= 'z') || b == '~'
+}
-- 
2.43.0


From ae411b0ddad823204a7148d4838cbc57d9a8a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 09/57] fix: tea: CancelableReader keeps what a short buffer
 has no room for and repeats EOF

---
 .../infrastructure/input/cancelable_reader.go | 47 +++++++++++++++++--
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index 1f3ff8b..cf98363 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -39,6 +39,10 @@ type CancelableReader struct {
 	// Read result channel - buffered to allow background reader to continue
 	readCh chan readResult
 
+	// What the last Read had no room for
+	pendingMu sync.Mutex
+	pending   *readResult
+
 	// Cleanup synchronization
 	readerDone chan struct{}
 
@@ -247,14 +251,32 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 	if cr.canceled.Load() {
 		return 0, io.EOF
 	}
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	// Finish the previous result first
+	cr.pendingMu.Lock()
+	if result := cr.pending; result != nil {
+		cr.pending = nil
+		n, err := cr.deliver(p, *result)
+		cr.pendingMu.Unlock()
+		return n, err
+	}
+	cr.pendingMu.Unlock()
 
 	select {
 	case result := <-cr.readCh:
-		if result.n > 0 {
-			n := copy(p, result.data)
-			return n, result.err
+		return cr.deliverLocked(p, result)
+
+	case <-cr.readerDone:
+		// The background reader has ended: take its last result, then EOF
+		select {
+		case result := <-cr.readCh:
+			return cr.deliverLocked(p, result)
+		default:
+			return 0, io.EOF
 		}
-		return 0, result.err
 
 	case <-cr.done:
 		// Canceled while waiting
@@ -262,6 +284,23 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 	}
 }
 
+func (cr *CancelableReader) deliverLocked(p []byte, result readResult) (int, error) {
+	cr.pendingMu.Lock()
+	defer cr.pendingMu.Unlock()
+	return cr.deliver(p, result)
+}
+
+// deliver copies result into p and keeps what does not fit for the next Read.
+// Callers hold pendingMu.
+func (cr *CancelableReader) deliver(p []byte, result readResult) (int, error) {
+	n := copy(p, result.data)
+	if n < len(result.data) {
+		cr.pending = &readResult{data: result.data[n:], n: result.n - n, err: result.err}
+		return n, nil
+	}
+	return n, result.err
+}
+
 // Cancel stops the reader immediately.
 // Any blocked Read() calls will return io.EOF.
 // Safe to call multiple times.
-- 
2.43.0


From ad26f0f6b8a68c2d3e731288321852299179dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 10/57] fix: tea: program lifecycle: lost quit signals,
 deadlocking batches, rendering while suspended

Quit and Stop were lost when the event loop was busy or when the input
reader or a command took the signal; a batch of more messages than the
channel holds blocked the event loop for good; the input reader survived
the program and kept eating stdin; a cursor hidden by Resume stayed hidden
and a Resume after the end took the terminal again; while suspended, views
were written over the external program; concurrent Suspend/Resume calls
lost the saved state.
---
 tea/internal/application/program/program.go | 389 ++++++++++----------
 1 file changed, 188 insertions(+), 201 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..7dbc3c1 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -60,8 +60,13 @@ type Program[T any] struct {
 	// Lifecycle management
 	running bool
 	mu      sync.Mutex
+	doneCh  chan struct{} // Closed when the current run has ended
 
-	// Event loop channels
+	// ttyMu serializes what changes or draws on the terminal (rendering,
+	// Suspend, Resume, cleanup) and guards model. Locked before mu.
+	ttyMu sync.Mutex
+
+	// Event loop channels (msgCh and quitCh are made anew for every run)
 	msgCh  chan model2.Msg // Incoming messages
 	cmdCh  chan model2.Cmd // Commands to execute
 	viewCh chan string     // View updates for rendering
@@ -78,6 +83,7 @@ type Program[T any] struct {
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume hid the cursor
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -103,7 +109,7 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 		model:  m,
 		input:  os.Stdin,  // Default
 		output: os.Stdout, // Default
-		quitCh: make(chan struct{}),
+		quitCh: make(chan struct{}, 1),
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
@@ -139,57 +145,100 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 //	}
 //
 // Returns error if program is already running or initialization fails.
-//
-//nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Run() error {
+	if err := p.begin(); err != nil {
+		return err
+	}
+	defer p.cleanup()
+
+	if err := p.enterTerminal(); err != nil {
+		return err
+	}
+	p.eventLoop()
+	return nil
+}
+
+// begin marks the program as running and makes the channels of this run.
+func (p *Program[T]) begin() error {
 	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.running {
-		p.mu.Unlock()
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
+	p.doneCh = make(chan struct{})
+	// Fresh channels: nothing of an earlier run (a late command result, a
+	// second quit signal) may reach this one.
+	p.msgCh = make(chan model2.Msg, 100)
+	p.quitCh = make(chan struct{}, 1)
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
 		p.terminal = terminal.New()
 	}
-	p.mu.Unlock()
+	return nil
+}
 
-	// Cleanup on exit
-	defer func() {
-		p.mu.Lock()
+// cleanup ends a run: it releases stdin and restores the terminal.
+func (p *Program[T]) cleanup() {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
 
-		// Exit raw mode if we're in it
-		if p.terminal != nil && p.terminal.IsInRawMode() {
-			_ = p.terminal.ExitRawMode() // Best effort cleanup
-		}
+	// Release stdin
+	p.stopInputReader()
 
-		// Exit alt screen if we're in it
-		if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-			_ = p.terminal.ExitAltScreen() // Best effort cleanup
-		}
+	p.mu.Lock()
+	defer p.mu.Unlock()
 
-		p.running = false
-		p.mu.Unlock()
-	}()
+	// Exit raw mode if we're in it
+	if p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
 
-	// Enter raw mode for TUI (best effort - may fail in test environments)
+	// Exit alt screen if we're in it
+	if p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	// Show the cursor if Resume hid it
+	if p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
+	// A Resume that is still to come must not take the terminal back
+	p.suspended = false
+	p.suspendState = nil
+
+	p.inputReader = nil
+	p.running = false
+	close(p.doneCh)
+}
+
+// enterTerminal enters raw mode and, if enabled, the alt screen.
+func (p *Program[T]) enterTerminal() error {
 	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	// Enter raw mode for TUI (best effort - may fail in test environments)
 	rawModeErr := p.terminal.EnterRawMode()
 	// Note: We continue even if raw mode fails (for tests without actual terminal)
 
-	// Enter alt screen if enabled (only if raw mode succeeded or not required)
+	// Enter alt screen if enabled
 	if p.altScreen {
 		if err := p.terminal.EnterAltScreen(); err != nil {
 			if rawModeErr == nil {
 				_ = p.terminal.ExitRawMode() // Cleanup raw mode if we entered it
 			}
-			p.mu.Unlock()
 			return fmt.Errorf("failed to enter alt screen: %w", err)
 		}
 	}
-	p.mu.Unlock()
+	return nil
+}
 
+// eventLoop runs until a QuitMsg, Quit or Stop.
+func (p *Program[T]) eventLoop() {
 	// STEP 1: Call Init() to get initial command
 	initCmd := p.model.Init()
 	if initCmd != nil {
@@ -205,49 +254,68 @@ func (p *Program[T]) Run() error {
 	for {
 		select {
 		case msg := <-p.msgCh:
-			// Check for quit
-			if _, isQuit := msg.(model2.QuitMsg); isQuit {
-				return nil // Exit loop
-			}
-
-			// Handle BatchMsg - expand to individual messages
-			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Handle SequenceMsg - expand to individual messages (in order)
-			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
+			if p.handle(msg) {
+				return // Exit loop
 			}
+		case <-p.quitCh:
+			return // External quit signal
+		}
+	}
+}
 
-			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-				if p.inlineRenderer != nil {
-					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-				}
-			}
+// handle processes one message and reports whether it asks to quit.
+func (p *Program[T]) handle(msg model2.Msg) bool {
+	switch m := msg.(type) {
+	case model2.QuitMsg:
+		return true
+	case model2.BatchMsg:
+		return p.handleAll(m.Messages)
+	case model2.SequenceMsg:
+		return p.handleAll(m.Messages)
+	case model2.WindowSizeMsg:
+		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+		p.resizeInline(m.Width, m.Height)
+	}
 
-			// Update model
-			newModel, cmd := p.model.Update(msg)
-			p.model = newModel
+	// Update model
+	newModel, cmd := p.model.Update(msg)
+	p.ttyMu.Lock()
+	p.model = newModel
+	p.ttyMu.Unlock()
 
-			// Execute command (if any)
-			if cmd != nil {
-				p.executeCommand(cmd)
-			}
+	// Execute command (if any)
+	if cmd != nil {
+		p.executeCommand(cmd)
+	}
 
-			// Render view
-			p.renderView()
+	// Render view
+	p.renderView()
+	return false
+}
 
+// handleAll expands a BatchMsg or SequenceMsg to individual messages, in
+// order. They are processed here rather than sent to msgCh, which only this
+// goroutine empties.
+func (p *Program[T]) handleAll(msgs []model2.Msg) bool {
+	for _, m := range msgs {
+		select {
 		case <-p.quitCh:
-			return nil // External quit signal
+			return true // External quit signal
+		default:
 		}
+		if p.handle(m) {
+			return true
+		}
+	}
+	return false
+}
+
+// resizeInline tells the inline renderer the terminal's size.
+func (p *Program[T]) resizeInline(width, height int) {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+	if !p.altScreen && p.inlineRenderer != nil {
+		p.inlineRenderer.Resize(width, height)
 	}
 }
 
@@ -266,111 +334,17 @@ func (p *Program[T]) Run() error {
 //	p.Stop()
 //
 // Returns error if program is already running.
-//
-//nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Start() error {
-	p.mu.Lock()
-	if p.running {
-		p.mu.Unlock()
-		return fmt.Errorf("program already running")
-	}
-	p.running = true
-
-	// Initialize terminal if not set (auto-detect best implementation)
-	if p.terminal == nil {
-		p.terminal = terminal.New()
+	if err := p.begin(); err != nil {
+		return err
 	}
-	p.mu.Unlock()
 
 	go func() {
-		defer func() {
-			p.mu.Lock()
-
-			// Exit raw mode if we're in it
-			if p.terminal != nil && p.terminal.IsInRawMode() {
-				_ = p.terminal.ExitRawMode() // Best effort cleanup
-			}
-
-			// Exit alt screen if we're in it
-			if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-				_ = p.terminal.ExitAltScreen() // Best effort cleanup
-			}
-
-			p.running = false
-			p.mu.Unlock()
-		}()
-
-		// Enter raw mode for TUI
-		p.mu.Lock()
-		rawModeErr := p.terminal.EnterRawMode()
-		if rawModeErr != nil {
-			// Can't return error from goroutine - just don't enter raw mode
-			// This allows tests to run without requiring actual terminal
-		} else {
-			// Enter alt screen if enabled and raw mode succeeded
-			if p.altScreen {
-				if altScreenErr := p.terminal.EnterAltScreen(); altScreenErr != nil {
-					_ = p.terminal.ExitRawMode() // Cleanup raw mode
-					p.mu.Unlock()
-					return
-				}
-			}
-		}
-		p.mu.Unlock()
-
-		// Same event loop as Run(), but in goroutine
-		initCmd := p.model.Init()
-		if initCmd != nil {
-			p.executeCommand(initCmd)
-		}
-		// Start input reader
-		p.startInputReader()
-
-		p.renderView()
+		defer p.cleanup()
 
-		for {
-			select {
-			case msg := <-p.msgCh:
-				if _, isQuit := msg.(model2.QuitMsg); isQuit {
-					return
-				}
-
-				// Handle BatchMsg
-				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Handle SequenceMsg
-				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-				if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-					if p.inlineRenderer != nil {
-						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-					}
-				}
-
-				// Update
-				newModel, cmd := p.model.Update(msg)
-				p.model = newModel
-
-				if cmd != nil {
-					p.executeCommand(cmd)
-				}
-
-				p.renderView()
-
-			case <-p.quitCh:
-				return
-			}
+		// Can't return an error from the goroutine
+		if p.enterTerminal() == nil {
+			p.eventLoop()
 		}
 	}()
 
@@ -387,37 +361,15 @@ func (p *Program[T]) Stop() {
 		p.mu.Unlock()
 		return
 	}
+	done := p.doneCh
+	p.signalQuit()
 	p.mu.Unlock()
 
-	// Signal quit
+	// Wait for the run to end (with timeout: Stop may have been called by
+	// Update, or Update may be blocked)
 	select {
-	case p.quitCh <- struct{}{}:
-	default:
-		// Already quitting
-	}
-
-	// Wait for running to become false (with timeout)
-	timeout := time.After(1 * time.Second)
-	ticker := time.NewTicker(10 * time.Millisecond)
-	defer ticker.Stop()
-
-	for {
-		select {
-		case <-timeout:
-			// Timeout - force stop
-			p.mu.Lock()
-			p.running = false
-			p.mu.Unlock()
-			return
-		case <-ticker.C:
-			p.mu.Lock()
-			running := p.running
-			p.mu.Unlock()
-
-			if !running {
-				return
-			}
-		}
+	case <-done:
+	case <-time.After(1 * time.Second):
 	}
 }
 
@@ -437,6 +389,16 @@ func (p *Program[T]) Stop() {
 //
 // Internal use - will be called from event loop in Day 4.
 func (p *Program[T]) Quit() {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.running {
+		p.signalQuit()
+	}
+}
+
+// signalQuit asks the current run to end. Called with mu held. quitCh is
+// buffered: the signal waits until the event loop looks for it.
+func (p *Program[T]) signalQuit() {
 	select {
 	case p.quitCh <- struct{}{}:
 	default:
@@ -466,6 +428,7 @@ func (p *Program[T]) IsRunning() bool {
 func (p *Program[T]) Send(msg model2.Msg) error {
 	p.mu.Lock()
 	running := p.running
+	msgCh, done := p.msgCh, p.doneCh
 	p.mu.Unlock()
 
 	if !running {
@@ -473,8 +436,10 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 	}
 
 	select {
-	case p.msgCh <- msg:
+	case msgCh <- msg:
 		return nil
+	case <-done:
+		return fmt.Errorf("program not running")
 	case <-time.After(100 * time.Millisecond):
 		return fmt.Errorf("timeout sending message")
 	}
@@ -482,14 +447,15 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
+	msgCh, done := p.msgCh, p.doneCh
 	go func() {
 		msg := cmd() // Execute command (may block)
 
 		// Send result back to event loop
 		select {
-		case p.msgCh <- msg:
-		case <-p.quitCh:
-			// Program quitting, don't send
+		case msgCh <- msg:
+		case <-done:
+			// Program has quit, don't send
 		}
 	}()
 }
@@ -503,6 +469,18 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 // In alt-screen mode a plain write is used; the alt-screen renderer will be
 // integrated in a future release.
 func (p *Program[T]) renderView() {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+	p.renderLocked()
+}
+
+// renderLocked is renderView for callers that hold ttyMu.
+func (p *Program[T]) renderLocked() {
+	// While suspended the terminal is not ours; Resume redraws.
+	if p.IsSuspended() {
+		return
+	}
+
 	view := p.model.View()
 
 	if !p.altScreen {
@@ -529,15 +507,18 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	inputReader := input.NewReader(p.input)
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Set state under mutex protection
+	done := make(chan struct{})
 	p.mu.Lock()
+	p.inputReader = inputReader
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	p.inputReaderDone = done
+	msgCh := p.msgCh
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
@@ -546,7 +527,7 @@ func (p *Program[T]) startInputReader() {
 	go func() {
 		defer func() {
 			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			close(done)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -569,7 +550,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := inputReader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
@@ -582,11 +563,9 @@ func (p *Program[T]) startInputReader() {
 
 			// Send to event loop (with cancellation check)
 			select {
-			case p.msgCh <- msg:
+			case msgCh <- msg:
 			case <-ctx.Done():
 				return
-			case <-p.quitCh:
-				return
 			}
 		}
 	}()
@@ -656,10 +635,11 @@ func (p *Program[T]) stopInputReader() {
 func (p *Program[T]) restartInputReader() {
 	p.mu.Lock()
 	running := p.inputReaderRunning
+	started := p.inputReader != nil
 	p.mu.Unlock()
 
-	if running {
-		// Already running - don't start duplicate
+	if running || !started {
+		// Already running - don't start duplicate - or there was none
 		return
 	}
 
@@ -707,6 +687,9 @@ func (p *Program[T]) restartInputReader() {
 // Returns error if suspension fails (e.g., terminal operation error).
 // Safe to call multiple times - subsequent calls are no-ops.
 func (p *Program[T]) Suspend() error {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if p.suspended {
 		p.mu.Unlock()
@@ -795,6 +778,9 @@ func (p *Program[T]) Suspend() error {
 // Safe to call multiple times - subsequent calls are no-ops.
 // If Resume fails partway, terminal may be in inconsistent state.
 func (p *Program[T]) Resume() error {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if !p.suspended {
 		p.mu.Unlock()
@@ -815,6 +801,7 @@ func (p *Program[T]) Resume() error {
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
+	p.cursorHidden = true
 	p.mu.Unlock()
 
 	// STEP 2: Re-enter alternate screen (if was active before)
@@ -851,7 +838,7 @@ func (p *Program[T]) Resume() error {
 	if p.inlineRenderer != nil {
 		p.inlineRenderer.Repaint()
 	}
-	p.renderView()
+	p.renderLocked()
 
 	return nil
 }
-- 
2.43.0


From 4fec5af4e3c578193f445c83ad3120499137fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 11/57] fix: tea: a Suspend right after Start waits until there
 is something to suspend

---
 tea/internal/application/program/program.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 7dbc3c1..5ad68ca 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -159,11 +159,15 @@ func (p *Program[T]) Run() error {
 }
 
 // begin marks the program as running and makes the channels of this run.
+// If it succeeds, ttyMu stays locked until enterTerminal: a Suspend must not
+// come before there is something to suspend.
 func (p *Program[T]) begin() error {
+	p.ttyMu.Lock()
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
 	if p.running {
+		p.ttyMu.Unlock()
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
@@ -172,6 +176,8 @@ func (p *Program[T]) begin() error {
 	// second quit signal) may reach this one.
 	p.msgCh = make(chan model2.Msg, 100)
 	p.quitCh = make(chan struct{}, 1)
+	p.suspended = false
+	p.suspendState = nil
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -216,8 +222,19 @@ func (p *Program[T]) cleanup() {
 	close(p.doneCh)
 }
 
-// enterTerminal enters raw mode and, if enabled, the alt screen.
+// enterTerminal enters raw mode and, if enabled, the alt screen, and starts
+// the input reader.
 func (p *Program[T]) enterTerminal() error {
+	defer p.ttyMu.Unlock()
+	if err := p.enterModes(); err != nil {
+		return err
+	}
+	p.startInputReader()
+	return nil
+}
+
+// enterModes enters raw mode and, if enabled, the alt screen.
+func (p *Program[T]) enterModes() error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
@@ -244,8 +261,6 @@ func (p *Program[T]) eventLoop() {
 	if initCmd != nil {
 		p.executeCommand(initCmd)
 	}
-	// Start input reader
-	p.startInputReader()
 
 	// STEP 2: Render initial view
 	p.renderView()
-- 
2.43.0


From c8f17647bc468ab9c1565c6bb3390f2a087573b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 12/57] fix: mouse: report SGR motion as motion, not as a
 press; keep menus on the screen

---
 mouse/internal/domain/service/menu_positioner.go | 16 ++++++++--------
 .../internal/infrastructure/parser/sgr_parser.go |  5 +++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/mouse/internal/domain/service/menu_positioner.go b/mouse/internal/domain/service/menu_positioner.go
index 6864a8a..72b2757 100644
--- a/mouse/internal/domain/service/menu_positioner.go
+++ b/mouse/internal/domain/service/menu_positioner.go
@@ -72,20 +72,20 @@ func (p *MenuPositioner) CalculatePosition(
 	if x+menuWidth > screenWidth {
 		// Shift left to fit
 		x = screenWidth - menuWidth
-		// Ensure non-negative
-		if x < 0 {
-			x = 0
-		}
+	}
+	// Shift right if the cursor is left of the screen
+	if x < 0 {
+		x = 0
 	}
 
 	// Check bottom edge overflow
 	if y+menuHeight > screenHeight {
 		// Shift up to fit
 		y = screenHeight - menuHeight
-		// Ensure non-negative
-		if y < 0 {
-			y = 0
-		}
+	}
+	// Shift down if the cursor is above the screen
+	if y < 0 {
+		y = 0
 	}
 
 	return value.NewPosition(x, y)
diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index b33cbe6..cc08b37 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -62,6 +62,8 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 	var eventType value2.EventType
 	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
+	} else if p.IsMotion(buttonCode) {
+		eventType = value2.EventMotion
 	} else if isPress {
 		eventType = value2.EventPress
 	} else {
@@ -107,8 +109,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
-	baseButton := buttonCode & 0x63 // same mask as decodeButton
-	return baseButton == 32 || baseButton == 35
+	return buttonCode&32 != 0 // bit 5, whichever button is held
 }
 
 // FormatSequence formats a mouse event as an SGR sequence (for testing).
-- 
2.43.0


From ec9c159c91cb9c52498a69b5321d5dcd60d0909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 13/57] fix: clipboard: RTF text is read by a reader of RTF,
 and escaped as UTF-16

---
 .../internal/domain/service/richtext_codec.go | 189 +++++++++++++-----
 1 file changed, 140 insertions(+), 49 deletions(-)

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 9acbecb..b1091d3 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"html"
 	"regexp"
+	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
 )
@@ -188,20 +190,10 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 
 	styles := value.NewTextStyles()
 
-	// Detect bold
-	if strings.Contains(rtfContent, "\\b ") {
-		styles = styles.WithBold(true)
-	}
-
-	// Detect italic
-	if strings.Contains(rtfContent, "\\i ") {
-		styles = styles.WithItalic(true)
-	}
+	plainText, words := parseRTF(rtfContent)
 
-	// Detect underline
-	if strings.Contains(rtfContent, "\\ul ") {
-		styles = styles.WithUnderline(true)
-	}
+	// Detect bold, italic, underline
+	styles = styles.WithBold(words["b"]).WithItalic(words["i"]).WithUnderline(words["ul"])
 
 	// Detect color from color table
 	colorTableRegex := regexp.MustCompile(`\\colortbl\s*;\\red(\d+)\\green(\d+)\\blue(\d+);`)
@@ -221,12 +213,6 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 		}
 	}
 
-	// Strip RTF formatting
-	plainText, err := c.StripRTFFormatting(rtfContent)
-	if err != nil {
-		return "", styles, err
-	}
-
 	return plainText, styles, nil
 }
 
@@ -236,38 +222,138 @@ func (c *RichTextCodec) StripRTFFormatting(rtfContent string) (string, error) {
 		return "", nil
 	}
 
-	// Remove RTF control words and groups
-	text := rtfContent
-
-	// Remove color table
-	colorTableRegex := regexp.MustCompile(`\{\\colortbl[^}]*\}`)
-	text = colorTableRegex.ReplaceAllString(text, "")
+	text, _ := parseRTF(rtfContent)
 
-	// Remove RTF header
-	text = strings.TrimPrefix(text, "{\\rtf1\\ansi\\deff0")
-	text = strings.TrimPrefix(text, "\n")
+	return text, nil
+}
 
-	// Remove formatting codes
-	text = strings.ReplaceAll(text, "\\b ", "")
-	text = strings.ReplaceAll(text, "\\b0 ", "")
-	text = strings.ReplaceAll(text, "\\i ", "")
-	text = strings.ReplaceAll(text, "\\i0 ", "")
-	text = strings.ReplaceAll(text, "\\ul ", "")
-	text = strings.ReplaceAll(text, "\\ul0 ", "")
-	text = regexp.MustCompile(`\\cf\d+ `).ReplaceAllString(text, "")
+// parseRTF reads RTF content. It returns the text and the control words that
+// switch something on (such as "b" for \b, but not for \b0).
+func parseRTF(rtf string) (string, map[string]bool) {
+	var text []uint16 // UTF-16, because \u escapes are
+	words := make(map[string]bool)
+	depth, skipFrom := 0, 0 // skipFrom: depth of the group that is not text, 0 if none
+	fallback := 0           // characters to skip after \u
+	paragraph := false      // a paragraph ended and nothing follows it yet
+
+	flush := func() {
+		if paragraph {
+			text = append(text, '\n')
+			paragraph = false
+		}
+	}
+	emit := func(s string) {
+		for _, r := range s {
+			if fallback > 0 {
+				fallback--
+				continue
+			}
+			if skipFrom > 0 {
+				continue
+			}
+			flush()
+			text = utf16.AppendRune(text, r)
+		}
+	}
 
-	// Remove remaining control sequences
-	controlRegex := regexp.MustCompile(`\\[a-z]+\d*\s*`)
-	text = controlRegex.ReplaceAllString(text, "")
+	for i := 0; i < len(rtf); {
+		switch ch := rtf[i]; {
+		case ch == '{':
+			depth++
+			fallback = 0
+			i++
+		case ch == '}':
+			if depth == skipFrom {
+				skipFrom = 0
+			}
+			depth--
+			fallback = 0
+			i++
+		case ch == '\r' || ch == '\n':
+			i++
+		case ch != '\\':
+			n := i + 1
+			for n < len(rtf) && !strings.ContainsRune("{}\\\r\n", rune(rtf[n])) {
+				n++
+			}
+			emit(rtf[i:n])
+			i = n
+		default:
+			word, arg, hasArg, n := rtfControl(rtf[i:])
+			i += n
+			switch word {
+			case "\\", "{", "}":
+				emit(word)
+			case "~":
+				emit("\u00a0")
+			case "'":
+				emit(string(rune(arg)))
+			case "u":
+				if skipFrom == 0 {
+					flush()
+					text = append(text, uint16(arg)) //nolint:gosec // negative numbers wrap by design
+				}
+				fallback = 1
+			case "line":
+				emit("\n")
+			case "tab":
+				emit("\t")
+			case "par", "\r", "\n":
+				if skipFrom == 0 {
+					flush()
+					paragraph = true
+				}
+			case "*", "colortbl", "fonttbl", "stylesheet", "info", "pict":
+				if skipFrom == 0 {
+					skipFrom = depth
+				}
+			default:
+				if skipFrom == 0 && (!hasArg || arg != 0) {
+					words[word] = true
+				}
+			}
+		}
+	}
 
-	// Remove braces
-	text = strings.ReplaceAll(text, "{", "")
-	text = strings.ReplaceAll(text, "}", "")
+	return string(utf16.Decode(text)), words
+}
 
-	// Trim whitespace
-	text = strings.TrimSpace(text)
+// rtfControl reads the control word or symbol at the start of s, which starts
+// with a backslash, and returns it with its argument and length.
+func rtfControl(s string) (word string, arg int, hasArg bool, n int) {
+	letter := func(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
+	digit := func(c byte) bool { return '0' <= c && c <= '9' }
 
-	return text, nil
+	if len(s) < 2 {
+		return "", 0, false, len(s)
+	}
+	if s[1] == '\'' && len(s) >= 4 {
+		v, _ := strconv.ParseUint(s[2:4], 16, 8)
+		return "'", int(v), true, 4
+	}
+	if !letter(s[1]) {
+		return s[1:2], 0, false, 2
+	}
+	n = 1
+	for n < len(s) && letter(s[n]) {
+		n++
+	}
+	word = s[1:n]
+	start := n
+	if n+1 < len(s) && s[n] == '-' && digit(s[n+1]) {
+		n++
+	}
+	for n < len(s) && digit(s[n]) {
+		n++
+	}
+	if n > start {
+		arg, _ = strconv.Atoi(s[start:n])
+		hasArg = true
+	}
+	if n < len(s) && s[n] == ' ' {
+		n++
+	}
+	return word, arg, hasArg, n
 }
 
 // HTMLToRTF converts HTML content to RTF format.
@@ -330,10 +416,15 @@ func (c *RichTextCodec) escapeRTF(text string) string {
 			// Skip carriage returns
 			continue
 		default:
-			// For non-ASCII characters, use Unicode escape
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\u%d?", r))
-			} else {
+			// For non-ASCII characters, use Unicode escapes: signed 16-bit
+			// numbers, two of them (a surrogate pair) beyond U+FFFF
+			switch {
+			case r > 0xFFFF:
+				hi, lo := utf16.EncodeRune(r)
+				buf.WriteString(fmt.Sprintf("\\u%d?\\u%d?", int16(hi), int16(lo))) //nolint:gosec // wraps by design
+			case r > 127:
+				buf.WriteString(fmt.Sprintf("\\u%d?", int16(r))) //nolint:gosec // wraps by design
+			default:
 				buf.WriteRune(r)
 			}
 		}
-- 
2.43.0


From da5e4244cd51619e1465cb9d4e46079d150cf6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 14/57] fix: clipboard: a terminal that cannot be synced is no
 failed OSC 52 write

---
 clipboard/internal/infrastructure/osc52/osc52_provider.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clipboard/internal/infrastructure/osc52/osc52_provider.go b/clipboard/internal/infrastructure/osc52/osc52_provider.go
index 3d3611b..7e18d6e 100644
--- a/clipboard/internal/infrastructure/osc52/osc52_provider.go
+++ b/clipboard/internal/infrastructure/osc52/osc52_provider.go
@@ -58,8 +58,10 @@ func (p *Provider) Write(content *model.ClipboardContent) error {
 			done <- err
 			return
 		}
-		// Flush is important to ensure the escape sequence is sent immediately
-		done <- p.output.Sync()
+		// Flush is important to ensure the escape sequence is sent immediately.
+		// Terminals do not support it (EINVAL): there is nothing to flush.
+		_ = p.output.Sync()
+		done <- nil
 	}()
 
 	// Wait for write to complete or timeout
-- 
2.43.0


From 8ebef2bcb98d97b1b7e5716dabd9f55ceffe4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 15/57] fix: clipboard: do not allocate the history up to its
 limit in advance

---
 clipboard/internal/domain/service/clipboard_history.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 0fce74f..3337c57 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -32,7 +32,7 @@ func NewClipboardHistory(maxSize int, maxAge time.Duration) *ClipboardHistory {
 	}
 
 	return &ClipboardHistory{
-		entries: make([]*model.HistoryEntry, 0, maxSize),
+		entries: make([]*model.HistoryEntry, 0),
 		maxSize: maxSize,
 		maxAge:  maxAge,
 	}
@@ -149,7 +149,7 @@ func (h *ClipboardHistory) Clear() {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
-	h.entries = make([]*model.HistoryEntry, 0, h.maxSize)
+	h.entries = make([]*model.HistoryEntry, 0)
 }
 
 // RemoveExpired removes all entries older than maxAge.
-- 
2.43.0


From 310613c2d34fab2c337a552c107640eb185cc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 16/57] fix: clipboard: of history entries of the same instant
 the last added is the newest

---
 .../domain/service/clipboard_history.go       | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 3337c57..92b88f3 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -3,6 +3,7 @@ package service
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"sync"
 	"time"
@@ -87,14 +88,20 @@ func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {
 	result := make([]*model.HistoryEntry, len(h.entries))
 	copy(result, h.entries)
 
-	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	return result
 }
 
+// sortNewestFirst sorts entries in the order they were added by timestamp,
+// newest first; of entries with the same timestamp the one added last is newest.
+func sortNewestFirst(entries []*model.HistoryEntry) {
+	slices.Reverse(entries)
+	sort.SliceStable(entries, func(i, j int) bool {
+		return entries[i].Timestamp().After(entries[j].Timestamp())
+	})
+}
+
 // GetRecent returns the N most recent entries.
 // If count is 0 or negative, returns all entries.
 // If count exceeds available entries, returns all entries.
@@ -110,9 +117,7 @@ func (h *ClipboardHistory) GetRecent(count int) []*model.HistoryEntry {
 	result := make([]*model.HistoryEntry, len(h.entries))
 	copy(result, h.entries)
 
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	// Limit to requested count
 	if count < len(result) {
@@ -136,10 +141,7 @@ func (h *ClipboardHistory) GetByMIMEType(mimeType value.MIMEType) []*model.Histo
 		}
 	}
 
-	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	return result
 }
-- 
2.43.0


From 558968d392d63bb86acc74bc5257f123902c44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 17/57] fix: style: a border colour colours the border only and
 the style goes on after it

---
 .../application/command/border_renderer.go    | 170 ++----------------
 style/internal/application/command/render.go  |  47 +++--
 2 files changed, 46 insertions(+), 171 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 4147202..13d67ea 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
+	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
@@ -13,14 +14,17 @@ import (
 // BorderRenderer handles border rendering around content.
 // This is a helper for RenderCommand that encapsulates border logic.
 type BorderRenderer struct {
+	colorAdapter  service2.ColorAdapter
 	ansiGenerator *ansi.ANSICodeGenerator
 }
 
 // NewBorderRenderer creates a new BorderRenderer.
 func NewBorderRenderer(
+	colorAdapter service2.ColorAdapter,
 	ansiGenerator *ansi.ANSICodeGenerator,
 ) *BorderRenderer {
 	return &BorderRenderer{
+		colorAdapter:  colorAdapter,
 		ansiGenerator: ansiGenerator,
 	}
 }
@@ -65,8 +69,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 
 	// Content lines with left/right borders.
 	for _, line := range lines {
-		borderedLine := br.buildContentLine(line, border, maxWidth, hasLeft, hasRight)
-		borderedLine = br.applyBorderColorToSides(borderedLine, border, style, hasLeft, hasRight)
+		borderedLine := br.buildContentLine(line, border, style, maxWidth, hasLeft, hasRight)
 		result = append(result, borderedLine)
 	}
 
@@ -133,7 +136,7 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 }
 
 // buildContentLine builds a content line with left/right borders.
-func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool) string {
+func (br *BorderRenderer) buildContentLine(line string, border value2.Border, style model.Style, targetWidth int, hasLeft, hasRight bool) string {
 	// Calculate padding needed to reach target width.
 	currentWidth := core.StringWidth(line)
 	paddingWidth := targetWidth - currentWidth
@@ -148,7 +151,7 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Left border.
 	if hasLeft {
-		parts = append(parts, border.Left)
+		parts = append(parts, br.applyBorderColor(border.Left, style))
 	}
 
 	// Content.
@@ -156,162 +159,25 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Right border.
 	if hasRight {
-		parts = append(parts, border.Right)
+		parts = append(parts, br.applyBorderColor(border.Right, style))
 	}
 
 	return strings.Join(parts, "")
 }
 
-// applyBorderColor applies border color to entire line.
-func (br *BorderRenderer) applyBorderColor(line string, style model.Style) string {
+// applyBorderColor applies the border color to a part of the border.
+// The content between the border characters is never passed here.
+func (br *BorderRenderer) applyBorderColor(part string, style model.Style) string {
 	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
+	if !hasBorderColor || part == "" {
+		return part
 	}
 
-	// Adapt color to terminal capability.
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-
-	return ansiCode + line + br.ansiGenerator.Reset()
-}
-
-// applyBorderColorToSides applies border color only to left/right border characters.
-// This is more complex because we need to color only the border chars, not the content.
-func (br *BorderRenderer) applyBorderColorToSides(line string, _ value2.Border, style model.Style, hasLeft, hasRight bool) string {
-	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
-	}
-
-	// If neither side has border, return as-is.
-	if !hasLeft && !hasRight {
-		return line
-	}
-
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-	reset := br.ansiGenerator.Reset()
-
-	// Split line to color only border characters.
-	runes := []rune(line)
-	var result strings.Builder
-
-	// Left border (first character).
-	if hasLeft && len(runes) > 0 {
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[0])
-		result.WriteString(reset)
-		runes = runes[1:]
-	}
-
-	// Middle content (no color).
-	if hasRight && len(runes) > 0 {
-		// All but last character.
-		result.WriteString(string(runes[:len(runes)-1]))
-
-		// Right border (last character).
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[len(runes)-1])
-		result.WriteString(reset)
-	} else {
-		// No right border, write remaining content.
-		result.WriteString(string(runes))
-	}
-
-	return result.String()
-}
-
-// colorToANSI converts a Color to ANSI code based on terminal capability.
-func (br *BorderRenderer) colorToANSI(color value2.Color, termCap value2.TerminalCapability, isForeground bool) string {
-	r, g, b := color.RGB()
-
-	switch termCap {
-	case value2.TrueColor:
-		if isForeground {
-			return br.ansiGenerator.Foreground(r, g, b)
-		}
-		return br.ansiGenerator.Background(r, g, b)
-
-	case value2.ANSI256:
-		// Convert RGB to 256-color palette.
-		code := br.rgbTo256(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground256(code)
-		}
-		return br.ansiGenerator.Background256(code)
-
-	case value2.ANSI16:
-		// Convert RGB to 16-color palette.
-		code := br.rgbTo16(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground16(code)
-		}
-		return br.ansiGenerator.Background16(code)
-
-	default:
-		return ""
-	}
-}
-
-// rgbTo256 converts RGB to 256-color palette index.
-// Uses 6x6x6 color cube + grayscale ramp.
-func (br *BorderRenderer) rgbTo256(r, g, b uint8) uint8 {
-	// Grayscale detection.
-	if r == g && g == b {
-		// Use grayscale ramp (232-255).
-		if r < 8 {
-			return 16 // black
-		}
-		if r > 247 {
-			return 231 // white
-		}
-		//nolint:gosec // G115: Overflow impossible - result range 0-24 from (r-8)/10 where r ∈ [8,247]
-		return 232 + uint8((int(r)-8)/10)
-	}
-
-	// Color cube (16-231): 16 + 36*R + 6*G + B.
-	// Where R, G, B are in range 0-5.
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (r*6)/256 where r ∈ [0,255]
-	r6 := uint8((int(r) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (g*6)/256
-	g6 := uint8((int(g) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (b*6)/256
-	b6 := uint8((int(b) * 6) / 256)
-
-	return 16 + 36*r6 + 6*g6 + b6
-}
-
-// rgbTo16 converts RGB to 16-color palette index.
-// Maps to basic ANSI colors (0-15).
-func (br *BorderRenderer) rgbTo16(r, g, b uint8) uint8 {
-	// Calculate brightness.
-	brightness := (int(r) + int(g) + int(b)) / 3
-
-	// Determine if color is bright (8-15) or normal (0-7).
-	bright := brightness > 128
-
-	// Determine dominant color.
-	red := r > 128
-	green := g > 128
-	blue := b > 128
-
-	// Build color code.
-	var code uint8
-	if red {
-		code |= 1
-	}
-	if green {
-		code |= 2
-	}
-	if blue {
-		code |= 4
-	}
-
-	// Add bright bit.
-	if bright {
-		code |= 8
+	// Adapt color to terminal capability, with the mapping the content colors use.
+	ansiCode := br.colorAdapter.ToANSIForeground(borderColor, style.GetTerminalCapability())
+	if ansiCode == "" {
+		return part
 	}
 
-	return code
+	return ansiCode + part + br.ansiGenerator.Reset()
 }
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index aa92847..256af7a 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -50,7 +50,7 @@ func NewRenderCommand(
 		spacingCalculator: spacingCalculator,
 		textAligner:       textAligner,
 		ansiGenerator:     ansiGenerator,
-		borderRenderer:    NewBorderRenderer(ansiGenerator),
+		borderRenderer:    NewBorderRenderer(colorAdapter, ansiGenerator),
 	}
 }
 
@@ -134,10 +134,13 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 	}
 
 	// 7. Color adaptation & ANSI generation.
-	content = rc.applyColors(content, style)
+	// A reset inside the content (of the border color, or of content that was
+	// styled before) ends that styling only, not the one applied here.
+	content = rc.resumeAfterResets(content, style)
+	content = rc.wrap(content, rc.colorCodes(style))
 
 	// 8. Text decorations.
-	content = rc.applyDecorations(content, style)
+	content = rc.wrap(content, rc.decorationCodes(style))
 
 	return content, nil
 }
@@ -192,8 +195,20 @@ func (rc *RenderCommand) validateSizeConstraints(size value.Size, width, height
 	return nil
 }
 
-// applyColors applies foreground and background colors to content.
-func (rc *RenderCommand) applyColors(content string, style model.Style) string {
+// resumeAfterResets re-enables colors and decorations of the style after each
+// reset sequence within content.
+func (rc *RenderCommand) resumeAfterResets(content string, style model.Style) string {
+	prefix := strings.Join(rc.decorationCodes(style), "") + strings.Join(rc.colorCodes(style), "")
+	if prefix == "" {
+		return content
+	}
+
+	reset := rc.ansiGenerator.Reset()
+	return strings.ReplaceAll(content, reset, reset+prefix)
+}
+
+// colorCodes returns the codes of foreground and background colors.
+func (rc *RenderCommand) colorCodes(style model.Style) []string {
 	termCap := style.GetTerminalCapability()
 	var codes []string
 
@@ -213,20 +228,11 @@ func (rc *RenderCommand) applyColors(content string, style model.Style) string {
 		}
 	}
 
-	// No colors to apply.
-	if len(codes) == 0 {
-		return content
-	}
-
-	// Apply colors to entire content.
-	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
-
-	return prefix + content + suffix
+	return codes
 }
 
-// applyDecorations applies text decorations (bold, italic, underline, strikethrough).
-func (rc *RenderCommand) applyDecorations(content string, style model.Style) string {
+// decorationCodes returns the codes of text decorations (bold, italic, underline, strikethrough).
+func (rc *RenderCommand) decorationCodes(style model.Style) []string {
 	var codes []string
 
 	if style.GetBold() {
@@ -242,12 +248,15 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 		codes = append(codes, rc.ansiGenerator.Strikethrough())
 	}
 
-	// No decorations to apply.
+	return codes
+}
+
+// wrap applies the codes to the entire content.
+func (rc *RenderCommand) wrap(content string, codes []string) string {
 	if len(codes) == 0 {
 		return content
 	}
 
-	// Apply decorations to entire content.
 	prefix := strings.Join(codes, "")
 	suffix := rc.ansiGenerator.Reset()
 
-- 
2.43.0


From 66463d45a7699ace84e9e4609c38db2b86fc9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 18/57] fix: style: escape sequences in the content take no
 columns

---
 .../application/command/border_renderer.go    |  5 +-
 style/internal/application/command/render.go  |  3 +-
 .../domain/service/spacing_calculator.go      |  5 +-
 style/internal/domain/service/text_aligner.go |  5 +-
 .../internal/domain/service/visible_width.go  | 48 +++++++++++++++++++
 5 files changed, 55 insertions(+), 11 deletions(-)
 create mode 100644 style/internal/domain/service/visible_width.go

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 13d67ea..70e4d05 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -4,7 +4,6 @@ package command
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
@@ -87,7 +86,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 func (br *BorderRenderer) calculateMaxWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.VisibleWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
@@ -138,7 +137,7 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 // buildContentLine builds a content line with left/right borders.
 func (br *BorderRenderer) buildContentLine(line string, border value2.Border, style model.Style, targetWidth int, hasLeft, hasRight bool) string {
 	// Calculate padding needed to reach target width.
-	currentWidth := core.StringWidth(line)
+	currentWidth := service2.VisibleWidth(line)
 	paddingWidth := targetWidth - currentWidth
 	if paddingWidth < 0 {
 		paddingWidth = 0
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 256af7a..462f811 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
@@ -152,7 +151,7 @@ func (rc *RenderCommand) calculateContentDimensions(content string) (int, int) {
 
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.VisibleWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index 4154279..88587a3 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -80,7 +79,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	// Use the first line's width if available.
 	emptyLineWidth := padding.Left() + padding.Right()
 	if len(paddedLines) > 0 {
-		emptyLineWidth = core.StringWidth(paddedLines[0])
+		emptyLineWidth = VisibleWidth(paddedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -128,7 +127,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	// Calculate width of margined lines for empty margin lines.
 	emptyLineWidth := margin.Left() + margin.Right()
 	if len(marginedLines) > 0 {
-		emptyLineWidth = core.StringWidth(marginedLines[0])
+		emptyLineWidth = VisibleWidth(marginedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..545d8d4 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -37,7 +36,7 @@ func NewTextAligner() TextAligner {
 // Handles Unicode correctly by using visual width, not string length.
 func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment value.HorizontalAlignment) string {
 	// Calculate actual visual width of text.
-	textWidth := core.StringWidth(text)
+	textWidth := VisibleWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	if textWidth > width {
@@ -97,7 +96,7 @@ func (ta *DefaultTextAligner) AlignVertical(text string, height int, alignment v
 	// Determine width for empty lines (use max line width).
 	emptyLineWidth := 0
 	for _, line := range lines {
-		lineWidth := core.StringWidth(line)
+		lineWidth := VisibleWidth(line)
 		if lineWidth > emptyLineWidth {
 			emptyLineWidth = lineWidth
 		}
diff --git a/style/internal/domain/service/visible_width.go b/style/internal/domain/service/visible_width.go
new file mode 100644
index 0000000..eb69b76
--- /dev/null
+++ b/style/internal/domain/service/visible_width.go
@@ -0,0 +1,48 @@
+package service
+
+import (
+	"strings"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// VisibleWidth returns the number of columns a line takes on the terminal.
+// CSI escape sequences (colors of a border, of content that was styled before)
+// take none.
+func VisibleWidth(line string) int {
+	if !strings.Contains(line, "\x1b[") {
+		return core.StringWidth(line)
+	}
+
+	var text strings.Builder
+	for line != "" {
+		if n := escapeLength(line); n > 0 {
+			line = line[n:]
+			continue
+		}
+		text.WriteByte(line[0])
+		line = line[1:]
+	}
+
+	return core.StringWidth(text.String())
+}
+
+// escapeLength returns the length in bytes of the CSI escape sequence s starts
+// with, or 0 if it does not start with one.
+func escapeLength(s string) int {
+	if !strings.HasPrefix(s, "\x1b[") {
+		return 0
+	}
+
+	// Parameter and intermediate bytes, then the final byte.
+	for i := 2; i < len(s); i++ {
+		if s[i] >= 0x40 && s[i] <= 0x7e {
+			return i + 1
+		}
+		if s[i] < 0x20 || s[i] > 0x7e {
+			return 0
+		}
+	}
+
+	return 0
+}
-- 
2.43.0


From abe09b423da9651d258aad14912809564b1eb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 19/57] fix: style: align each line, and cut it by columns
 instead of bytes

---
 style/internal/domain/service/text_aligner.go | 14 ++++++++--
 .../internal/domain/service/visible_width.go  | 27 +++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index 545d8d4..45b33d1 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -32,15 +32,25 @@ func NewTextAligner() TextAligner {
 	return &DefaultTextAligner{}
 }
 
-// AlignHorizontal aligns a single line of text within given width.
+// AlignHorizontal aligns each line of text within given width.
 // Handles Unicode correctly by using visual width, not string length.
 func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment value.HorizontalAlignment) string {
+	if strings.Contains(text, "\n") {
+		lines := strings.Split(text, "\n")
+		for i, line := range lines {
+			lines[i] = ta.AlignHorizontal(line, width, alignment)
+		}
+		return strings.Join(lines, "\n")
+	}
+
 	// Calculate actual visual width of text.
 	textWidth := VisibleWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
+	// A wide character that does not fit as a whole leaves a column to pad.
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		text = truncateVisible(text, width)
+		textWidth = VisibleWidth(text)
 	}
 
 	// If text fits exactly, return as-is.
diff --git a/style/internal/domain/service/visible_width.go b/style/internal/domain/service/visible_width.go
index eb69b76..391c35a 100644
--- a/style/internal/domain/service/visible_width.go
+++ b/style/internal/domain/service/visible_width.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/core"
 )
@@ -27,6 +28,32 @@ func VisibleWidth(line string) int {
 	return core.StringWidth(text.String())
 }
 
+// truncateVisible cuts a line to the longest beginning that takes at most width
+// columns. Escape sequences are kept, also those after the cut.
+func truncateVisible(line string, width int) string {
+	var result, text strings.Builder
+	full := false
+	for line != "" {
+		if n := escapeLength(line); n > 0 {
+			result.WriteString(line[:n])
+			line = line[n:]
+			continue
+		}
+
+		_, size := utf8.DecodeRuneInString(line)
+		if !full {
+			text.WriteString(line[:size])
+			full = core.StringWidth(text.String()) > width
+		}
+		if !full {
+			result.WriteString(line[:size])
+		}
+		line = line[size:]
+	}
+
+	return result.String()
+}
+
 // escapeLength returns the length in bytes of the CSI escape sequence s starts
 // with, or 0 if it does not start with one.
 func escapeLength(s string) int {
-- 
2.43.0


From 808808a29666339e213aa9234f93a9b765decf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 20/57] fix: style: a single border side takes one column or
 row of the size limits

---
 style/internal/application/command/render.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 462f811..7d62b32 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -78,11 +78,19 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		}
 
 		// Add border dimensions.
-		if style.GetBorderLeft() || style.GetBorderRight() {
-			contentWidth += 2 // Left + right border
-		}
-		if style.GetBorderTop() || style.GetBorderBottom() {
-			contentHeight += 2 // Top + bottom border
+		if border, hasBorder := style.GetBorder(); hasBorder {
+			if style.GetBorderLeft() {
+				contentWidth += service2.VisibleWidth(border.Left)
+			}
+			if style.GetBorderRight() {
+				contentWidth += service2.VisibleWidth(border.Right)
+			}
+			if style.GetBorderTop() {
+				contentHeight++
+			}
+			if style.GetBorderBottom() {
+				contentHeight++
+			}
 		}
 
 		// Add margin dimensions.
-- 
2.43.0


From 99cb7e6124296047b2f1c6ec0b7dc7c79668f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 21/57] fix: style: an exact width or height holds without an
 alignment too

---
 style/internal/application/command/render.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 7d62b32..f5bf40d 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -114,15 +114,17 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 	}
 
 	// 3. Text alignment (before padding/border).
-	//nolint:gocritic,nestif // ifElseChain: Sequential checks are clearer; nestif: Optional properties require nested checks
-	if alignment, ok := style.GetAlignment(); ok {
-		if targetWidth > 0 && targetHeight > 0 {
-			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
-		} else if targetWidth > 0 {
-			content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
-		} else if targetHeight > 0 {
-			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
-		}
+	// An exact width or height holds without an alignment too: left, top.
+	alignment, ok := style.GetAlignment()
+	if !ok {
+		alignment = value.NewAlignment(value.AlignLeft, value.AlignTop)
+	}
+	if targetWidth > 0 && targetHeight > 0 {
+		content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
+	} else if targetWidth > 0 {
+		content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
+	} else if targetHeight > 0 {
+		content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
 	}
 
 	// 4. Apply padding.
-- 
2.43.0


From 16e290d116a608cce05e397db45fef0bafd3841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:18 +0000
Subject: [PATCH 22/57] fix: layout boxes are drawn by columns, not by bytes

RenderService measured content in bytes: with wide or accented characters the
right border of each line was put in a different column and the box was wider
than its top and bottom border. Box.ContentSize did the same.
---
 layout/internal/domain/model/box.go              | 10 +++-------
 layout/internal/domain/service/render_service.go |  7 ++++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/layout/internal/domain/model/box.go b/layout/internal/domain/model/box.go
index cc249be..8c1c5b5 100644
--- a/layout/internal/domain/model/box.go
+++ b/layout/internal/domain/model/box.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
 )
 
@@ -184,12 +185,8 @@ func (b *Box) WithAlignment(a value2.Alignment) *Box {
 }
 
 // ContentSize calculates the size of the content area.
-// For now, this measures string length (simple approach).
-// Later (Day 3), this will integrate with phoenix/core.UnicodeService
-// for proper grapheme cluster width calculation.
 //
-// Current implementation:
-//   - Width: Length of longest line
+//   - Width: Length of longest line, in terminal cells (Unicode-aware)
 //   - Height: Number of lines
 //
 // Returns:
@@ -200,8 +197,7 @@ func (b *Box) ContentSize() value2.Size {
 	// Calculate width (longest line)
 	maxWidth := 0
 	for _, line := range lines {
-		// TODO(Day 3): Use phoenix/core.UnicodeService.Width(line)
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..ad606e0 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -4,6 +4,7 @@ package service
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 )
 
@@ -144,7 +145,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		line += contentLine
 
 		// Add right padding to align right border
-		lineWidth := len(contentLine)
+		lineWidth := core.StringWidth(contentLine)
 		spacesNeeded := contentWidth - lineWidth
 
 		// Only pad to contentWidth if we have a border (to align it)
@@ -207,11 +208,11 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 }
 
 // calculateContentWidth finds the maximum line width in content.
-// This is a simple character count (Unicode width handled by caller if needed).
+// Width is counted in terminal cells (Unicode-aware).
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From c398bc2c65b094ca652a62e7f50369edfde7be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 23/57] fix: rendering a layout box leaves its size as it was
 set

Render stored the measured size in the box, so content, padding or borders
changed afterwards no longer counted for its size, and printing a box changed
where Layout and Flex put it.
---
 layout/layout.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..e5b3a95 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -399,18 +399,7 @@ func (b *Box) Align(horizontal value2.HorizontalAlignment, vertical value2.Verti
 //		Render()
 //	fmt.Println(output)
 func (b *Box) Render() string {
-	// Create services (these are lightweight)
-	measureService := service2.NewMeasureService()
-	renderService := service2.NewRenderService()
-
-	// Measure box to get natural size
-	size := measureService.Measure(b.domain)
-
-	// Update domain box with measured size (for rendering)
-	b.domain = b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
-
-	// Render the box
-	return renderService.Render(b.domain)
+	return service2.NewRenderService().Render(b.domain)
 }
 
 // String implements fmt.Stringer for convenient printing.
-- 
2.43.0


From e25b8c799a64caedb22f73ed87675bcfb00eb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 24/57] fix: flex layouts place characters by columns

Flex.Render put each rune into one cell: rows with wide characters or combining
marks were wider or narrower than the container and moved what is right of
them. A negative container size made it panic.
---
 layout/canvas.go | 83 ++++++++++++++++++++++++++++++++++++++++++++++++
 layout/layout.go | 41 +++---------------------
 2 files changed, 88 insertions(+), 36 deletions(-)
 create mode 100644 layout/canvas.go

diff --git a/layout/canvas.go b/layout/canvas.go
new file mode 100644
index 0000000..9543ab3
--- /dev/null
+++ b/layout/canvas.go
@@ -0,0 +1,83 @@
+package layout
+
+import (
+	"strings"
+	"unicode/utf8"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// canvas is a rectangle of terminal cells to draw lines of text on.
+//
+// A cell holds the character shown there (with its combining characters). The
+// second cell of a wide character is empty.
+type canvas [][]string
+
+// newCanvas creates a canvas of spaces.
+func newCanvas(width, height int) canvas {
+	c := make(canvas, max(height, 0))
+	for y := range c {
+		c[y] = make([]string, max(width, 0))
+		for x := range c[y] {
+			c[y][x] = " "
+		}
+	}
+	return c
+}
+
+// draw writes a line of text, starting at a cell. What lies outside of the
+// canvas is cut off, a wide character as a whole.
+func (c canvas) draw(x, y int, line string) {
+	if y < 0 || y >= len(c) {
+		return
+	}
+	row := c[y]
+
+	width := 0 // of the text so far
+	last := -1 // cell of the last character, -1 if it was cut off
+	for start := range line {
+		_, size := utf8.DecodeRuneInString(line[start:])
+		end := start + size
+
+		// What does not make the text wider belongs to the character before.
+		cells := core.StringWidth(line[:end]) - width
+		if cells <= 0 {
+			if last >= 0 {
+				row[last] += line[start:end]
+			}
+			continue
+		}
+		width += cells
+
+		last = -1
+		if x >= 0 && x+cells <= len(row) {
+			free(row, x, x+cells)
+			for i := x + 1; i < x+cells; i++ {
+				row[i] = ""
+			}
+			row[x] = line[start:end]
+			last = x
+		}
+		x += cells
+	}
+}
+
+// free turns the wide characters that cells from start to end (exclusive) share
+// with cells outside into spaces.
+func free(row []string, start, end int) {
+	for i := start; i > 0 && row[i] == ""; i-- {
+		row[i], row[i-1] = " ", " "
+	}
+	for i := end; i < len(row) && row[i] == ""; i++ {
+		row[i] = " "
+	}
+}
+
+// String returns the rows of the canvas, joined by newlines.
+func (c canvas) String() string {
+	rows := make([]string, len(c))
+	for y, row := range c {
+		rows[y] = strings.Join(row, "")
+	}
+	return strings.Join(rows, "\n")
+}
diff --git a/layout/layout.go b/layout/layout.go
index e5b3a95..fe35759 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -741,8 +741,6 @@ func (f *Flex) Height(height int) *Flex {
 //		Add(layout.NewBox("Right")).
 //		Render(80, 24)
 //	fmt.Println(output)
-//
-//nolint:gocognit // Flex rendering orchestrates multiple services
 func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Create services
 	measureService := service2.NewMeasureService()
@@ -752,50 +750,21 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Layout the flexbox
 	laidOut := flexService.Layout(f.domain, containerWidth, containerHeight)
 
-	// Render each item
-	var result strings.Builder
-
-	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
-	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
-		for j := range grid[i] {
-			grid[i][j] = ' '
-		}
-	}
+	// Create a canvas to draw the items on
+	canvas := newCanvas(containerWidth, containerHeight)
 
-	// Render each item into the grid
+	// Render each item onto the canvas
 	for _, item := range laidOut.Items() {
 		itemOutput := renderService.Render(item.Box())
 		itemLines := strings.Split(itemOutput, "\n")
 
 		pos := item.Position()
 		for lineIdx, line := range itemLines {
-			y := pos.Y() + lineIdx
-			if y >= containerHeight {
-				break
-			}
-
-			x := pos.X()
-			for _, ch := range line {
-				if x >= containerWidth {
-					break
-				}
-				grid[y][x] = ch
-				x++
-			}
-		}
-	}
-
-	// Convert grid to string
-	for i, row := range grid {
-		result.WriteString(string(row))
-		if i < len(grid)-1 {
-			result.WriteRune('\n')
+			canvas.draw(pos.X(), pos.Y()+lineIdx, line)
 		}
 	}
 
-	return result.String()
+	return canvas.String()
 }
 
 // String implements fmt.Stringer.
-- 
2.43.0


From b73bc246d1ae5dff2a1ed8fa8301485d987c8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 25/57] fix: killing to the end of the line or a word leaves
 the cursor where it was

---
 .../input/internal/textarea/domain/service/editing.go    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..40c2fd5 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -181,10 +181,10 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	killed := string(runes[col:])
 	killRing := ta.GetKillRing().Kill(killed)
 
-	// Delete from cursor to end.
+	// Delete from cursor to end (cursor stays in same position).
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,8 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	// Cursor stays where the killed word started.
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From f33384d918184287198ec7a7ae94674a060d672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:22 +0000
Subject: [PATCH 26/57] fix: Ctrl+U in a textarea kills only the text before
 the cursor

---
 .../textarea/domain/service/editing.go        | 40 +++++++++++++++++++
 .../infrastructure/keybindings/emacs.go       |  3 +-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 40c2fd5..f5f9f0e 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -187,6 +187,46 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
+// KillToLineStart deletes from start of line to cursor (Ctrl+U).
+// If the movement validator blocks column 0, deletes from the first allowed position.
+func (s *EditingService) KillToLineStart(ta *model.TextArea) *model.TextArea {
+	if ta.IsReadOnly() {
+		return ta
+	}
+
+	row, col := ta.CursorPosition()
+	if col == 0 {
+		return ta // Nothing to kill
+	}
+
+	from := model.NewCursorPos(row, col)
+	start := 0
+	if validator := ta.GetMovementValidator(); validator != nil {
+		for start < col && !validator(from, model.NewCursorPos(row, start)) {
+			start++
+		}
+		if start == col {
+			// Every position before the cursor is blocked.
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(model.NewCursorPos(row, 0), "kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
+	runes := []rune(ta.CurrentLine())
+	killRing := ta.GetKillRing().Kill(string(runes[start:col]))
+	newBuffer := ta.GetBuffer().SetLine(row, string(runes[:start])+string(runes[col:]))
+
+	result := ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, start)).WithKillRing(killRing)
+
+	if handler := ta.GetCursorMovedHandler(); handler != nil {
+		handler(from, model.NewCursorPos(row, start))
+	}
+
+	return result
+}
+
 // KillWord deletes word after cursor (Alt+D).
 func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 	if ta.IsReadOnly() {
diff --git a/components/input/internal/textarea/infrastructure/keybindings/emacs.go b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
index ec43e57..701c391 100644
--- a/components/input/internal/textarea/infrastructure/keybindings/emacs.go
+++ b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
@@ -57,8 +57,7 @@ func (e *EmacsKeybindings) Handle(msg tea.KeyMsg, ta *model.TextArea) (*model.Te
 
 			case 'u', 'U':
 				// Kill from start of line to cursor.
-				ta = e.navigation.MoveToLineStart(ta)
-				return e.editing.KillLine(ta), nil
+				return e.editing.KillToLineStart(ta), nil
 
 			case 'w', 'W':
 				return e.editing.KillWordBackward(ta), nil
-- 
2.43.0


From 2ddb11d8621dfdce2c89f74fce7aa73f9c93d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 27/57] fix: killing a word backward asks the movement
 validator, as Backspace does

---
 .../input/internal/textarea/domain/service/editing.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index f5f9f0e..8936236 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -296,6 +296,17 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 		return ta // No word to kill
 	}
 
+	// Check validator BEFORE killing (same rule as Backspace).
+	if validator := ta.GetMovementValidator(); validator != nil {
+		to := model.NewCursorPos(row, newCol)
+		if !validator(model.NewCursorPos(row, endCol), to) {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(to, "kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
 	// Kill from newCol to endCol.
 	killed := string(line[newCol:endCol])
 	killRing := ta.GetKillRing().Kill(killed)
-- 
2.43.0


From 7c6a2b3f32184f60c736c6d6b815adcf73524f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 28/57] fix: a textarea's character and line limits hold for
 typing and yanking

---
 .../textarea/domain/model/textarea.go         | 11 +++++++++
 .../textarea/domain/service/editing.go        | 24 ++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index c895a3a..2141f7b 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -3,6 +3,7 @@ package model
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // TextArea is the rich domain model for multiline text editing.
@@ -265,6 +266,16 @@ func (t *TextArea) MaxLines() int {
 	return t.maxLines
 }
 
+// MaxChars returns the maximum number of characters (0 = unlimited).
+func (t *TextArea) MaxChars() int {
+	return t.maxChars
+}
+
+// CharCount returns number of characters (newlines included).
+func (t *TextArea) CharCount() int {
+	return utf8.RuneCountInString(t.buffer.String())
+}
+
 // MoveCursorToEnd moves cursor to end of text.
 func (t *TextArea) MoveCursorToEnd() *TextArea {
 	lastRow := t.buffer.LineCount() - 1
diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 8936236..1acc3dd 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -18,6 +18,11 @@ func (s *EditingService) InsertChar(ta *model.TextArea, ch rune) *model.TextArea
 		return ta // Read-only
 	}
 
+	// Check max chars (if limit is set)
+	if maxChars := ta.MaxChars(); maxChars > 0 && ta.CharCount() >= maxChars {
+		return ta
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -137,6 +142,11 @@ func (s *EditingService) InsertNewline(ta *model.TextArea) *model.TextArea {
 		return ta
 	}
 
+	// Check max chars (if limit is set; a newline counts as a character)
+	if maxChars := ta.MaxChars(); maxChars > 0 && ta.CharCount() >= maxChars {
+		return ta
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -340,8 +350,20 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
-	// Insert each character.
+	maxLines := ta.MaxLines()
+	maxChars := ta.MaxChars()
+	charCount := ta.CharCount()
+
+	// Insert each character, up to the limits (if set).
 	for _, ch := range text {
+		if maxChars > 0 && charCount >= maxChars {
+			break
+		}
+		if ch == '\n' && maxLines > 0 && buffer.LineCount() >= maxLines {
+			break
+		}
+		charCount++
+
 		if ch == '\n' {
 			// Insert newline.
 			buffer = buffer.InsertNewline(row, col)
-- 
2.43.0


From 44e0d0bca8f67fcec0f27170c875e0d9b19344b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 29/57] fix: the cursor's row stays in a textarea's view after
 every change

---
 .../textarea/domain/model/textarea.go         | 15 ++++++++++++
 .../textarea/domain/service/editing.go        | 24 +++++++++----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index 2141f7b..189bdfd 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -68,6 +68,7 @@ func (t *TextArea) WithSize(width, height int) *TextArea {
 	updated := t.copy()
 	updated.width = width
 	updated.height = height
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -138,6 +139,18 @@ func (t *TextArea) WithBuffer(buffer *Buffer) *TextArea {
 	// Reset cursor to start.
 	updated.cursor = NewCursor(0, 0)
 	updated.selection = nil
+	updated.ensureCursorVisible()
+	return updated
+}
+
+// WithEdit replaces buffer and cursor together (returns new instance).
+// Unlike WithBuffer, the scroll position changes only as far as the cursor requires.
+func (t *TextArea) WithEdit(buffer *Buffer, cursor *Cursor) *TextArea {
+	updated := t.copy()
+	updated.buffer = buffer
+	updated.selection = nil
+	updated.cursor = cursor
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -287,6 +300,7 @@ func (t *TextArea) MoveCursorToEnd() *TextArea {
 
 	updated := t.copy()
 	updated.cursor = NewCursor(lastRow, lastCol)
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -318,6 +332,7 @@ func (t *TextArea) SetCursorPosition(row, col int) *TextArea {
 
 	updated := t.copy()
 	updated.cursor = NewCursor(row, col)
+	updated.ensureCursorVisible()
 	return updated
 }
 
diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 1acc3dd..3635d87 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -33,7 +33,7 @@ func (s *EditingService) InsertChar(ta *model.TextArea, ch rune) *model.TextArea
 	newCursor := model.NewCursor(row, col+1)
 
 	// Return updated TextArea.
-	return ta.WithBuffer(newBuffer).WithCursor(newCursor)
+	return ta.WithEdit(newBuffer, newCursor)
 }
 
 // DeleteCharBackward deletes character before cursor (Backspace).
@@ -81,7 +81,7 @@ func (s *EditingService) DeleteCharBackward(ta *model.TextArea) *model.TextArea
 		// Delete character on current line.
 		newBuffer := buffer.DeleteChar(row, col-1)
 		newCursor := model.NewCursor(row, col-1)
-		return ta.WithBuffer(newBuffer).WithCursor(newCursor)
+		return ta.WithEdit(newBuffer, newCursor)
 	}
 
 	// Join with previous line (col == 0, row > 0)
@@ -99,7 +99,7 @@ func (s *EditingService) DeleteCharBackward(ta *model.TextArea) *model.TextArea
 	// Move cursor to end of previous line.
 	newCursor := model.NewCursor(row-1, prevLineLen)
 
-	return ta.WithBuffer(newBuffer).WithCursor(newCursor)
+	return ta.WithEdit(newBuffer, newCursor)
 }
 
 // DeleteCharForward deletes character at cursor (Delete key).
@@ -119,14 +119,14 @@ func (s *EditingService) DeleteCharForward(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 			// Preserve cursor position when joining lines.
-			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col))
+			return ta.WithEdit(newBuffer, model.NewCursor(row, col))
 		}
 		return ta
 	}
 
 	// Delete character at cursor (cursor stays in same position)
 	newBuffer := buffer.DeleteChar(row, col)
-	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col))
+	return ta.WithEdit(newBuffer, model.NewCursor(row, col))
 }
 
 // InsertNewline inserts newline at cursor (Enter key).
@@ -156,7 +156,7 @@ func (s *EditingService) InsertNewline(ta *model.TextArea) *model.TextArea {
 	// Move cursor to start of new line.
 	newCursor := model.NewCursor(row+1, 0)
 
-	return ta.WithBuffer(newBuffer).WithCursor(newCursor)
+	return ta.WithEdit(newBuffer, newCursor)
 }
 
 // KillLine deletes from cursor to end of line (Ctrl+K).
@@ -182,7 +182,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
+			return ta.WithEdit(newBuffer, model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -194,7 +194,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end (cursor stays in same position).
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
+	return ta.WithEdit(newBuffer, model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillToLineStart deletes from start of line to cursor (Ctrl+U).
@@ -228,7 +228,7 @@ func (s *EditingService) KillToLineStart(ta *model.TextArea) *model.TextArea {
 	killRing := ta.GetKillRing().Kill(string(runes[start:col]))
 	newBuffer := ta.GetBuffer().SetLine(row, string(runes[:start])+string(runes[col:]))
 
-	result := ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, start)).WithKillRing(killRing)
+	result := ta.WithEdit(newBuffer, model.NewCursor(row, start)).WithKillRing(killRing)
 
 	if handler := ta.GetCursorMovedHandler(); handler != nil {
 		handler(from, model.NewCursorPos(row, start))
@@ -268,7 +268,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 	}
 
 	// Cursor stays where the killed word started.
-	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
+	return ta.WithEdit(newBuffer, model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
@@ -330,7 +330,7 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 	// Move cursor to where deletion started.
 	newCursor := model.NewCursor(row, newCol)
 
-	return ta.WithBuffer(newBuffer).WithCursor(newCursor).WithKillRing(killRing)
+	return ta.WithEdit(newBuffer, newCursor).WithKillRing(killRing)
 }
 
 // Yank inserts text from kill ring (Ctrl+Y).
@@ -377,5 +377,5 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	}
 
 	newCursor := model.NewCursor(row, col)
-	return ta.WithBuffer(buffer).WithCursor(newCursor)
+	return ta.WithEdit(buffer, newCursor)
 }
-- 
2.43.0


From e4776b05c377a01917351612497e0bcfcff85f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 30/57] fix: an input's view is cut by columns and whole
 graphemes, and fits its width

---
 components/input/input.go | 95 +++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 50 deletions(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eef6a5..239c881 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -2,11 +2,14 @@
 package input
 
 import (
+	"strings"
+
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/model"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/service"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Input is the public API for the TextInput component.
@@ -196,70 +199,62 @@ func (i Input) renderPlaceholder() string {
 	return style.Render(placeholderStyle, i.domain.Placeholder())
 }
 
-// renderContent renders the input content with cursor.
-//
-//nolint:gocognit // rendering logic requires multiple conditions
+// renderContent renders the visible part of the content with cursor.
+// The visible part is made of whole graphemes, is at most Width columns wide
+// and contains the cursor.
 func (i Input) renderContent() string {
-	before, at, after := i.domain.ContentParts()
+	width := i.domain.Width()
+	focused := i.domain.Focused()
+	cursorPos := i.domain.CursorPosition()
 
-	// Calculate visible portion based on width.
-	content := before + at + after
+	var cells []string
+	graphemes := uniseg.NewGraphemes(i.domain.Content())
+	for graphemes.Next() {
+		cells = append(cells, graphemes.Str())
+	}
 
-	if len(content) <= i.domain.Width() {
-		// Content fits, render cursor.
-		if i.domain.Focused() {
-			return before + i.renderCursor(at) + after
-		}
-		return content
+	// The end of the content is a cell of its own while the cursor can be there.
+	if focused && cursorPos >= len(cells) {
+		cells = append(cells, "")
 	}
 
-	// Content too long, needs scrolling.
-	// Simple approach: keep cursor in view.
-	cursorPos := i.domain.CursorPosition()
-	width := i.domain.Width()
+	cellWidth := func(n int) int {
+		if cells[n] == "" {
+			return 1
+		}
+		return uniseg.StringWidth(cells[n])
+	}
 
 	// Calculate scroll offset to keep cursor visible.
-	scrollOffset := i.domain.ScrollOffset()
-
-	// Adjust scroll if cursor is out of view.
-	if cursorPos < scrollOffset {
-		scrollOffset = cursorPos
+	start := i.domain.ScrollOffset()
+	if start > cursorPos {
+		start = cursorPos
 	}
-	if cursorPos >= scrollOffset+width {
-		scrollOffset = cursorPos - width + 1
+	used := 0
+	for n := start; n <= cursorPos && n < len(cells); n++ {
+		used += cellWidth(n)
 	}
-
-	// Extract visible portion.
-	// Note: Uses byte offsets for simplicity - works for ASCII and most Unicode.
-	// For complex grapheme clusters (emoji with modifiers), phoenix/core UnicodeService
-	// should be used, but that's a future optimization.
-	visibleStart := scrollOffset
-	visibleEnd := scrollOffset + width
-	if visibleEnd > len(content) {
-		visibleEnd = len(content)
+	for used > width && start < cursorPos && start < len(cells)-1 {
+		used -= cellWidth(start)
+		start++
 	}
 
-	visibleContent := content[visibleStart:visibleEnd]
-
-	// Render cursor if in visible range.
-	//nolint:nestif // rendering logic requires nested conditions for cursor positioning
-	if i.domain.Focused() && cursorPos >= scrollOffset && cursorPos < scrollOffset+width {
-		cursorInVisible := cursorPos - scrollOffset
-		if cursorInVisible <= len(visibleContent) {
-			visibleBefore := visibleContent[:cursorInVisible]
-			visibleAt := ""
-			if cursorInVisible < len(visibleContent) {
-				visibleAt = string(visibleContent[cursorInVisible])
-			}
-			visibleAfter := ""
-			if cursorInVisible+1 < len(visibleContent) {
-				visibleAfter = visibleContent[cursorInVisible+1:]
-			}
-			return visibleBefore + i.renderCursor(visibleAt) + visibleAfter
+	var b strings.Builder
+	used = 0
+	for n := start; n < len(cells); n++ {
+		w := cellWidth(n)
+		if used+w > width && n != cursorPos {
+			break
+		}
+		used += w
+		if focused && n == cursorPos {
+			b.WriteString(i.renderCursor(cells[n]))
+		} else {
+			b.WriteString(cells[n])
 		}
 	}
 
-	return visibleContent
+	return b.String()
 }
 
 // renderCursor renders the cursor at the current position using theme colors.
-- 
2.43.0


From 728cd80b17ed03a2b9db5391f3a5fe192f7451c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 31/57] fix: keys with Ctrl or Alt that have no meaning do not
 type their letter into an input

---
 .../input/internal/input/infrastructure/keybindings.go       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index c6ea532..3bdf643 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -39,6 +39,11 @@ func (kb *DefaultKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) mode
 		}
 	}
 
+	// Other letters with Ctrl or Alt are not text.
+	if msg.Type == tea.KeyRune && (msg.Ctrl || msg.Alt) {
+		return input
+	}
+
 	switch msg.Type {
 	// Navigation.
 	case tea.KeyLeft:
-- 
2.43.0


From 2a1ff918c21ac402370e591693ced452605ab756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:56 +0000
Subject: [PATCH 32/57] fix: the cursor of an input follows the text that was
 typed

---
 components/input/internal/input/domain/model/input.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/input/domain/model/input.go b/components/input/internal/input/domain/model/input.go
index 7c48090..e8af00b 100644
--- a/components/input/internal/input/domain/model/input.go
+++ b/components/input/internal/input/domain/model/input.go
@@ -234,8 +234,9 @@ func (t TextInput) InsertRune(r rune) TextInput {
 	before, at, after := t.cursorMovement.SplitAtCursor(t.content, t.cursor.Offset())
 	t.content = before + string(r) + at + after
 
-	// Move cursor right.
-	t.cursor = t.cursor.MoveBy(1, t.cursorMovement.GraphemeCount(t.content))
+	// Move cursor after the inserted rune (which may have joined the grapheme before it).
+	newPos := t.cursorMovement.GraphemeCount(before + string(r))
+	t.cursor = t.cursor.MoveTo(newPos, t.cursorMovement.GraphemeCount(t.content))
 
 	return t
 }
-- 
2.43.0


From 4bef8c501c1330d5b95a9e83b2f45b420e90db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 33/57] fix: an input's length limits count characters, not
 bytes

---
 .../internal/input/domain/service/validation.go  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/components/input/internal/input/domain/service/validation.go b/components/input/internal/input/domain/service/validation.go
index b89d6c6..6251aac 100644
--- a/components/input/internal/input/domain/service/validation.go
+++ b/components/input/internal/input/domain/service/validation.go
@@ -1,6 +1,10 @@
 package service
 
-import "errors"
+import (
+	"errors"
+
+	"github.com/rivo/uniseg"
+)
 
 // ValidationFunc is a function that validates input content.
 // It returns nil if the content is valid, or an error describing the problem.
@@ -46,20 +50,20 @@ func NotEmpty() ValidationFunc {
 	}
 }
 
-// MinLength returns a validator that ensures content has minimum length.
+// MinLength returns a validator that ensures content has minimum length (in characters).
 func MinLength(minLen int) ValidationFunc {
 	return func(content string) error {
-		if len(content) < minLen {
+		if uniseg.GraphemeClusterCount(content) < minLen {
 			return ErrTooShort
 		}
 		return nil
 	}
 }
 
-// MaxLength returns a validator that ensures content doesn't exceed maximum length.
+// MaxLength returns a validator that ensures content doesn't exceed maximum length (in characters).
 func MaxLength(maxLen int) ValidationFunc {
 	return func(content string) error {
-		if len(content) > maxLen {
+		if uniseg.GraphemeClusterCount(content) > maxLen {
 			return ErrTooLong
 		}
 		return nil
@@ -69,7 +73,7 @@ func MaxLength(maxLen int) ValidationFunc {
 // Range returns a validator that ensures content length is within range.
 func Range(minLen, maxLen int) ValidationFunc {
 	return func(content string) error {
-		length := len(content)
+		length := uniseg.GraphemeClusterCount(content)
 		if length < minLen {
 			return ErrTooShort
 		}
-- 
2.43.0


From 3574eb3a6fcd57d1490ab3a14b8bbf4d3a1a3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:48 +0000
Subject: [PATCH 34/57] fix: a viewport that wraps lines shows as many rows as
 it is high, scrolls to the last one, and stays at the bottom when it follows

---
 .../internal/domain/model/viewport.go         | 72 ++++++++++---------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 91e9379..ca94272 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -14,6 +14,7 @@ import (
 // All operations are immutable - they return new Viewport instances.
 type Viewport struct {
 	content      []string
+	rows         []string // what is scrolled: the content, or its wrapped lines
 	size         *value2.ViewportSize
 	scrollOffset *value2.ScrollOffset
 	followMode   bool
@@ -47,16 +48,7 @@ func (v *Viewport) WithContent(content []string) *Viewport {
 	newV.content = make([]string, len(content))
 	copy(newV.content, content)
 
-	// If follow mode is enabled, scroll to bottom.
-	if newV.followMode {
-		offset := newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height())
-		newV.scrollOffset = value2.NewScrollOffset(offset)
-	} else {
-		// Clamp existing offset to new content bounds.
-		maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), newV.size.Height())
-		newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
-	}
-
+	newV.layout()
 	return newV
 }
 
@@ -65,10 +57,7 @@ func (v *Viewport) WithSize(width, height int) *Viewport {
 	newV := v.clone()
 	newV.size = value2.NewViewportSize(width, height)
 
-	// Clamp scroll offset to new size bounds.
-	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
-	newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
-
+	newV.layout()
 	return newV
 }
 
@@ -78,12 +67,8 @@ func (v *Viewport) WithFollowMode(enabled bool) *Viewport {
 	newV := v.clone()
 	newV.followMode = enabled
 
-	// If enabling follow mode, scroll to bottom immediately.
-	if enabled {
-		offset := newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height())
-		newV.scrollOffset = value2.NewScrollOffset(offset)
-	}
-
+	// If enabling follow mode, this scrolls to bottom immediately.
+	newV.layout()
 	return newV
 }
 
@@ -91,6 +76,7 @@ func (v *Viewport) WithFollowMode(enabled bool) *Viewport {
 func (v *Viewport) WithWrapLines(enabled bool) *Viewport {
 	newV := v.clone()
 	newV.wrapLines = enabled
+	newV.layout()
 	return newV
 }
 
@@ -107,12 +93,12 @@ func (v *Viewport) ScrollUp(lines int) *Viewport {
 // ScrollDown returns a new Viewport scrolled down by the given number of lines.
 func (v *Viewport) ScrollDown(lines int) *Viewport {
 	newV := v.clone()
-	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
 	newOffset := v.scrollSvc.ScrollDown(v.scrollOffset.Offset(), lines, maxOffset)
 	newV.scrollOffset = value2.NewScrollOffset(newOffset)
 
 	// Re-enable follow mode if we've scrolled to the bottom.
-	if newV.scrollSvc.IsAtBottom(newOffset, len(v.content), v.size.Height()) {
+	if newV.scrollSvc.IsAtBottom(newOffset, len(v.rows), v.size.Height()) {
 		newV.followMode = true
 	}
 
@@ -132,7 +118,7 @@ func (v *Viewport) ScrollToTop() *Viewport {
 // Follow mode is enabled.
 func (v *Viewport) ScrollToBottom() *Viewport {
 	newV := v.clone()
-	offset := v.scrollSvc.FollowModeOffset(len(v.content), v.size.Height())
+	offset := v.scrollSvc.FollowModeOffset(len(v.rows), v.size.Height())
 	newV.scrollOffset = value2.NewScrollOffset(offset)
 	newV.followMode = true
 	return newV
@@ -144,7 +130,7 @@ func (v *Viewport) ScrollToBottom() *Viewport {
 // This provides low-level control over viewport position.
 func (v *Viewport) WithScrollOffset(offset int) *Viewport {
 	newV := v.clone()
-	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
 	// Clamp to valid range.
 	if offset < 0 {
 		offset = 0
@@ -170,10 +156,13 @@ func (v *Viewport) PageDown() *Viewport {
 // VisibleLines returns the currently visible lines in the viewport.
 // Lines are truncated or wrapped based on the wrapLines setting.
 func (v *Viewport) VisibleLines() []string {
-	visible := v.scrollSvc.VisibleLines(v.content, v.scrollOffset.Offset(), v.size.Height())
+	visible := v.scrollSvc.VisibleLines(v.rows, v.scrollOffset.Offset(), v.size.Height())
 
 	if v.wrapLines {
-		return v.wrapVisibleLines(visible)
+		if v.size.Width() <= 0 {
+			return []string{}
+		}
+		return append([]string{}, visible...) // rows are wrapped already
 	}
 
 	return v.truncateVisibleLines(visible)
@@ -191,7 +180,7 @@ func (v *Viewport) CanScrollUp() bool {
 
 // CanScrollDown returns true if the viewport can scroll down.
 func (v *Viewport) CanScrollDown() bool {
-	return v.scrollSvc.CanScrollDown(v.scrollOffset.Offset(), len(v.content), v.size.Height())
+	return v.scrollSvc.CanScrollDown(v.scrollOffset.Offset(), len(v.rows), v.size.Height())
 }
 
 // IsAtTop returns true if the viewport is at the top.
@@ -201,7 +190,7 @@ func (v *Viewport) IsAtTop() bool {
 
 // IsAtBottom returns true if the viewport is at the bottom.
 func (v *Viewport) IsAtBottom() bool {
-	return v.scrollSvc.IsAtBottom(v.scrollOffset.Offset(), len(v.content), v.size.Height())
+	return v.scrollSvc.IsAtBottom(v.scrollOffset.Offset(), len(v.rows), v.size.Height())
 }
 
 // TotalLines returns the total number of content lines.
@@ -237,6 +226,7 @@ func (v *Viewport) Content() []string {
 func (v *Viewport) clone() *Viewport {
 	return &Viewport{
 		content:      v.content,
+		rows:         v.rows,
 		size:         v.size,
 		scrollOffset: v.scrollOffset,
 		followMode:   v.followMode,
@@ -245,6 +235,24 @@ func (v *Viewport) clone() *Viewport {
 	}
 }
 
+// layout recomputes the rows that are scrolled and adjusts the scroll offset to them:
+// to the bottom in follow mode, else within bounds.
+// It must only be called on a fresh clone.
+func (v *Viewport) layout() {
+	v.rows = v.content
+	if v.wrapLines && v.size.Width() > 0 {
+		v.rows = v.wrapContent(v.content)
+	}
+
+	if v.followMode {
+		offset := v.scrollSvc.FollowModeOffset(len(v.rows), v.size.Height())
+		v.scrollOffset = value2.NewScrollOffset(offset)
+	} else {
+		maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
+		v.scrollOffset = v.scrollOffset.Clamp(maxOffset)
+	}
+}
+
 // truncateVisibleLines truncates lines that exceed the viewport width.
 func (v *Viewport) truncateVisibleLines(lines []string) []string {
 	if v.size.Width() <= 0 {
@@ -284,13 +292,9 @@ func (v *Viewport) truncateLine(line string, width int) string {
 	return result.String()
 }
 
-// wrapVisibleLines wraps lines that exceed the viewport width.
+// wrapContent wraps lines that exceed the viewport width.
 // This is a simple implementation - each line that's too wide is split.
-func (v *Viewport) wrapVisibleLines(lines []string) []string {
-	if v.size.Width() <= 0 {
-		return []string{}
-	}
-
+func (v *Viewport) wrapContent(lines []string) []string {
 	var result []string
 	for _, line := range lines {
 		wrapped := v.wrapLine(line, v.size.Width())
-- 
2.43.0


From 3247ba3115836f9226f129783c331c877b059158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:14 +0000
Subject: [PATCH 35/57] fix: selected items of a list come in the order of the
 list

---
 components/list/internal/domain/model/list.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..9bb4b30 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"sort"
+
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
 )
@@ -206,10 +208,10 @@ func (l *List) ClearSelection() *List {
 	return newList
 }
 
-// SelectedItems returns the selected items.
+// SelectedItems returns the selected items, in the order of the list.
 func (l *List) SelectedItems() []*value.Item {
 	result := make([]*value.Item, 0, len(l.selectedIndices))
-	for idx := range l.selectedIndices {
+	for _, idx := range l.SelectedIndices() {
 		if idx < len(l.filteredItems) {
 			result = append(result, l.filteredItems[idx])
 		}
@@ -263,12 +265,13 @@ func (l *List) FocusedIndex() int {
 	return l.focusedIndex
 }
 
-// SelectedIndices returns the indices of selected items (in filtered list).
+// SelectedIndices returns the indices of selected items (in filtered list), in order.
 func (l *List) SelectedIndices() []int {
 	result := make([]int, 0, len(l.selectedIndices))
 	for idx := range l.selectedIndices {
 		result = append(result, idx)
 	}
+	sort.Ints(result)
 	return result
 }
 
-- 
2.43.0


From d6af9e8f86346e51db44bd55cb00ea6f3ee564e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:14 +0000
Subject: [PATCH 36/57] fix: a new filter function leaves a list's focus on an
 item

---
 components/list/internal/domain/model/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 9bb4b30..05ef7f9 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -84,6 +84,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
-- 
2.43.0


From 9247754dc0797de5ab21596b36a957442f8c7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:14 +0000
Subject: [PATCH 37/57] fix: a list of negative height is a list of no height,
 and does not panic

---
 components/list/internal/domain/model/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 05ef7f9..74a5da3 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -88,9 +88,12 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	return newList
 }
 
-// WithHeight returns a new List with the specified visible height.
+// WithHeight returns a new List with the specified visible height (at least 0).
 func (l *List) WithHeight(height int) *List {
 	newList := l.clone()
+	if height < 0 {
+		height = 0
+	}
 	newList.height = height
 	newList.updateScrollOffset()
 	return newList
-- 
2.43.0


From fbfb501cd346464beb1f2395f0684f18dc206622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:14 +0000
Subject: [PATCH 38/57] fix: typing into a list's filter adds to its query, and
 Backspace removes the last character

---
 components/list/internal/domain/model/list.go |  5 +++++
 components/list/list.go                       | 10 +++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 74a5da3..007d401 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -264,6 +264,11 @@ func (l *List) IsFiltered() bool {
 	return l.filterQuery != ""
 }
 
+// FilterQuery returns the current filter query.
+func (l *List) FilterQuery() string {
+	return l.filterQuery
+}
+
 // FocusedIndex returns the currently focused index (in filtered list).
 func (l *List) FocusedIndex() int {
 	return l.focusedIndex
diff --git a/components/list/list.go b/components/list/list.go
index 401896b..f8da15f 100644
--- a/components/list/list.go
+++ b/components/list/list.go
@@ -235,13 +235,13 @@ func (l *List) handleKey(msg tea.KeyMsg) (*List, tea.Cmd) {
 		return newList, tea.Quit()
 	default:
 		// If no action matched, check if it's a printable character for filtering.
-		if newList.showFilter && msg.Type == tea.KeyRune {
+		query := []rune(newList.domain.FilterQuery())
+		if newList.showFilter && msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 			// Add character to filter query.
-			currentQuery := string(msg.Rune)
-			newList.domain = newList.domain.SetFilterQuery(currentQuery)
-		} else if newList.showFilter && msg.Type == tea.KeyBackspace {
+			newList.domain = newList.domain.SetFilterQuery(string(append(query, msg.Rune)))
+		} else if newList.showFilter && msg.Type == tea.KeyBackspace && len(query) > 0 {
 			// Remove last character from filter query.
-			newList.domain = newList.domain.ClearFilter()
+			newList.domain = newList.domain.SetFilterQuery(string(query[:len(query)-1]))
 		}
 	}
 
-- 
2.43.0


From 8da4cd3419678a02ed9e1e7402a1a60e2683fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:02 +0000
Subject: [PATCH 39/57] fix: Backspace removes the last character of a filter,
 not its last byte

---
 components/multiselect/multiselect.go | 6 ++----
 components/select/select.go           | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 70a1258..fe270fa 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -268,10 +268,8 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	}
 
 	if msg.Type == tea.KeyBackspace {
-		currentQuery := m.domain.FilterQuery()
-		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
-			newM.domain = newM.domain.SetFilterQuery(newQuery)
+		if query := []rune(m.domain.FilterQuery()); len(query) > 0 {
+			newM.domain = newM.domain.SetFilterQuery(string(query[:len(query)-1]))
 		}
 		return newM
 	}
diff --git a/components/select/select.go b/components/select/select.go
index 565732e..40f0d69 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -188,10 +188,8 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	}
 
 	if msg.Type == tea.KeyBackspace {
-		currentQuery := s.domain.FilterQuery()
-		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
-			newS.domain = newS.domain.SetFilterQuery(newQuery)
+		if query := []rune(s.domain.FilterQuery()); len(query) > 0 {
+			newS.domain = newS.domain.SetFilterQuery(string(query[:len(query)-1]))
 		}
 		return newS
 	}
-- 
2.43.0


From f1c206de4a9ff3f3a22f58ca3f452e033b5244b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:02 +0000
Subject: [PATCH 40/57] fix: Ctrl and Alt letters do not act as plain letters
 in selects

---
 components/multiselect/internal/infrastructure/keyboard.go | 2 +-
 components/multiselect/multiselect.go                      | 2 +-
 components/select/internal/infrastructure/keyboard.go      | 2 +-
 components/select/select.go                                | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/components/multiselect/internal/infrastructure/keyboard.go b/components/multiselect/internal/infrastructure/keyboard.go
index 73b537b..57565e9 100644
--- a/components/multiselect/internal/infrastructure/keyboard.go
+++ b/components/multiselect/internal/infrastructure/keyboard.go
@@ -61,7 +61,7 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	}
 
 	// Check rune-based bindings
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index fe270fa..ecf0b2e 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -254,7 +254,7 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 		return newM
 	}
 
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		// Skip if it's a bound rune (a, n, j, k, g, G)
 		action := m.keymap.GetAction(msg)
 		if action != infrastructure.ActionNone {
diff --git a/components/select/internal/infrastructure/keyboard.go b/components/select/internal/infrastructure/keyboard.go
index eb4e94f..cca15b3 100644
--- a/components/select/internal/infrastructure/keyboard.go
+++ b/components/select/internal/infrastructure/keyboard.go
@@ -55,7 +55,7 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	}
 
 	// Check rune-based bindings
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/select/select.go b/components/select/select.go
index 40f0d69..cba7046 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -180,7 +180,7 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 		return newS
 	}
 
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		currentQuery := s.domain.FilterQuery()
 		newQuery := currentQuery + string(msg.Rune)
 		newS.domain = newS.domain.SetFilterQuery(newQuery)
-- 
2.43.0


From 884dab7d2469ce27a37352c58b2ed6aefe53ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:19 +0000
Subject: [PATCH 41/57] fix: a select filters by a new filter function at once,
 and not by an empty query

---
 .../multiselect/internal/domain/model/multiselect.go      | 8 ++++++--
 components/select/internal/domain/model/select.go         | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0d8ef32..a8565b5 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -64,7 +64,7 @@ func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 
 // WithFilterFunc returns a new MultiSelect with the specified filter function.
 func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
-	return &MultiSelect[T]{
+	newM := &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
 		selection:    m.selection,
@@ -75,6 +75,10 @@ func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
 		filterFunc:   fn,
 		renderFunc:   m.renderFunc,
 	}
+	if m.IsFiltered() {
+		return newM.SetFilterQuery(m.filterQuery)
+	}
+	return newM
 }
 
 // WithRenderFunc returns a new MultiSelect with the specified render function.
@@ -188,7 +192,7 @@ func (m *MultiSelect[T]) SetFilterQuery(query string) *MultiSelect[T] {
 	// Filter options based on query
 	filtered := make([]*value.Option[T], 0)
 	for _, opt := range m.options {
-		if m.filterFunc(opt, query) {
+		if query == "" || m.filterFunc(opt, query) {
 			filtered = append(filtered, opt)
 		}
 	}
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index e7e4800..762352e 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -64,7 +64,7 @@ func (s *Select[T]) WithHeight(height int) *Select[T] {
 
 // WithFilterFunc returns a new Select with the specified filter function.
 func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
-	return &Select[T]{
+	newS := &Select[T]{
 		options:       s.options,
 		cursor:        s.cursor,
 		selectedIndex: s.selectedIndex,
@@ -75,6 +75,10 @@ func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
 		filterFunc:    fn,
 		renderFunc:    s.renderFunc,
 	}
+	if s.IsFiltered() {
+		return newS.SetFilterQuery(s.filterQuery)
+	}
+	return newS
 }
 
 // WithRenderFunc returns a new Select with the specified render function.
@@ -144,7 +148,7 @@ func (s *Select[T]) SetFilterQuery(query string) *Select[T] {
 	// Filter options based on query
 	filtered := make([]*value.Option[T], 0)
 	for _, opt := range s.options {
-		if s.filterFunc(opt, query) {
+		if query == "" || s.filterFunc(opt, query) {
 			filtered = append(filtered, opt)
 		}
 	}
-- 
2.43.0


From 6700b3fcba4d5a744fe3c55dd0565c0e1a5084d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:19 +0000
Subject: [PATCH 42/57] fix: setting the options of a select keeps its height
 and functions, and copies them

---
 .../multiselect/internal/domain/model/multiselect.go  | 11 +++++++++++
 components/multiselect/multiselect.go                 |  2 +-
 components/select/internal/domain/model/select.go     | 10 ++++++++++
 components/select/select.go                           |  2 +-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index a8565b5..66e08ea 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -44,6 +44,17 @@ func New[T any](options []*value.Option[T], minCount, maxCount int) *MultiSelect
 	}
 }
 
+// WithOptions returns a new MultiSelect with other options, nothing of them selected,
+// and the same settings.
+func (m *MultiSelect[T]) WithOptions(options []*value.Option[T]) *MultiSelect[T] {
+	newM := New(append([]*value.Option[T]{}, options...), 0, 0)
+	newM.selection = m.selection.Clear()
+	newM.height = m.height
+	newM.filterFunc = m.filterFunc
+	newM.renderFunc = m.renderFunc
+	return newM
+}
+
 // WithHeight returns a new MultiSelect with the specified visible height.
 func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 	if height < 1 {
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index ecf0b2e..9b23f3b 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -75,7 +75,7 @@ func New[T any](title string) *MultiSelect[T] {
 func (m *MultiSelect[T]) Options(options ...*value.Option[T]) *MultiSelect[T] {
 	return &MultiSelect[T]{
 		title:      m.title,
-		domain:     model.New(options, m.min, m.max),
+		domain:     m.domain.WithOptions(options),
 		keymap:     m.keymap,
 		filterable: m.filterable,
 		min:        m.min,
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 762352e..06a734a 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -44,6 +44,16 @@ func New[T any](options []*value.Option[T]) *Select[T] {
 	}
 }
 
+// WithOptions returns a new Select with other options, nothing of them selected,
+// and the same settings.
+func (s *Select[T]) WithOptions(options []*value.Option[T]) *Select[T] {
+	newS := New(append([]*value.Option[T]{}, options...))
+	newS.height = s.height
+	newS.filterFunc = s.filterFunc
+	newS.renderFunc = s.renderFunc
+	return newS
+}
+
 // WithHeight returns a new Select with the specified visible height.
 func (s *Select[T]) WithHeight(height int) *Select[T] {
 	if height < 1 {
diff --git a/components/select/select.go b/components/select/select.go
index cba7046..6bdc5eb 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -64,7 +64,7 @@ func New[T any](title string) *Select[T] {
 func (s *Select[T]) Options(options ...*value.Option[T]) *Select[T] {
 	return &Select[T]{
 		title:      s.title,
-		domain:     model.New(options),
+		domain:     s.domain.WithOptions(options),
 		keymap:     s.keymap,
 		filterable: s.filterable,
 	}
-- 
2.43.0


From f9537ad41657256550642779e8a0ace3663ffa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 43/57] fix: disabled options of a select cannot be selected

---
 .../multiselect/internal/domain/model/multiselect.go      | 8 ++++----
 components/select/internal/domain/model/select.go         | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 66e08ea..0cbaefb 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -155,13 +155,13 @@ func (m *MultiSelect[T]) MoveToEnd() *MultiSelect[T] {
 	return m.withCursor(maxIndex)
 }
 
-// Toggle toggles the selection of the currently focused option.
+// Toggle toggles the selection of the currently focused option, unless it is disabled.
 func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
 	if m.cursor >= 0 && m.cursor < len(m.filteredOpts) {
 		// Find the original index in options array
 		focusedOpt := m.filteredOpts[m.cursor]
 		for i, opt := range m.options {
-			if opt == focusedOpt {
+			if opt == focusedOpt && !opt.Disabled() {
 				return m.withSelection(m.selection.Toggle(i))
 			}
 		}
@@ -169,13 +169,13 @@ func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
 	return m
 }
 
-// SelectAll selects all filtered options (respecting max constraint).
+// SelectAll selects all filtered options that are not disabled (respecting max constraint).
 func (m *MultiSelect[T]) SelectAll() *MultiSelect[T] {
 	// Build list of indices for filtered options
 	indices := make([]int, 0, len(m.filteredOpts))
 	for _, filteredOpt := range m.filteredOpts {
 		for i, opt := range m.options {
-			if opt == filteredOpt {
+			if opt == filteredOpt && !opt.Disabled() {
 				indices = append(indices, i)
 				break
 			}
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 06a734a..c4b3d91 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -139,13 +139,13 @@ func (s *Select[T]) MoveToEnd() *Select[T] {
 	return s.withCursor(maxIndex)
 }
 
-// Select marks the currently focused option as selected.
+// Select marks the currently focused option as selected, unless it is disabled.
 func (s *Select[T]) Select() *Select[T] {
 	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) {
 		// Find the original index in options array
 		selectedOpt := s.filteredOpts[s.cursor]
 		for i, opt := range s.options {
-			if opt == selectedOpt {
+			if opt == selectedOpt && !opt.Disabled() {
 				return s.withSelectedIndex(i)
 			}
 		}
-- 
2.43.0


From 6c6913c578438deec1f735622d34db8db801fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 44/57] fix: preselected indices without an option do not count
 as selected

---
 .../multiselect/internal/domain/model/multiselect.go     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0cbaefb..f9c7417 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -108,11 +108,18 @@ func (m *MultiSelect[T]) WithRenderFunc(fn RenderFunc[T]) *MultiSelect[T] {
 }
 
 // WithSelected returns a new MultiSelect with the specified indices pre-selected.
+// Indices of no option are ignored.
 func (m *MultiSelect[T]) WithSelected(indices ...int) *MultiSelect[T] {
+	valid := make([]int, 0, len(indices))
+	for _, idx := range indices {
+		if idx >= 0 && idx < len(m.options) {
+			valid = append(valid, idx)
+		}
+	}
 	return &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
-		selection:    m.selection.WithSelected(indices...),
+		selection:    m.selection.WithSelected(valid...),
 		filterQuery:  m.filterQuery,
 		filteredOpts: m.filteredOpts,
 		height:       m.height,
-- 
2.43.0


From 6cf768ed8b887922fb55d6af5bf81ca452c6155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 45/57] fix: the Space key types a space into a select's filter

---
 components/select/select.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/select/select.go b/components/select/select.go
index 6bdc5eb..4048529 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -180,6 +180,11 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 		return newS
 	}
 
+	if msg.Type == tea.KeySpace {
+		newS.domain = newS.domain.SetFilterQuery(s.domain.FilterQuery() + " ")
+		return newS
+	}
+
 	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		currentQuery := s.domain.FilterQuery()
 		newQuery := currentQuery + string(msg.Rune)
-- 
2.43.0


From 9da5a2f0c7b3f1b8ca8412e313e7f91ae4ac5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:43 +0000
Subject: [PATCH 46/57] fix: a table's selected row stays visible when its
 height or header changes

---
 .../table/internal/domain/model/table.go      | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..6787ec0 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -68,7 +68,7 @@ func (t *Table) WithRows(rows []Row) *Table {
 
 // WithHeight returns a new table with the specified visible height.
 func (t *Table) WithHeight(height int) *Table {
-	return &Table{
+	resized := &Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -79,11 +79,13 @@ func (t *Table) WithHeight(height int) *Table {
 		height:        height,
 		showHeader:    t.showHeader,
 	}
+	resized.scrollToSelection()
+	return resized
 }
 
 // WithShowHeader returns a new table with header visibility set.
 func (t *Table) WithShowHeader(show bool) *Table {
-	return &Table{
+	resized := &Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -94,6 +96,8 @@ func (t *Table) WithShowHeader(show bool) *Table {
 		height:        t.height,
 		showHeader:    show,
 	}
+	resized.scrollToSelection()
+	return resized
 }
 
 // SortBy returns a new table sorted by the specified column and direction.
@@ -165,10 +169,7 @@ func (t *Table) MoveDown() *Table {
 	newOffset := t.scrollOffset
 
 	// Scroll down if needed.
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows-- // Header takes one row
-	}
+	visibleRows := t.visibleRowCount()
 	if newIndex >= t.scrollOffset+visibleRows {
 		newOffset = newIndex - visibleRows + 1
 	}
@@ -208,10 +209,7 @@ func (t *Table) MoveToEnd() *Table {
 		maxIndex = 0
 	}
 
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.visibleRowCount()
 
 	newOffset := maxIndex - visibleRows + 1
 	if newOffset < 0 {
@@ -231,6 +229,27 @@ func (t *Table) MoveToEnd() *Table {
 	}
 }
 
+// visibleRowCount returns how many data rows fit in the table's height, which is
+// at most all of them.
+func (t *Table) visibleRowCount() int {
+	count := max(t.height, 0)
+	if t.showHeader && count > 0 {
+		count-- // Header takes one row
+	}
+	return min(count, len(t.effectiveRows()))
+}
+
+// scrollToSelection moves the scroll offset of a table under construction as
+// little as needed for the selected row to be one of the visible rows.
+func (t *Table) scrollToSelection() {
+	if t.selectedIndex >= t.scrollOffset+t.visibleRowCount() {
+		t.scrollOffset = t.selectedIndex - t.visibleRowCount() + 1
+	}
+	if t.selectedIndex < t.scrollOffset {
+		t.scrollOffset = t.selectedIndex
+	}
+}
+
 // effectiveRows returns the rows to display (sorted if sorting is active).
 func (t *Table) effectiveRows() []Row {
 	if t.sortedRows != nil {
@@ -266,10 +285,7 @@ func (t *Table) Rows() []Row {
 // VisibleRows returns the rows currently visible in the viewport.
 func (t *Table) VisibleRows() []Row {
 	rows := t.effectiveRows()
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.visibleRowCount()
 
 	start := t.scrollOffset
 	end := start + visibleRows
-- 
2.43.0


From 06a4e5e222acfd237c240ee8dc28016f0723a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:59 +0000
Subject: [PATCH 47/57] fix: table cells are cut, padded and marked by terminal
 columns, not bytes

---
 components/table/table.go | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/components/table/table.go b/components/table/table.go
index b496527..dee4811 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -21,6 +21,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/table/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Column defines a table column.
@@ -291,7 +292,7 @@ func (t *Table) View() string {
 			// Add selection indicator.
 			if isSelected && colIdx == 0 {
 				if cell != "" {
-					cell = ">" + cell[1:]
+					cell = markSelected(cell)
 				}
 			}
 
@@ -307,19 +308,48 @@ func (t *Table) View() string {
 	return b.String()
 }
 
+// truncateToWidth returns the longest prefix of whole characters of text that
+// takes at most width terminal columns.
+func truncateToWidth(text string, width int) string {
+	used, end, state := 0, 0, -1
+	for rest := text; rest != ""; {
+		var cluster string
+		var columns int
+		cluster, rest, columns, state = uniseg.FirstGraphemeClusterInString(rest, state)
+		if used+columns > width {
+			break
+		}
+		used += columns
+		end += len(cluster)
+	}
+	return text[:end]
+}
+
+// markSelected puts the selection indicator in place of the first character of
+// the cell, whose width in terminal columns stays the same.
+func markSelected(cell string) string {
+	rest, columns, state := cell, 0, -1
+	for columns == 0 && rest != "" {
+		_, rest, columns, state = uniseg.FirstGraphemeClusterInString(rest, state)
+	}
+	if columns == 0 {
+		return cell
+	}
+	return ">" + strings.Repeat(" ", columns-1) + rest
+}
+
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(text string, width int, alignment value2.Alignment) string {
 	// Truncate if too long.
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			text = text[:width-3] + "..."
+			text = truncateToWidth(text, width-3) + "..."
 		} else {
-			text = text[:width]
+			text = truncateToWidth(text, width)
 		}
 	}
 
-	// Pad based on alignment.
-	padding := width - len(text)
+	padding := width - uniseg.StringWidth(text)
 	if padding <= 0 {
 		return text
 	}
-- 
2.43.0


From e74f4183ff8c3ba43e291450289c91a32e78fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:00 +0000
Subject: [PATCH 48/57] fix: a table keeps its theme through navigation,
 sorting and new rows

---
 components/table/table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/table/table.go b/components/table/table.go
index dee4811..b394e58 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -125,6 +125,7 @@ func (t *Table) SetRows(rows []Row) *Table {
 		domain:      t.domain.WithRows(domainRows),
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -134,6 +135,7 @@ func (t *Table) KeyBindings(kb infrastructure.KeyBindings) *Table {
 		domain:      t.domain,
 		sortService: t.sortService,
 		keyBindings: kb,
+		theme:       t.theme,
 	}
 }
 
@@ -181,6 +183,7 @@ func (t *Table) handleKeyPress(msg tea.KeyMsg) *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -198,6 +201,7 @@ func (t *Table) pageUp() *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -216,6 +220,7 @@ func (t *Table) pageDown() *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -418,6 +423,7 @@ func (t *Table) SortByColumn(columnKey string) *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -427,5 +433,6 @@ func (t *Table) ClearSort() *Table {
 		domain:      t.domain.ClearSort(),
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
-- 
2.43.0


From 43e750022df3fdfc77f49f5c594248e1fab1f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:00 +0000
Subject: [PATCH 49/57] fix: a table column of negative width is a column of no
 width, and does not panic

---
 components/table/internal/domain/model/column.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/table/internal/domain/model/column.go b/components/table/internal/domain/model/column.go
index cc932b2..0aba5e4 100644
--- a/components/table/internal/domain/model/column.go
+++ b/components/table/internal/domain/model/column.go
@@ -21,7 +21,7 @@ func NewColumn(key, title string, width int) *Column {
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: value.AlignmentLeft,
 		sortable:  false,
 		renderer:  nil,
@@ -33,7 +33,7 @@ func NewColumnWithAlignment(key, title string, width int, alignment value.Alignm
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: alignment,
 		sortable:  false,
 		renderer:  nil,
@@ -45,7 +45,7 @@ func (c *Column) WithWidth(width int) *Column {
 	return &Column{
 		key:       c.key,
 		title:     c.title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: c.alignment,
 		sortable:  c.sortable,
 		renderer:  c.renderer,
-- 
2.43.0


From c570a124155416f6ce52a7335e1c124e3fdafe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 50/57] fix: the shortcut of a confirm button is the first
 letter of its label, not its first byte

---
 .../confirm/internal/domain/value/button.go     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..a853ea2 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,11 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import (
+	"unicode"
+	"unicode/utf8"
+)
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +18,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
@@ -33,16 +38,16 @@ func (b *Button) Key() rune {
 
 // MatchesKey returns true if the given rune matches this button's key (case-insensitive).
 func (b *Button) MatchesKey(r rune) bool {
+	if b.label == "" {
+		return false // No letter, no shortcut
+	}
 	// Case-insensitive comparison
 	keyLower := toLower(b.key)
 	rLower := toLower(r)
 	return keyLower == rLower
 }
 
-// toLower converts a rune to lowercase (simple ASCII conversion).
+// toLower converts a rune to lowercase.
 func toLower(r rune) rune {
-	if r >= 'A' && r <= 'Z' {
-		return r + 32
-	}
-	return r
+	return unicode.ToLower(r)
 }
-- 
2.43.0


From b8bf401d1ee649ecfce8ae0b8e92c7a124cb7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 51/57] fix: Ctrl and Alt letters do not answer a confirm
 dialog

---
 components/confirm/internal/infrastructure/keyboard.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/confirm/internal/infrastructure/keyboard.go b/components/confirm/internal/infrastructure/keyboard.go
index 79915f8..50b75ca 100644
--- a/components/confirm/internal/infrastructure/keyboard.go
+++ b/components/confirm/internal/infrastructure/keyboard.go
@@ -51,7 +51,10 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	case tea.KeyEsc, tea.KeyCtrlC:
 		return ActionCancel
 	case tea.KeyRune:
-		// Any rune is a potential shortcut key
+		// Any rune is a potential shortcut key, but not with Ctrl or Alt
+		if msg.Ctrl || msg.Alt {
+			return ActionNone
+		}
 		return ActionShortcut
 	}
 	return ActionNone
-- 
2.43.0


From 62018396b75c6d511f03fc48225cf5e85e69904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 52/57] fix: DefaultNo focuses the negative button of a confirm
 dialog with Cancel, not Cancel

---
 components/confirm/internal/domain/model/confirm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/confirm/internal/domain/model/confirm.go b/components/confirm/internal/domain/model/confirm.go
index 2ffd5da..24953eb 100644
--- a/components/confirm/internal/domain/model/confirm.go
+++ b/components/confirm/internal/domain/model/confirm.go
@@ -97,8 +97,8 @@ func (c *Confirm) WithDefaultNo() *Confirm {
 			return c.withFocusedButton(i)
 		}
 	}
-	// Fallback to last button if "No" not found
-	return c.withFocusedButton(len(c.buttons) - 1)
+	// The negative button is the second one, if it has another label
+	return c.withFocusedButton(min(1, len(c.buttons)-1))
 }
 
 // MoveFocusLeft moves focus to the previous button.
-- 
2.43.0


From 05660567c6f7fe1a576d0f024525aafed90b1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 53/57] fix: a huge change of progress does not overflow

---
 components/progress/internal/domain/value/percentage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/progress/internal/domain/value/percentage.go b/components/progress/internal/domain/value/percentage.go
index 20a1cd8..effda60 100644
--- a/components/progress/internal/domain/value/percentage.go
+++ b/components/progress/internal/domain/value/percentage.go
@@ -23,13 +23,13 @@ func (p *Percentage) Value() int {
 // Add returns a new Percentage with the delta added.
 // The result is clamped to [0, 100].
 func (p *Percentage) Add(delta int) *Percentage {
-	return NewPercentage(p.value + delta)
+	return NewPercentage(p.value + clamp(delta, -100, 100))
 }
 
 // Subtract returns a new Percentage with the delta subtracted.
 // The result is clamped to [0, 100].
 func (p *Percentage) Subtract(delta int) *Percentage {
-	return NewPercentage(p.value - delta)
+	return NewPercentage(p.value - clamp(delta, -100, 100))
 }
 
 // IsComplete returns true if the percentage is 100%.
-- 
2.43.0


From 50b19e4578de0349fd9798d0914c891de1b35782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 54/57] fix: a custom spinner has the frames and the speed it
 is given

---
 components/progress/spinner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/components/progress/spinner.go b/components/progress/spinner.go
index 7233184..abf88ba 100644
--- a/components/progress/spinner.go
+++ b/components/progress/spinner.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
@@ -37,11 +38,9 @@ func NewSpinner(style string) *Spinner {
 
 // NewSpinnerCustom creates a new spinner with custom frames and FPS.
 // Returns pointer for initialization, but store as value in Model.
-//
-//nolint:revive // frames parameter will be used when custom spinner support is added
-func NewSpinnerCustom(_ []string, fps int) *Spinner {
+func NewSpinnerCustom(frames []string, fps int) *Spinner {
 	return &Spinner{
-		domain: *model.NewSpinner(infrastructure.GetSpinnerStyle("dots")), // Dereference!
+		domain: *model.NewSpinner(value.NewSpinnerStyle(frames, fps)), // Dereference!
 	}
 }
 
-- 
2.43.0


From 42945c198f1f633da65b19df7ac9ece56e5b6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:35 +0000
Subject: [PATCH 55/57] fix: a modal's box has its height, its sides and its
 content

---
 components/modal/modal.go | 86 +++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 2824674..b9f5ae8 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -25,6 +25,12 @@ import (
 	tea "github.com/phoenix-tui/phoenix/tea"
 )
 
+// The smallest box: borders and the spaces beside them, and no room for text.
+const (
+	minBoxWidth  = 4
+	minBoxHeight = 2
+)
+
 // Button defines a modal action button.
 //
 // Zero value: Button with zero value (empty strings) is valid but not useful.
@@ -326,7 +332,9 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 				b.WriteString("░") // Dim character for background
 			}
 		}
-		b.WriteString("\n")
+		if row < m.terminalHeight-1 {
+			b.WriteString("\n")
+		}
 	}
 
 	return b.String()
@@ -334,57 +342,47 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 
 // renderModalBox renders the modal box at the specified position.
 func (m *Modal) renderModalBox(x, y, width, height int) string {
-	var b strings.Builder
-
-	// Position cursor at modal location.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+1, x+1)) // ANSI cursor positioning (1-indexed)
-
-	// Top border.
-	b.WriteString("┌" + strings.Repeat("─", width-2) + "┐\n")
-
-	// Title row (if title exists)
-	if m.domain.Title() != "" {
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+2, x+1))
-		b.WriteString("│ " + m.padOrTruncate(m.domain.Title(), width-4) + " │\n")
-
-		// Title separator.
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+3, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
+	width = max(width, minBoxWidth)
+	height = max(height, minBoxHeight)
+
+	// The sections between the borders: a title, the content, and buttons, as
+	// far as there is room for them.
+	room := height - 2
+	hasTitle := m.domain.Title() != "" && room >= 2
+	if hasTitle {
+		room -= 2
 	}
-
-	// Content area.
-	contentStartY := y + 2
-	if m.domain.Title() != "" {
-		contentStartY = y + 4
+	hasButtons := len(m.domain.Buttons()) > 0 && room >= 2
+	if hasButtons {
+		room -= 2
 	}
 
+	separator := "├" + strings.Repeat("─", width-2) + "┤"
+	rows := make([]string, 0, height)
+	rows = append(rows, "┌"+strings.Repeat("─", width-2)+"┐")
+	if hasTitle {
+		rows = append(rows, "│ "+m.padOrTruncate(m.domain.Title(), width-4)+" │", separator)
+	}
 	contentLines := strings.Split(m.domain.Content(), "\n")
-	contentHeight := height - 4 // Reserve space for borders and buttons
-	if m.domain.Title() != "" {
-		contentHeight -= 2 // Reserve space for title and separator
+	for i := 0; i < room; i++ {
+		line := ""
+		if i < len(contentLines) {
+			line = contentLines[i]
+		}
+		rows = append(rows, "│ "+m.padOrTruncate(line, width-4)+" │")
 	}
-
-	for i := 0; i < contentHeight && i < len(contentLines); i++ {
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", contentStartY+i, x+1))
-		b.WriteString("│ " + m.padOrTruncate(contentLines[i], width-4) + " │\n")
+	if hasButtons {
+		rows = append(rows, separator, "│ "+m.renderButtons(width-4)+" │")
 	}
+	rows = append(rows, "└"+strings.Repeat("─", width-2)+"┘")
 
-	// Buttons (if any)
-	if len(m.domain.Buttons()) > 0 {
-		buttonY := y + height - 3
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
-
-		buttonY++
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("│ " + m.renderButtons(width-4) + " │\n")
+	// Position every row with ANSI cursor positioning (1-indexed). There is no
+	// line break after the last one, which would scroll at the bottom of the
+	// terminal.
+	for i, row := range rows {
+		rows[i] = fmt.Sprintf("\x1b[%d;%dH", y+1+i, x+1) + row
 	}
-
-	// Bottom border.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height-1, x+1))
-	b.WriteString("└" + strings.Repeat("─", width-2) + "┘\n")
-
-	return b.String()
+	return strings.Join(rows, "\n")
 }
 
 // renderButtons renders the button row.
-- 
2.43.0


From 3bf425432c3e1917531b50198757148ff9e930ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:36 +0000
Subject: [PATCH 56/57] fix: a modal's text is cut and padded by terminal
 columns, not bytes

---
 components/modal/modal.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index b9f5ae8..aa5d6b1 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -23,6 +23,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/modal/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // The smallest box: borders and the spaces beside them, and no room for text.
@@ -410,15 +411,34 @@ func (m *Modal) renderButtons(availableWidth int) string {
 	return m.padOrTruncate(result, availableWidth)
 }
 
-// padOrTruncate pads or truncates a string to the specified width.
+// padOrTruncate pads or truncates a string to the specified width in terminal
+// columns.
 func (m *Modal) padOrTruncate(text string, width int) string {
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			return text[:width-3] + "..."
+			text = truncateToWidth(text, width-3) + "..."
+		} else {
+			text = truncateToWidth(text, width)
 		}
-		return text[:width]
 	}
-	return text + strings.Repeat(" ", width-len(text))
+	return text + strings.Repeat(" ", width-uniseg.StringWidth(text))
+}
+
+// truncateToWidth returns the longest prefix of whole characters of text that
+// takes at most width terminal columns.
+func truncateToWidth(text string, width int) string {
+	used, end, state := 0, 0, -1
+	for rest := text; rest != ""; {
+		var cluster string
+		var columns int
+		cluster, rest, columns, state = uniseg.FirstGraphemeClusterInString(rest, state)
+		if used+columns > width {
+			break
+		}
+		used += columns
+		end += len(cluster)
+	}
+	return text[:end]
 }
 
 // IsVisible returns true if the modal is currently visible.
-- 
2.43.0


From 87910d0f7180292ff95f59e78f610609ebd4c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 57/57] fix: a hidden modal learns of the terminal's size

---
 components/modal/modal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index aa5d6b1..cee0260 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -206,14 +206,9 @@ func (m *Modal) Init() tea.Cmd {
 
 // Update implements tea.Model.
 func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
-	// If modal is not visible, don't process any input.
-	if !m.domain.IsVisible() {
-		return m, nil
-	}
-
 	switch msg := msg.(type) {
 	case tea.WindowSizeMsg:
-		// Update terminal size for rendering.
+		// Update terminal size for rendering, now or when shown.
 		return &Modal{
 			domain:         m.domain,
 			layoutService:  m.layoutService,
@@ -224,6 +219,10 @@ func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
 		}, nil
 
 	case tea.KeyMsg:
+		// If modal is not visible, don't process any input.
+		if !m.domain.IsVisible() {
+			return m, nil
+		}
 		return m.handleKeyPress(msg)
 	}
 
-- 
2.43.0

