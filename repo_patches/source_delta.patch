From 77652889f45c782f87f6d6676742fd25d1a354d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 01/68] fix: keep the last line visible when a following
 viewport is resized

---
 components/viewport/internal/domain/model/viewport.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 91e9379..838ae10 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -65,8 +65,15 @@ func (v *Viewport) WithSize(width, height int) *Viewport {
 	newV := v.clone()
 	newV.size = value2.NewViewportSize(width, height)
 
+	// In follow mode the last line stays visible when the viewport shrinks.
+	if newV.followMode {
+		offset := newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height())
+		newV.scrollOffset = value2.NewScrollOffset(offset)
+		return newV
+	}
+
 	// Clamp scroll offset to new size bounds.
-	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
+	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), newV.size.Height())
 	newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
 
 	return newV
-- 
2.43.0


From e2ab1437ee3927d9c5ddf7bcaa754289aa3a75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 02/68] fix: switch off the previous style before applying
 another, clearing or closing

---
 render/internal/infrastructure/ansi/writer.go | 55 +++++++++++++------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..98ce114 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -76,11 +76,20 @@ func (w *Writer) SetStyle(style value2.Style) error {
 		return nil // Style already set
 	}
 
-	// Write style sequence.
-	ansi := style.ToANSI()
-	if ansi != "" {
-		_, err := w.buf.WriteString(ansi)
-		if err != nil {
+	return w.writeStyle(style)
+}
+
+// writeStyle switches from the current style to the given one.
+// Attributes and colors of the current style that the new one does not have
+// must be switched off first, because style sequences only add attributes.
+func (w *Writer) writeStyle(style value2.Style) error {
+	if !w.currentStyle.IsEmpty() {
+		if _, err := w.buf.WriteString(Reset); err != nil {
+			return err
+		}
+	}
+	if ansi := style.ToANSI(); ansi != "" {
+		if _, err := w.buf.WriteString(ansi); err != nil {
 			return err
 		}
 	}
@@ -89,6 +98,15 @@ func (w *Writer) SetStyle(style value2.Style) error {
 	return nil
 }
 
+// writeDefaultStyle switches to the default style if another one is active
+// (terminals erase with the current background color).
+func (w *Writer) writeDefaultStyle() error {
+	if w.currentStyle.IsEmpty() {
+		return nil
+	}
+	return w.writeStyle(value2.NewStyle())
+}
+
 // WriteCell writes a single cell at current position.
 func (w *Writer) WriteCell(cell model.Cell) error {
 	w.mu.Lock()
@@ -96,13 +114,9 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 
 	// Set style if different.
 	if !cell.Style().Equals(w.currentStyle) {
-		ansi := cell.Style().ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
+		if err := w.writeStyle(cell.Style()); err != nil {
+			return err
 		}
-		w.currentStyle = cell.Style()
 	}
 
 	// Write character.
@@ -130,13 +144,9 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 
 	// Set style.
 	if !style.Equals(w.currentStyle) {
-		ansi := style.ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
+		if err := w.writeStyle(style); err != nil {
+			return err
 		}
-		w.currentStyle = style
 	}
 
 	// Write text.
@@ -163,6 +173,9 @@ func (w *Writer) Clear() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	if err := w.writeDefaultStyle(); err != nil {
+		return err
+	}
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
@@ -172,6 +185,9 @@ func (w *Writer) ClearLine() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	if err := w.writeDefaultStyle(); err != nil {
+		return err
+	}
 	_, err := w.buf.WriteString(ClearLine)
 	return err
 }
@@ -267,7 +283,10 @@ func (w *Writer) SetPosition(x, y int) {
 	w.currentY = y
 }
 
-// Close flushes and closes the writer.
+// Close switches back to the default style, flushes and closes the writer.
 func (w *Writer) Close() error {
+	if err := w.SetStyle(value2.NewStyle()); err != nil {
+		return err
+	}
 	return w.Flush()
 }
-- 
2.43.0


From ece0e476dd3787369a6b0599305d99174db0ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/68] fix: draw wide characters whole and redraw the columns
 they used to cover

---
 render/internal/application/renderer.go |  8 +++++---
 render/internal/domain/model/buffer.go  | 18 ++++++++++++++++++
 render/internal/domain/service/diff.go  | 20 ++++++++++++++------
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..05c367b 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/render/internal/domain/service"
-	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/render/internal/infrastructure/ansi"
 )
 
@@ -134,9 +133,12 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 
 	// Render all non-empty cells.
 	for y := 0; y < buffer.Height(); y++ {
+		covered := 0
 		for x := 0; x < buffer.Width(); x++ {
-			cell := buffer.Get(value.NewPosition(x, y))
-			if !cell.IsEmpty() {
+			var cell model.Cell
+			var hidden bool
+			cell, hidden, covered = buffer.OnScreen(x, y, covered)
+			if !hidden && !cell.IsEmpty() {
 				if err := r.writer.MoveCursor(x, y); err != nil {
 					return err
 				}
diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 9d63dde..272a07d 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -65,6 +65,24 @@ func (b *Buffer) Get(pos value2.Position) Cell {
 	return b.cells[y][x]
 }
 
+// OnScreen returns the cell a terminal shows at (x, y), given the number of columns
+// still covered by a wide character further left in the row, and that number for the
+// next column. A covered column shows the rest of the wide character, whatever cell
+// the buffer holds there; a wide character that does not fit in the row shows as blank.
+func (b *Buffer) OnScreen(x, y, covered int) (cell Cell, hidden bool, next int) {
+	cell = b.cells[y][x]
+	if covered > 0 {
+		return cell, true, covered - 1
+	}
+	if cell.width > 1 {
+		if x+cell.width > b.width {
+			return NewCellWithWidth(' ', cell.style, 1), false, 0
+		}
+		return cell, false, cell.width - 1
+	}
+	return cell, false, 0
+}
+
 // Set sets the cell at position. Does nothing if out of bounds.
 func (b *Buffer) Set(pos value2.Position, cell Cell) {
 	x, y := pos.X(), pos.Y()
diff --git a/render/internal/domain/service/diff.go b/render/internal/domain/service/diff.go
index 78005f3..1b1745f 100644
--- a/render/internal/domain/service/diff.go
+++ b/render/internal/domain/service/diff.go
@@ -49,16 +49,24 @@ func (s *DiffService) Diff(oldBuf, newBuf *model2.Buffer) []DiffOp {
 
 	// Compare cell by cell.
 	for y := 0; y < newBuf.Height(); y++ {
+		oldCovered, newCovered := 0, 0
 		for x := 0; x < newBuf.Width(); x++ {
-			pos := value.NewPosition(x, y)
-			oldCell := oldBuf.Get(pos)
-			newCell := newBuf.Get(pos)
+			var oldCell, newCell model2.Cell
+			var oldHidden, newHidden bool
+			oldCell, oldHidden, oldCovered = oldBuf.OnScreen(x, y, oldCovered)
+			newCell, newHidden, newCovered = newBuf.OnScreen(x, y, newCovered)
+
+			// The column shows the rest of a wide character, which is drawn with it.
+			if newHidden {
+				continue
+			}
 
-			// Only emit operation if cells differ.
-			if !oldCell.Equals(newCell) {
+			// Only emit operation if cells differ
+			// (a column a wide character used to cover has to be drawn anyway).
+			if oldHidden || !oldCell.Equals(newCell) {
 				ops = append(ops, DiffOp{
 					Type:     OpTypeSet,
-					Position: pos,
+					Position: value.NewPosition(x, y),
 					Cell:     newCell,
 				})
 			}
-- 
2.43.0


From 08387318af169893893ba8c98c2165e93817b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 04/68] fix: keep whole grapheme clusters in render cells and
 skip characters without width

---
 render/internal/domain/model/buffer.go        |  7 +++++--
 render/internal/domain/model/cell.go          | 19 +++++++++++++++++--
 render/internal/infrastructure/ansi/writer.go |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 272a07d..71400bc 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -138,11 +138,14 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 			continue
 		}
 
-		char := runes[0]
+		// Characters without width (control characters, lone marks) occupy no cell.
 		width := uniseg.StringWidth(cluster)
+		if width == 0 {
+			continue
+		}
 
 		// Create and set cell.
-		cell := NewCellWithWidth(char, style, width)
+		cell := NewClusterCell(runes, style, width)
 		b.Set(value2.NewPosition(x, y), cell)
 
 		x += width
diff --git a/render/internal/domain/model/cell.go b/render/internal/domain/model/cell.go
index 69ce995..eeacdde 100644
--- a/render/internal/domain/model/cell.go
+++ b/render/internal/domain/model/cell.go
@@ -9,6 +9,7 @@ import (
 // Cell is immutable and uses value semantics.
 type Cell struct {
 	char  rune
+	rest  string // further runes of the grapheme cluster (combining marks, joiners, ...)
 	style value.Style
 	width int
 }
@@ -42,6 +43,18 @@ func NewCellWithWidth(char rune, style value.Style, width int) Cell {
 	}
 }
 
+// NewClusterCell creates a cell showing a whole grapheme cluster with explicit width.
+func NewClusterCell(cluster []rune, style value.Style, width int) Cell {
+	cell := NewCellWithWidth(cluster[0], style, width)
+	cell.rest = string(cluster[1:])
+	return cell
+}
+
+// Text returns everything the cell shows (character and any combining runes).
+func (c Cell) Text() string {
+	return string(c.char) + c.rest
+}
+
 // Char returns the character.
 func (c Cell) Char() rune {
 	return c.char
@@ -59,12 +72,13 @@ func (c Cell) Width() int {
 
 // IsEmpty returns true if cell is empty (space with no style).
 func (c Cell) IsEmpty() bool {
-	return c.char == ' ' && c.style.IsEmpty()
+	return c.char == ' ' && c.rest == "" && c.style.IsEmpty()
 }
 
 // Equals checks if two cells are equal (for diff optimization).
 func (c Cell) Equals(other Cell) bool {
 	return c.char == other.char &&
+		c.rest == other.rest &&
 		c.width == other.width &&
 		c.style.Equals(other.style)
 }
@@ -78,6 +92,7 @@ func (c Cell) WithChar(char rune) Cell {
 func (c Cell) WithStyle(style value.Style) Cell {
 	return Cell{
 		char:  c.char,
+		rest:  c.rest,
 		style: style,
 		width: c.width,
 	}
@@ -88,7 +103,7 @@ func (c Cell) String() string {
 	if c.IsEmpty() {
 		return " "
 	}
-	return string(c.char)
+	return c.Text()
 }
 
 // calculateWidth calculates display width for a rune using uniseg.
diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 98ce114..72ee632 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -120,7 +120,7 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	}
 
 	// Write character.
-	if _, err := w.buf.WriteRune(cell.Char()); err != nil {
+	if _, err := w.buf.WriteString(cell.Text()); err != nil {
 		return err
 	}
 
-- 
2.43.0


From a84e83f00d16adc1d0fa8de434648c465e431515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 05/68] fix: never hand out pooled render buffers of the size
 before a resize

---
 render/internal/application/renderer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 05c367b..247fd34 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -296,7 +296,14 @@ func (r *Renderer) Height() int {
 
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if buf.Width() != r.width || buf.Height() != r.height {
+		// Pooled before a resize.
+		return model.NewBuffer(r.width, r.height)
+	}
 	buf.Clear()
 	return buf
 }
-- 
2.43.0


From 87fe94ac2beeee86d07b0f906b562114f327493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 06/68] fix: never lose a quit request while the event loop is
 busy

---
 tea/internal/application/program/program.go | 51 +++++++++++++++------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..ab4c5ef 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -69,6 +69,9 @@ type Program[T any] struct {
 	// Quit channel
 	quitCh chan struct{}
 
+	// Closed when the current run's event loop has ended
+	doneCh chan struct{}
+
 	// Inline renderer for non-alt-screen mode.
 	// Initialized lazily in renderView() on the first render call.
 	// Tracks linesRendered so subsequent renders overwrite the previous frame
@@ -101,9 +104,9 @@ type suspendedState struct {
 func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 	p := &Program[T]{
 		model:  m,
-		input:  os.Stdin,  // Default
-		output: os.Stdout, // Default
-		quitCh: make(chan struct{}),
+		input:  os.Stdin,                   // Default
+		output: os.Stdout,                  // Default
+		quitCh: make(chan struct{}, 1),     // One pending quit request survives a busy loop
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
@@ -147,7 +150,7 @@ func (p *Program[T]) Run() error {
 		p.mu.Unlock()
 		return fmt.Errorf("program already running")
 	}
-	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -169,7 +172,7 @@ func (p *Program[T]) Run() error {
 			_ = p.terminal.ExitAltScreen() // Best effort cleanup
 		}
 
-		p.running = false
+		p.endRun()
 		p.mu.Unlock()
 	}()
 
@@ -274,7 +277,7 @@ func (p *Program[T]) Start() error {
 		p.mu.Unlock()
 		return fmt.Errorf("program already running")
 	}
-	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -296,7 +299,7 @@ func (p *Program[T]) Start() error {
 				_ = p.terminal.ExitAltScreen() // Best effort cleanup
 			}
 
-			p.running = false
+			p.endRun()
 			p.mu.Unlock()
 		}()
 
@@ -377,6 +380,25 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// beginRun marks the program as running. Must be called with mu held.
+func (p *Program[T]) beginRun() {
+	p.running = true
+	p.doneCh = make(chan struct{})
+
+	// A quit request left over from before this run must not end it.
+	select {
+	case <-p.quitCh:
+	default:
+	}
+}
+
+// endRun marks the program as stopped and releases everything that waits to
+// hand the event loop a message. Must be called with mu held.
+func (p *Program[T]) endRun() {
+	p.running = false
+	close(p.doneCh)
+}
+
 // Stop stops a running program gracefully.
 // Blocks until the program has fully stopped.
 //
@@ -404,10 +426,8 @@ func (p *Program[T]) Stop() {
 	for {
 		select {
 		case <-timeout:
-			// Timeout - force stop
-			p.mu.Lock()
-			p.running = false
-			p.mu.Unlock()
+			// The loop is still busy (or this is the loop itself); the pending
+			// quit request ends it as soon as it gets back to its channels.
 			return
 		case <-ticker.C:
 			p.mu.Lock()
@@ -482,14 +502,16 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
+	done := p.doneCh // ends with the run that started the command
+
 	go func() {
 		msg := cmd() // Execute command (may block)
 
 		// Send result back to event loop
 		select {
 		case p.msgCh <- msg:
-		case <-p.quitCh:
-			// Program quitting, don't send
+		case <-done:
+			// Program has quit, don't send
 		}
 	}()
 }
@@ -539,6 +561,7 @@ func (p *Program[T]) startInputReader() {
 	p.inputReaderCancel = cancel
 	p.inputReaderDone = make(chan struct{})
 	p.inputReaderRunning = true
+	done := p.doneCh
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
 	p.mu.Unlock()
@@ -585,7 +608,7 @@ func (p *Program[T]) startInputReader() {
 			case p.msgCh <- msg:
 			case <-ctx.Done():
 				return
-			case <-p.quitCh:
+			case <-done:
 				return
 			}
 		}
-- 
2.43.0


From 72a21e13ba3fc4473a4c80f702f4f3a7170195bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 07/68] fix: process batched and sequenced messages in place
 instead of re-queueing them

---
 tea/internal/application/program/program.go | 123 +++++++++-----------
 1 file changed, 52 insertions(+), 71 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index ab4c5ef..2c76572 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -208,46 +208,10 @@ func (p *Program[T]) Run() error {
 	for {
 		select {
 		case msg := <-p.msgCh:
-			// Check for quit
-			if _, isQuit := msg.(model2.QuitMsg); isQuit {
+			if p.handleMsg(msg) {
 				return nil // Exit loop
 			}
 
-			// Handle BatchMsg - expand to individual messages
-			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Handle SequenceMsg - expand to individual messages (in order)
-			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-				if p.inlineRenderer != nil {
-					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-				}
-			}
-
-			// Update model
-			newModel, cmd := p.model.Update(msg)
-			p.model = newModel
-
-			// Execute command (if any)
-			if cmd != nil {
-				p.executeCommand(cmd)
-			}
-
-			// Render view
-			p.renderView()
-
 		case <-p.quitCh:
 			return nil // External quit signal
 		}
@@ -334,43 +298,10 @@ func (p *Program[T]) Start() error {
 		for {
 			select {
 			case msg := <-p.msgCh:
-				if _, isQuit := msg.(model2.QuitMsg); isQuit {
+				if p.handleMsg(msg) {
 					return
 				}
 
-				// Handle BatchMsg
-				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Handle SequenceMsg
-				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-				if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-					if p.inlineRenderer != nil {
-						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-					}
-				}
-
-				// Update
-				newModel, cmd := p.model.Update(msg)
-				p.model = newModel
-
-				if cmd != nil {
-					p.executeCommand(cmd)
-				}
-
-				p.renderView()
-
 			case <-p.quitCh:
 				return
 			}
@@ -380,6 +311,56 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// handleMsg processes one message in the event loop and reports whether it ends
+// the program.
+//
+// The messages of a BatchMsg or SequenceMsg are processed right here, in order:
+// putting them back into msgCh would move them behind later messages and would
+// block the loop forever once the channel is full.
+func (p *Program[T]) handleMsg(msg model2.Msg) (quit bool) {
+	switch m := msg.(type) {
+	case model2.QuitMsg:
+		return true
+
+	case model2.BatchMsg:
+		for _, inner := range m.Messages {
+			if p.handleMsg(inner) {
+				return true
+			}
+		}
+		return false
+
+	case model2.SequenceMsg:
+		for _, inner := range m.Messages {
+			if p.handleMsg(inner) {
+				return true
+			}
+		}
+		return false
+
+	case model2.WindowSizeMsg:
+		// Keep inline renderer dimensions current.
+		// We do not consume the message - it is still forwarded to model.Update.
+		if !p.altScreen && p.inlineRenderer != nil {
+			p.inlineRenderer.Resize(m.Width, m.Height)
+		}
+	}
+
+	// Update model
+	newModel, cmd := p.model.Update(msg)
+	p.model = newModel
+
+	// Execute command if returned
+	if cmd != nil {
+		p.executeCommand(cmd)
+	}
+
+	// Re-render view
+	p.renderView()
+
+	return false
+}
+
 // beginRun marks the program as running. Must be called with mu held.
 func (p *Program[T]) beginRun() {
 	p.running = true
-- 
2.43.0


From 42378d4c7978c14242aa6fefb2ec0832ae6c4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 08/68] fix: keep the terminal of a suspended or ended program
 to its rightful owner

Frames are withheld while suspended, Resume leaves drawing to the event loop,
a failed Resume can be retried, the end of a run ends a suspension too (a later
Resume used to switch raw mode and the alternate screen back on), nested
ExecProcess calls leave resuming to whoever suspended, and the end of a run
releases stdin and shows the cursor that Resume hid.
---
 tea/internal/application/program/program.go   | 400 +++++++++++-------
 .../application/program/tty_control_darwin.go |  10 +-
 .../application/program/tty_control_linux.go  |  10 +-
 .../program/tty_control_windows.go            |  17 +-
 4 files changed, 275 insertions(+), 162 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 2c76572..42d5aaa 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -81,6 +81,19 @@ type Program[T any] struct {
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume hid the cursor
+	finished     bool            // True once a run has ended (until the next one)
+
+	// Serializes everything that switches terminal modes: the start and the end
+	// of a run, Suspend and Resume. Acquired before mu.
+	ttyMu sync.Mutex
+
+	// Guards writing frames: inlineRenderer and outputHeld
+	outMu      sync.Mutex
+	outputHeld bool // True while suspended: the terminal belongs to somebody else
+
+	// Asks the event loop to draw the current view again
+	redrawCh chan struct{}
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -110,6 +123,8 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
+
+		redrawCh: make(chan struct{}, 1),
 	}
 
 	// Apply options
@@ -145,36 +160,12 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 //
 //nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Run() error {
-	p.mu.Lock()
-	if p.running {
-		p.mu.Unlock()
-		return fmt.Errorf("program already running")
+	if err := p.beginRun(); err != nil {
+		return err
 	}
-	p.beginRun()
-
-	// Initialize terminal if not set (auto-detect best implementation)
-	if p.terminal == nil {
-		p.terminal = terminal.New()
-	}
-	p.mu.Unlock()
 
 	// Cleanup on exit
-	defer func() {
-		p.mu.Lock()
-
-		// Exit raw mode if we're in it
-		if p.terminal != nil && p.terminal.IsInRawMode() {
-			_ = p.terminal.ExitRawMode() // Best effort cleanup
-		}
-
-		// Exit alt screen if we're in it
-		if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-			_ = p.terminal.ExitAltScreen() // Best effort cleanup
-		}
-
-		p.endRun()
-		p.mu.Unlock()
-	}()
+	defer p.endRun()
 
 	// Enter raw mode for TUI (best effort - may fail in test environments)
 	p.mu.Lock()
@@ -188,34 +179,15 @@ func (p *Program[T]) Run() error {
 				_ = p.terminal.ExitRawMode() // Cleanup raw mode if we entered it
 			}
 			p.mu.Unlock()
+			p.ttyMu.Unlock()
 			return fmt.Errorf("failed to enter alt screen: %w", err)
 		}
 	}
 	p.mu.Unlock()
+	p.ttyMu.Unlock()
 
-	// STEP 1: Call Init() to get initial command
-	initCmd := p.model.Init()
-	if initCmd != nil {
-		p.executeCommand(initCmd)
-	}
-	// Start input reader
-	p.startInputReader()
-
-	// STEP 2: Render initial view
-	p.renderView()
-
-	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
-	for {
-		select {
-		case msg := <-p.msgCh:
-			if p.handleMsg(msg) {
-				return nil // Exit loop
-			}
-
-		case <-p.quitCh:
-			return nil // External quit signal
-		}
-	}
+	p.eventLoop()
+	return nil
 }
 
 // Start starts the program in a goroutine and returns immediately.
@@ -236,36 +208,12 @@ func (p *Program[T]) Run() error {
 //
 //nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Start() error {
-	p.mu.Lock()
-	if p.running {
-		p.mu.Unlock()
-		return fmt.Errorf("program already running")
+	if err := p.beginRun(); err != nil {
+		return err
 	}
-	p.beginRun()
-
-	// Initialize terminal if not set (auto-detect best implementation)
-	if p.terminal == nil {
-		p.terminal = terminal.New()
-	}
-	p.mu.Unlock()
 
 	go func() {
-		defer func() {
-			p.mu.Lock()
-
-			// Exit raw mode if we're in it
-			if p.terminal != nil && p.terminal.IsInRawMode() {
-				_ = p.terminal.ExitRawMode() // Best effort cleanup
-			}
-
-			// Exit alt screen if we're in it
-			if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-				_ = p.terminal.ExitAltScreen() // Best effort cleanup
-			}
-
-			p.endRun()
-			p.mu.Unlock()
-		}()
+		defer p.endRun()
 
 		// Enter raw mode for TUI
 		p.mu.Lock()
@@ -279,36 +227,54 @@ func (p *Program[T]) Start() error {
 				if altScreenErr := p.terminal.EnterAltScreen(); altScreenErr != nil {
 					_ = p.terminal.ExitRawMode() // Cleanup raw mode
 					p.mu.Unlock()
+					p.ttyMu.Unlock()
 					return
 				}
 			}
 		}
 		p.mu.Unlock()
+		p.ttyMu.Unlock()
 
 		// Same event loop as Run(), but in goroutine
-		initCmd := p.model.Init()
-		if initCmd != nil {
-			p.executeCommand(initCmd)
-		}
-		// Start input reader
-		p.startInputReader()
+		p.eventLoop()
+	}()
 
-		p.renderView()
+	return nil
+}
 
-		for {
-			select {
-			case msg := <-p.msgCh:
-				if p.handleMsg(msg) {
-					return
-				}
+// eventLoop initializes the model and processes messages until the program quits.
+func (p *Program[T]) eventLoop() {
+	// STEP 1: Call Init() to get initial command
+	initCmd := p.model.Init()
+	if initCmd != nil {
+		p.executeCommand(initCmd)
+	}
 
-			case <-p.quitCh:
-				return
+	// Start input reader (Resume does it if somebody has suspended us already)
+	p.ttyMu.Lock()
+	if !p.IsSuspended() {
+		p.startInputReader()
+	}
+	p.ttyMu.Unlock()
+
+	// STEP 2: Render initial view
+	p.renderView()
+
+	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
+	for {
+		select {
+		case msg := <-p.msgCh:
+			if p.handleMsg(msg) {
+				return // Exit loop
 			}
-		}
-	}()
 
-	return nil
+		case <-p.redrawCh:
+			p.renderView()
+
+		case <-p.quitCh:
+			return // External quit signal
+		}
+	}
 }
 
 // handleMsg processes one message in the event loop and reports whether it ends
@@ -341,9 +307,11 @@ func (p *Program[T]) handleMsg(msg model2.Msg) (quit bool) {
 	case model2.WindowSizeMsg:
 		// Keep inline renderer dimensions current.
 		// We do not consume the message - it is still forwarded to model.Update.
+		p.outMu.Lock()
 		if !p.altScreen && p.inlineRenderer != nil {
 			p.inlineRenderer.Resize(m.Width, m.Height)
 		}
+		p.outMu.Unlock()
 	}
 
 	// Update model
@@ -361,9 +329,19 @@ func (p *Program[T]) handleMsg(msg model2.Msg) (quit bool) {
 	return false
 }
 
-// beginRun marks the program as running. Must be called with mu held.
-func (p *Program[T]) beginRun() {
+// beginRun marks the program as running.
+// On success it leaves ttyMu locked: the caller enters the terminal modes and unlocks it.
+func (p *Program[T]) beginRun() error {
+	p.ttyMu.Lock()
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running {
+		p.ttyMu.Unlock()
+		return fmt.Errorf("program already running")
+	}
 	p.running = true
+	p.finished = false
 	p.doneCh = make(chan struct{})
 
 	// A quit request left over from before this run must not end it.
@@ -371,15 +349,67 @@ func (p *Program[T]) beginRun() {
 	case <-p.quitCh:
 	default:
 	}
+
+	// Initialize terminal if not set (auto-detect best implementation)
+	if p.terminal == nil {
+		p.terminal = terminal.New()
+	}
+
+	// This run takes over the terminal.
+	p.clearSuspended()
+	return nil
 }
 
-// endRun marks the program as stopped and releases everything that waits to
-// hand the event loop a message. Must be called with mu held.
+// endRun gives the terminal back as it was found, marks the program as stopped
+// and releases everything that waits to hand the event loop a message.
 func (p *Program[T]) endRun() {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
+	// Release stdin
+	p.stopInputReader()
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	// Exit raw mode if we're in it
+	if p.terminal != nil && p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
+
+	// Exit alt screen if we're in it
+	if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	// Show the cursor if Resume hid it
+	if p.terminal != nil && p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
+	// There is nothing left to resume
+	p.clearSuspended()
+
 	p.running = false
+	p.finished = true
 	close(p.doneCh)
 }
 
+// clearSuspended forgets about a suspension. Must be called with mu held.
+func (p *Program[T]) clearSuspended() {
+	p.suspended = false
+	p.suspendState = nil
+	p.holdOutput(false)
+}
+
+// holdOutput starts or stops withholding frames from the output.
+func (p *Program[T]) holdOutput(held bool) {
+	p.outMu.Lock()
+	p.outputHeld = held
+	p.outMu.Unlock()
+}
+
 // Stop stops a running program gracefully.
 // Blocks until the program has fully stopped.
 //
@@ -508,6 +538,14 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 func (p *Program[T]) renderView() {
 	view := p.model.View()
 
+	p.outMu.Lock()
+	defer p.outMu.Unlock()
+
+	// While suspended the terminal belongs to somebody else; Resume redraws.
+	if p.outputHeld {
+		return
+	}
+
 	if !p.altScreen {
 		// Lazily initialize the inline renderer on the first call.
 		// Width/height start at 0 (disables truncation/clipping) until
@@ -532,15 +570,17 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	inputReader := input.NewReader(p.input)
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Set state under mutex protection
 	p.mu.Lock()
+	p.inputReader = inputReader
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	readerDone := make(chan struct{})
+	p.inputReaderDone = readerDone
 	p.inputReaderRunning = true
 	done := p.doneCh
 	p.inputReaderGeneration++             // Increment generation for new goroutine
@@ -550,7 +590,7 @@ func (p *Program[T]) startInputReader() {
 	go func() {
 		defer func() {
 			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			close(readerDone)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -573,7 +613,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := inputReader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
@@ -711,10 +751,19 @@ func (p *Program[T]) restartInputReader() {
 // Returns error if suspension fails (e.g., terminal operation error).
 // Safe to call multiple times - subsequent calls are no-ops.
 func (p *Program[T]) Suspend() error {
+	_, err := p.suspend()
+	return err
+}
+
+// suspend implements Suspend and reports whether it was this call that suspended the TUI.
+func (p *Program[T]) suspend() (bool, error) {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if p.suspended {
 		p.mu.Unlock()
-		return nil // Already suspended
+		return false, nil // Already suspended
 	}
 
 	// Validate terminal exists
@@ -723,13 +772,34 @@ func (p *Program[T]) Suspend() error {
 	}
 	p.mu.Unlock()
 
-	// STEP 1: Stop inputReader goroutine (releases stdin)
+	// STEP 1: Stop inputReader goroutine (releases stdin) and drawing
 	// Must be done outside mutex (stopInputReader uses mutex internally)
 	p.stopInputReader()
+	p.holdOutput(true)
 
 	p.mu.Lock()
-	defer p.mu.Unlock()
+	state, err := p.leaveModes()
+	if err != nil {
+		p.mu.Unlock()
+
+		// Restart inputReader and drawing before returning error
+		p.holdOutput(false)
+		p.restartInputReader()
+		p.requestRedraw()
+		return false, err
+	}
+
+	// Mark as suspended and save state
+	p.suspended = true
+	p.suspendState = state
+	p.mu.Unlock()
 
+	return true, nil
+}
+
+// leaveModes switches the terminal to normal mode for Suspend and returns how
+// it was before. If that fails, the modes are as before. Must be called with mu held.
+func (p *Program[T]) leaveModes() (*suspendedState, error) {
 	// STEP 2: Save current terminal state
 	state := &suspendedState{
 		wasInRawMode:   p.terminal.IsInRawMode(),
@@ -739,11 +809,7 @@ func (p *Program[T]) Suspend() error {
 	// STEP 3: Exit raw mode (restore cooked mode for external commands)
 	if state.wasInRawMode {
 		if err := p.terminal.ExitRawMode(); err != nil {
-			// Restart inputReader before returning error
-			p.mu.Unlock()
-			p.restartInputReader()
-			p.mu.Lock()
-			return fmt.Errorf("suspend: failed to exit raw mode: %w", err)
+			return nil, fmt.Errorf("suspend: failed to exit raw mode: %w", err)
 		}
 	}
 
@@ -754,11 +820,7 @@ func (p *Program[T]) Suspend() error {
 			if state.wasInRawMode {
 				_ = p.terminal.EnterRawMode() // Best effort
 			}
-			// Restart inputReader before returning error
-			p.mu.Unlock()
-			p.restartInputReader()
-			p.mu.Lock()
-			return fmt.Errorf("suspend: failed to exit alt screen: %w", err)
+			return nil, fmt.Errorf("suspend: failed to exit alt screen: %w", err)
 		}
 	}
 
@@ -767,12 +829,9 @@ func (p *Program[T]) Suspend() error {
 		// Non-fatal - continue anyway
 		// Some terminals may not support cursor control
 	}
+	p.cursorHidden = false
 
-	// Mark as suspended and save state
-	p.suspended = true
-	p.suspendState = state
-
-	return nil
+	return state, nil
 }
 
 // Resume restores the TUI after a Suspend.
@@ -797,8 +856,11 @@ func (p *Program[T]) Suspend() error {
 //
 // Returns error if restoration fails (e.g., terminal operation error).
 // Safe to call multiple times - subsequent calls are no-ops.
-// If Resume fails partway, terminal may be in inconsistent state.
+// If Resume fails, the TUI stays suspended and Resume can be tried again.
 func (p *Program[T]) Resume() error {
+	p.ttyMu.Lock()
+	defer p.ttyMu.Unlock()
+
 	p.mu.Lock()
 	if !p.suspended {
 		p.mu.Unlock()
@@ -806,58 +868,85 @@ func (p *Program[T]) Resume() error {
 	}
 
 	state := p.suspendState
-	if state == nil {
-		// Should not happen, but be defensive
-		p.suspended = false
+	if state == nil || p.finished {
+		// Nothing to go back to (the run has ended in the meantime)
+		p.clearSuspended()
 		p.mu.Unlock()
 		return nil
 	}
+
+	if err := p.restoreModes(state); err != nil {
+		p.mu.Unlock()
+		return err
+	}
+
+	// Clear suspended state.
+	// Clear the inline renderer diff cache so all lines are repainted.
+	// The external command may have written arbitrary content to the terminal,
+	// invalidating our previous frame tracking.
+	p.outMu.Lock()
+	if p.inlineRenderer != nil {
+		p.inlineRenderer.Repaint()
+	}
+	p.outMu.Unlock()
+	p.clearSuspended()
+	running := p.running
 	p.mu.Unlock()
 
+	// STEP 4: Restart inputReader goroutine
+	p.restartInputReader()
+
+	// STEP 5: Force full redraw.
+	// The model belongs to the event loop, so that is where it gets drawn.
+	if running {
+		p.requestRedraw()
+	} else {
+		p.renderView()
+	}
+
+	return nil
+}
+
+// restoreModes takes the terminal back for Resume. If that fails, the terminal
+// is in normal mode again. Must be called with mu held.
+func (p *Program[T]) restoreModes(state *suspendedState) error {
 	// STEP 1: Hide cursor (restore TUI cursor state)
-	p.mu.Lock()
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
-	p.mu.Unlock()
+	p.cursorHidden = true
 
 	// STEP 2: Re-enter alternate screen (if was active before)
-	p.mu.Lock()
 	if state.wasInAltScreen {
 		if err := p.terminal.EnterAltScreen(); err != nil {
-			p.mu.Unlock()
+			_ = p.terminal.ShowCursor() // Best effort
+			p.cursorHidden = false
 			return fmt.Errorf("resume: failed to restore alt screen: %w", err)
 		}
 	}
-	p.mu.Unlock()
 
 	// STEP 3: Re-enter raw mode (if was active before)
-	p.mu.Lock()
 	if state.wasInRawMode {
 		if err := p.terminal.EnterRawMode(); err != nil {
-			p.mu.Unlock()
+			if state.wasInAltScreen {
+				_ = p.terminal.ExitAltScreen() // Best effort
+			}
+			_ = p.terminal.ShowCursor() // Best effort
+			p.cursorHidden = false
 			return fmt.Errorf("resume: failed to restore raw mode: %w", err)
 		}
 	}
 
-	// Clear suspended state
-	p.suspended = false
-	p.suspendState = nil
-	p.mu.Unlock()
-
-	// STEP 4: Restart inputReader goroutine
-	p.restartInputReader()
+	return nil
+}
 
-	// STEP 5: Force full redraw.
-	// Clear the inline renderer diff cache so all lines are repainted.
-	// The external command may have written arbitrary content to the terminal,
-	// invalidating our previous frame tracking.
-	if p.inlineRenderer != nil {
-		p.inlineRenderer.Repaint()
+// requestRedraw asks the event loop to draw the current view again.
+func (p *Program[T]) requestRedraw() {
+	select {
+	case p.redrawCh <- struct{}{}:
+	default:
+		// Already requested
 	}
-	p.renderView()
-
-	return nil
 }
 
 // IsSuspended returns true if the TUI is currently suspended.
@@ -917,7 +1006,8 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 	}
 
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
-	if err := p.Suspend(); err != nil {
+	suspendedHere, err := p.suspend()
+	if err != nil {
 		return fmt.Errorf("exec: %w", err)
 	}
 
@@ -931,7 +1021,8 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 
 	// STEP 4: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
-	if err := p.Resume(); err != nil {
+	// (unless the caller had suspended the TUI: resuming is up to the caller then)
+	if err := p.resumeAfterExec(suspendedHere); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
 		}
@@ -942,6 +1033,15 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 	return cmdErr
 }
 
+// resumeAfterExec resumes the TUI, unless it was suspended before the command
+// already: resuming is up to whoever suspended it then.
+func (p *Program[T]) resumeAfterExec(suspendedHere bool) error {
+	if !suspendedHere {
+		return nil
+	}
+	return p.Resume()
+}
+
 // ┌─────────────────────────────────────────────────────────────────┐.
 // │ Advanced TTY Control (Level 2)                                  │.
 // └─────────────────────────────────────────────────────────────────┘.
diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 1c74ba8..afea5bd 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -83,7 +83,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	defer signal.Reset(syscall.SIGTTOU)
 
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
-	if err := p.Suspend(); err != nil {
+	suspendedHere, err := p.suspend()
+	if err != nil {
 		return fmt.Errorf("exec: %w", err)
 	}
 
@@ -104,7 +105,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// STEP 4: Start child process
 	if err := cmd.Start(); err != nil {
 		// Restore TUI before returning error
-		if resumeErr := p.Resume(); resumeErr != nil {
+		if resumeErr := p.resumeAfterExec(suspendedHere); resumeErr != nil {
 			return fmt.Errorf("exec: failed to start command (%v) and %w", err, resumeErr)
 		}
 		return fmt.Errorf("exec: failed to start command: %w", err)
@@ -118,7 +119,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
-			if resumeErr := p.Resume(); resumeErr != nil {
+			_ = cmd.Wait()
+			if resumeErr := p.resumeAfterExec(suspendedHere); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
 			return fmt.Errorf("exec: failed to transfer foreground: %w", err)
@@ -139,7 +141,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 
 	// STEP 8: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
-	if err := p.Resume(); err != nil {
+	if err := p.resumeAfterExec(suspendedHere); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
 		}
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 316915c..ce75320 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -83,7 +83,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	defer signal.Reset(syscall.SIGTTOU)
 
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
-	if err := p.Suspend(); err != nil {
+	suspendedHere, err := p.suspend()
+	if err != nil {
 		return fmt.Errorf("exec: %w", err)
 	}
 
@@ -104,7 +105,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// STEP 4: Start child process
 	if err := cmd.Start(); err != nil {
 		// Restore TUI before returning error
-		if resumeErr := p.Resume(); resumeErr != nil {
+		if resumeErr := p.resumeAfterExec(suspendedHere); resumeErr != nil {
 			return fmt.Errorf("exec: failed to start command (%v) and %w", err, resumeErr)
 		}
 		return fmt.Errorf("exec: failed to start command: %w", err)
@@ -118,7 +119,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
-			if resumeErr := p.Resume(); resumeErr != nil {
+			_ = cmd.Wait()
+			if resumeErr := p.resumeAfterExec(suspendedHere); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
 			return fmt.Errorf("exec: failed to transfer foreground: %w", err)
@@ -139,7 +141,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 
 	// STEP 8: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed
-	if err := p.Resume(); err != nil {
+	if err := p.resumeAfterExec(suspendedHere); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%v) and %w", cmdErr, err)
 		}
diff --git a/tea/internal/application/program/tty_control_windows.go b/tea/internal/application/program/tty_control_windows.go
index 9c7395b..a6df5f9 100644
--- a/tea/internal/application/program/tty_control_windows.go
+++ b/tea/internal/application/program/tty_control_windows.go
@@ -48,7 +48,8 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	}
 
 	// STEP 1: Suspend TUI (stop input, exit raw mode, exit alt screen, show cursor)
-	if err := p.Suspend(); err != nil {
+	suspendedHere, err := p.suspend()
+	if err != nil {
 		return fmt.Errorf("exec: %w", err)
 	}
 
@@ -57,7 +58,11 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err != nil {
 		// Not a console - fall back to simple ExecProcess
 		log.Printf("WARNING: GetStdHandle failed (not a console?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		cmdErr := p.ExecProcess(cmd)
+		if err := p.resumeAfterExec(suspendedHere); err != nil && cmdErr == nil {
+			return fmt.Errorf("exec: %w", err)
+		}
+		return cmdErr
 	}
 
 	// STEP 3: Save current console mode
@@ -65,7 +70,11 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err := windows.GetConsoleMode(consoleHandle, &originalMode); err != nil {
 		// Not a console (e.g., piped input) - fall back to simple ExecProcess
 		log.Printf("WARNING: GetConsoleMode failed (not a console?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		cmdErr := p.ExecProcess(cmd)
+		if err := p.resumeAfterExec(suspendedHere); err != nil && cmdErr == nil {
+			return fmt.Errorf("exec: %w", err)
+		}
+		return cmdErr
 	}
 
 	// STEP 4: Disable virtual terminal processing (let child control console)
@@ -96,7 +105,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// NOTE: No defer SetConsoleMode(originalMode) — Resume() calls EnterRawMode()
 	// which sets the correct console flags. A defer would fire AFTER Resume(),
 	// restoring cooked-mode flags and undoing EnterRawMode (see bug report).
-	if err := p.Resume(); err != nil {
+	if err := p.resumeAfterExec(suspendedHere); err != nil {
 		if cmdErr != nil {
 			return fmt.Errorf("exec: command failed (%w) and %w", cmdErr, err)
 		}
-- 
2.43.0


From 372be3a96a515047c3513cf01c155c09687cb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 09/68] fix: read escape sequences whole: F1-F4, long ones and
 ones split between reads

---
 .../infrastructure/input/cancelable_reader.go | 70 +++++++++++++---
 tea/internal/infrastructure/input/reader.go   | 81 ++++++++++++++-----
 2 files changed, 122 insertions(+), 29 deletions(-)

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index 1f3ff8b..bdfafe9 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -39,6 +39,10 @@ type CancelableReader struct {
 	// Read result channel - buffered to allow background reader to continue
 	readCh chan readResult
 
+	// Received from readCh, but not (completely) returned by Read yet
+	pending   []readResult
+	pendingMu sync.Mutex
+
 	// Cleanup synchronization
 	readerDone chan struct{}
 
@@ -248,18 +252,66 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
-	select {
-	case result := <-cr.readCh:
-		if result.n > 0 {
-			n := copy(p, result.data)
-			return n, result.err
+	result, ok := cr.takePending()
+	if !ok {
+		select {
+		case result = <-cr.readCh:
+
+		case <-cr.done:
+			// Canceled while waiting
+			return 0, io.EOF
 		}
-		return 0, result.err
+	}
 
-	case <-cr.done:
-		// Canceled while waiting
-		return 0, io.EOF
+	if result.n > 0 {
+		n := copy(p, result.data)
+		if n < result.n {
+			// Keep the rest for the next call
+			cr.keepPending(readResult{data: result.data[n:], n: result.n - n, err: result.err})
+			return n, nil
+		}
+		return n, result.err
+	}
+	return 0, result.err
+}
+
+// takePending returns what keepPending has put aside, if anything.
+func (cr *CancelableReader) takePending() (readResult, bool) {
+	cr.pendingMu.Lock()
+	defer cr.pendingMu.Unlock()
+
+	if len(cr.pending) == 0 {
+		return readResult{}, false
+	}
+	result := cr.pending[0]
+	cr.pending = cr.pending[1:]
+	return result, true
+}
+
+// keepPending puts a result aside for the next Read.
+func (cr *CancelableReader) keepPending(result readResult) {
+	cr.pendingMu.Lock()
+	defer cr.pendingMu.Unlock()
+	cr.pending = append(cr.pending, result)
+}
+
+// waitReadable waits for data and reports whether Read would return some now.
+func (cr *CancelableReader) waitReadable(timeout time.Duration) bool {
+	result, ok := cr.takePending()
+	if !ok {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+
+		select {
+		case result = <-cr.readCh:
+		case <-cr.done:
+			return false
+		case <-timer.C:
+			return false
+		}
 	}
+	cr.keepPending(result)
+	return result.n > 0
 }
 
 // Cancel stops the reader immediately.
diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..d36046b 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -4,11 +4,16 @@ package input
 import (
 	"bufio"
 	"io"
+	"time"
 
 	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/ansi"
 )
 
+// escTimeout is how long to wait for the rest of an escape sequence. The bytes of
+// one sequence arrive together, but not necessarily in the same read.
+const escTimeout = 50 * time.Millisecond
+
 // Reader reads input from stdin and parses it into messages.
 // Supports cancellation for ExecProcess stdin release.
 //
@@ -86,30 +91,24 @@ func (ir *Reader) Read() (model.Msg, error) {
 	// Build sequence
 	seq := []byte{b}
 
-	// If ESC, try to read more bytes for ANSI sequence
-	if b == 0x1B {
-		// Peek ahead to see if more bytes available
-		// (with simple buffered check to avoid blocking forever)
+	// If ESC, read the rest of the escape sequence (if there is one)
+	if b == 0x1B && ir.more() {
+		if seq, err = ir.readEscape(seq); err != nil {
+			return nil, err
+		}
 
-		// Try to read up to 10 more bytes (enough for most sequences)
-		for i := 0; i < 10; i++ {
-			// Check if byte available (non-blocking peek)
-			if ir.reader.Buffered() > 0 {
-				nextByte, err := ir.reader.ReadByte()
+		// ESC before an ordinary character is how terminals send Alt
+		switch len(seq) {
+		case 1:
+			if next, err := ir.reader.Peek(1); err == nil && isAltChar(next[0]) {
+				r, _, err := ir.reader.ReadRune()
 				if err != nil {
-					break
+					return nil, err
 				}
-				seq = append(seq, nextByte)
-
-				// Stop if we hit a letter or tilde (end of most sequences)
-				if (nextByte >= 'A' && nextByte <= 'Z') ||
-					(nextByte >= 'a' && nextByte <= 'z') ||
-					nextByte == '~' {
-					break
-				}
-			} else {
-				break
+				return model.KeyMsg{Type: model.KeyRune, Rune: r, Alt: true}, nil
 			}
+		case 2:
+			return model.KeyMsg{Type: model.KeyRune, Rune: rune(seq[1]), Alt: true}, nil
 		}
 	}
 
@@ -147,3 +146,45 @@ func (ir *Reader) Read() (model.Msg, error) {
 	//nolint:nilnil // Intentional: nil msg + nil error = skip this byte, continue reading
 	return nil, nil
 }
+
+// more reports whether another byte is there or arrives right away.
+func (ir *Reader) more() bool {
+	return ir.reader.Buffered() > 0 || ir.cancelableReader.waitReadable(escTimeout)
+}
+
+// readEscape reads the rest of the escape sequence that starts with seq (ESC):
+//   - CSI: ESC [ parameters (0x30-0x3F), intermediates (0x20-0x2F), final (0x40-0x7E)
+//   - SS3: ESC O character
+//
+// Returns seq unchanged if no sequence follows. Bytes that do not belong to the
+// sequence stay unread.
+func (ir *Reader) readEscape(seq []byte) ([]byte, error) {
+	intro, err := ir.reader.Peek(1)
+	if err != nil || (intro[0] != '[' && intro[0] != 'O') {
+		return seq, nil //nolint:nilerr // The next read reports the error
+	}
+
+	for {
+		b, err := ir.reader.ReadByte()
+		if err != nil {
+			return nil, err
+		}
+
+		inside := len(seq) == 1 || (b >= 0x20 && b <= 0x7E)
+		if !inside {
+			// Not part of the sequence: leave it for the next key
+			return seq, ir.reader.UnreadByte()
+		}
+		seq = append(seq, b)
+
+		final := len(seq) > 2 && (seq[1] == 'O' || b >= 0x40)
+		if final || !ir.more() {
+			return seq, nil
+		}
+	}
+}
+
+// isAltChar reports whether ESC followed by b is Alt and a character.
+func isAltChar(b byte) bool {
+	return b > 0x20 && b != 0x7F
+}
-- 
2.43.0


From a73d3da78fd273831cec620fd19002e45ce8fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 10/68] fix: erase, truncate and diff inline frames without
 damaging neighbouring text and styles

---
 .../infrastructure/renderer/inline.go         | 92 +++++++++++++++++--
 1 file changed, 85 insertions(+), 7 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..e3eaf10 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -25,6 +25,9 @@ const (
 
 	// carriageReturn moves the cursor to column 0 of the current line.
 	carriageReturn = "\r"
+
+	// resetStyle switches off all character styling.
+	resetStyle = "\x1b[0m"
 )
 
 // cursorUp returns the ANSI sequence to move the cursor up n lines.
@@ -48,7 +51,7 @@ type InlineRenderer struct {
 	width         int      // terminal width; 0 means no truncation
 	height        int      // terminal height; 0 means no clipping
 	lastView      string   // raw string of the previous render (for identical-frame check)
-	lastLines     []string // previous render split by "\n" (for per-line diffing)
+	lastLines     []string // lines of the previous render with their carried styles (for per-line diffing)
 	linesRendered int      // number of lines written in the previous render
 	mu            sync.Mutex
 }
@@ -79,7 +82,7 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	defer r.mu.Unlock()
 
 	// No-op if the view is identical to the previous render.
-	if view == r.lastView && r.linesRendered > 0 {
+	if view == r.lastView && r.lastLines != nil {
 		return nil
 	}
 
@@ -94,11 +97,12 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	// and subsequent renders where cursor sits at end of last line).
 	buf.WriteString(carriageReturn)
 
-	newLines := strings.Split(view, "\n")
+	newLines, carriesOut := carryStyles(strings.Split(view, "\n"))
 
 	// Clip to terminal height — cannot scroll into the scrollback buffer
 	// while the inline render region is active.
 	if r.height > 0 && len(newLines) > r.height {
+		carriesOut = carriesOut[len(newLines)-r.height:]
 		newLines = newLines[len(newLines)-r.height:]
 	}
 
@@ -121,8 +125,15 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 
 		// Write the (possibly truncated) line content followed by erase-to-EOL.
 		// The erase sequence clears any leftover characters from a longer previous line.
+		// A line that fills the whole width leaves nothing to clear, and the cursor
+		// still stands on its last column: erasing would remove what is there.
 		buf.WriteString(line)
-		buf.WriteString(eraseLineRight)
+		if carriesOut[i] {
+			buf.WriteString(resetStyle)
+		}
+		if r.width == 0 || visualWidth(line) < r.width {
+			buf.WriteString(eraseLineRight)
+		}
 
 		if i < len(newLines)-1 {
 			buf.WriteString("\r\n")
@@ -130,8 +141,11 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	}
 
 	// Erase any extra lines from the previous render that are no longer present.
+	// They start on the next row: erasing from here would take the last line along.
 	if r.linesRendered > len(newLines) {
+		buf.WriteString("\r\n")
 		buf.WriteString(eraseScreenBelow)
+		buf.WriteString(cursorUp(1))
 	}
 
 	// Leave cursor at column 0 of the last rendered line for consistent positioning.
@@ -188,6 +202,51 @@ func (r *InlineRenderer) SetOutput(w io.Writer) {
 
 // ─── Internal helpers ────────────────────────────────────────────────────────
 
+// carryStyles makes every line start with the styles that the lines before it
+// left switched on, so that it can be written on its own. It also reports for
+// every line whether styles are still switched on at its end.
+func carryStyles(lines []string) ([]string, []bool) {
+	carried := make([]string, len(lines))
+	carriesOut := make([]bool, len(lines))
+	carry := ""
+	for i, line := range lines {
+		carried[i] = carry + line
+		carry = activeStyles(carry + line)
+		carriesOut[i] = carry != ""
+	}
+	return carried, carriesOut
+}
+
+// activeStyles returns the SGR sequences of s since the last reset.
+func activeStyles(s string) string {
+	active := ""
+	for {
+		start := strings.Index(s, "\x1b[")
+		if start < 0 {
+			return active
+		}
+		s = s[start:]
+		end := 2
+		for end < len(s) && (s[end] < 0x40 || s[end] > 0x7E) {
+			end++
+		}
+		if end == len(s) {
+			return active
+		}
+		if seq := s[:end+1]; s[end] == 'm' {
+			switch params := seq[2:end]; {
+			case params == "" || params == "0":
+				active = ""
+			case strings.HasPrefix(params, "0;"):
+				active = seq
+			default:
+				active += seq
+			}
+		}
+		s = s[end+1:]
+	}
+}
+
 // stripANSI removes ANSI escape sequences from s and returns the plain text.
 // This is used to compute the visual display width of a line that may contain
 // color codes, bold, underline, etc.
@@ -247,6 +306,19 @@ func stripANSI(s string) string { //nolint:gocognit,gocyclo,cyclop // byte-level
 	return b.String()
 }
 
+// wideSymbols are the characters below U+2E80 that are displayed as emoji, two columns wide.
+var wideSymbols = &unicode.RangeTable{R16: []unicode.Range16{
+	{Lo: 0x231A, Hi: 0x231B, Stride: 1}, {Lo: 0x23E9, Hi: 0x23EC, Stride: 1}, {Lo: 0x23F0, Hi: 0x23F3, Stride: 3},
+	{Lo: 0x25FD, Hi: 0x25FE, Stride: 1}, {Lo: 0x2614, Hi: 0x2615, Stride: 1}, {Lo: 0x2648, Hi: 0x2653, Stride: 1},
+	{Lo: 0x267F, Hi: 0x267F, Stride: 1}, {Lo: 0x2693, Hi: 0x2693, Stride: 1}, {Lo: 0x26A1, Hi: 0x26A1, Stride: 1},
+	{Lo: 0x26AA, Hi: 0x26AB, Stride: 1}, {Lo: 0x26BD, Hi: 0x26BE, Stride: 1}, {Lo: 0x26C4, Hi: 0x26C5, Stride: 1},
+	{Lo: 0x26CE, Hi: 0x26D4, Stride: 6}, {Lo: 0x26EA, Hi: 0x26EA, Stride: 1}, {Lo: 0x26F2, Hi: 0x26F3, Stride: 1},
+	{Lo: 0x26F5, Hi: 0x26FA, Stride: 5}, {Lo: 0x26FD, Hi: 0x26FD, Stride: 1}, {Lo: 0x2705, Hi: 0x2705, Stride: 1},
+	{Lo: 0x270A, Hi: 0x270B, Stride: 1}, {Lo: 0x2728, Hi: 0x2728, Stride: 1}, {Lo: 0x274C, Hi: 0x274E, Stride: 2},
+	{Lo: 0x2753, Hi: 0x2755, Stride: 1}, {Lo: 0x2757, Hi: 0x2757, Stride: 1}, {Lo: 0x2795, Hi: 0x2797, Stride: 1},
+	{Lo: 0x27B0, Hi: 0x27BF, Stride: 15}, {Lo: 0x2B1B, Hi: 0x2B1C, Stride: 1}, {Lo: 0x2B50, Hi: 0x2B55, Stride: 5},
+}}
+
 // runeDisplayWidth returns the display width of a single rune.
 // Wide characters (CJK, fullwidth) count as 2 columns; most others count as 1.
 // Control characters and combining marks count as 0.
@@ -261,6 +333,8 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r == 0x2329 || r == 0x232A: // Angle brackets
 		return 2
+	case r >= 0x231A && r <= 0x2B55 && unicode.Is(wideSymbols, r): // Emoji among the symbols
+		return 2
 	case r >= 0x2E80 && r <= 0x303E: // CJK Radicals, etc.
 		return 2
 	case r >= 0x3040 && r <= 0x33FF: // Japanese, Katakana, Bopomofo, etc.
@@ -289,6 +363,8 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0x1F300 && r <= 0x1F9FF: // Miscellaneous Symbols + Emoji
 		return 2
+	case r >= 0x1FA70 && r <= 0x1FAFF: // Symbols and Pictographs Extended-A
+		return 2
 	case r >= 0x20000 && r <= 0x2FFFD: // CJK Extension B-F
 		return 2
 	case r >= 0x30000 && r <= 0x3FFFD: // CJK Extension G+
@@ -324,6 +400,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	var b strings.Builder
 	b.Grow(len(s))
 	width := 0
+	full := false // the rest does not fit; only its escape sequences are kept
 	i := 0
 
 	for i < len(s) {
@@ -373,12 +450,13 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
 		rw := runeDisplayWidth(r)
-		if width+rw > maxWidth {
-			break
+		i += size
+		if full || width+rw > maxWidth {
+			full = true
+			continue
 		}
 		b.WriteRune(r)
 		width += rw
-		i += size
 	}
 
 	return b.String()
-- 
2.43.0


From abaf315c90260900b8a998c1e37a25db642d61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 11/68] fix: show the cursor at the end of a run when Suspend
 or Resume could not

---
 tea/internal/application/program/program.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 42d5aaa..47afef7 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -825,11 +825,11 @@ func (p *Program[T]) leaveModes() (*suspendedState, error) {
 	}
 
 	// STEP 5: Show cursor (always restore visibility for external commands)
-	if err := p.terminal.ShowCursor(); err != nil {
-		// Non-fatal - continue anyway
-		// Some terminals may not support cursor control
+	if err := p.terminal.ShowCursor(); err == nil {
+		p.cursorHidden = false
 	}
-	p.cursorHidden = false
+	// Otherwise non-fatal - continue anyway
+	// Some terminals may not support cursor control
 
 	return state, nil
 }
@@ -919,8 +919,7 @@ func (p *Program[T]) restoreModes(state *suspendedState) error {
 	// STEP 2: Re-enter alternate screen (if was active before)
 	if state.wasInAltScreen {
 		if err := p.terminal.EnterAltScreen(); err != nil {
-			_ = p.terminal.ShowCursor() // Best effort
-			p.cursorHidden = false
+			p.cursorHidden = p.terminal.ShowCursor() != nil // Best effort
 			return fmt.Errorf("resume: failed to restore alt screen: %w", err)
 		}
 	}
@@ -931,8 +930,7 @@ func (p *Program[T]) restoreModes(state *suspendedState) error {
 			if state.wasInAltScreen {
 				_ = p.terminal.ExitAltScreen() // Best effort
 			}
-			_ = p.terminal.ShowCursor() // Best effort
-			p.cursorHidden = false
+			p.cursorHidden = p.terminal.ShowCursor() != nil // Best effort
 			return fmt.Errorf("resume: failed to restore raw mode: %w", err)
 		}
 	}
-- 
2.43.0


From 1c476ae81339747fff1f23c9032a693bc1d4dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 12/68] fix: derive the shortcut of a confirm button from its
 first character, not its first byte

---
 components/confirm/internal/domain/value/button.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..fde15d0 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,8 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import "unicode/utf8"
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +15,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
@@ -33,6 +35,9 @@ func (b *Button) Key() rune {
 
 // MatchesKey returns true if the given rune matches this button's key (case-insensitive).
 func (b *Button) MatchesKey(r rune) bool {
+	if b.key == 0 {
+		return false // No label, no shortcut
+	}
 	// Case-insensitive comparison
 	keyLower := toLower(b.key)
 	rLower := toLower(r)
-- 
2.43.0


From c5f408b95175c44afc68e7f14402dd373f4fa8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 13/68] fix: draw modal boxes closed, in cells and at the
 current terminal's centre

---
 components/modal/modal.go | 63 ++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 2824674..bdf9c98 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -23,6 +23,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/modal/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Button defines a modal action button.
@@ -199,14 +200,9 @@ func (m *Modal) Init() tea.Cmd {
 
 // Update implements tea.Model.
 func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
-	// If modal is not visible, don't process any input.
-	if !m.domain.IsVisible() {
-		return m, nil
-	}
-
 	switch msg := msg.(type) {
 	case tea.WindowSizeMsg:
-		// Update terminal size for rendering.
+		// Update terminal size for rendering, also while hidden: the modal may be shown later.
 		return &Modal{
 			domain:         m.domain,
 			layoutService:  m.layoutService,
@@ -217,7 +213,10 @@ func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
 		}, nil
 
 	case tea.KeyMsg:
-		return m.handleKeyPress(msg)
+		// If modal is not visible, don't process any input.
+		if m.domain.IsVisible() {
+			return m.handleKeyPress(msg)
+		}
 	}
 
 	return m, nil
@@ -336,6 +335,11 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 func (m *Modal) renderModalBox(x, y, width, height int) string {
 	var b strings.Builder
 
+	// Too small for borders and padding: draw the smallest possible box.
+	if width < 4 {
+		width = 4
+	}
+
 	// Position cursor at modal location.
 	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+1, x+1)) // ANSI cursor positioning (1-indexed)
 
@@ -359,19 +363,23 @@ func (m *Modal) renderModalBox(x, y, width, height int) string {
 	}
 
 	contentLines := strings.Split(m.domain.Content(), "\n")
-	contentHeight := height - 4 // Reserve space for borders and buttons
-	if m.domain.Title() != "" {
-		contentHeight -= 2 // Reserve space for title and separator
+	contentHeight := y + height - contentStartY // Up to the bottom border (rows are 1-indexed)
+	if len(m.domain.Buttons()) > 0 {
+		contentHeight -= 2 // Reserve space for separator and buttons
 	}
 
-	for i := 0; i < contentHeight && i < len(contentLines); i++ {
+	for i := 0; i < contentHeight; i++ {
+		line := ""
+		if i < len(contentLines) {
+			line = contentLines[i]
+		}
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", contentStartY+i, x+1))
-		b.WriteString("│ " + m.padOrTruncate(contentLines[i], width-4) + " │\n")
+		b.WriteString("│ " + m.padOrTruncate(line, width-4) + " │\n")
 	}
 
 	// Buttons (if any)
 	if len(m.domain.Buttons()) > 0 {
-		buttonY := y + height - 3
+		buttonY := y + height - 2
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
 		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
 
@@ -381,7 +389,7 @@ func (m *Modal) renderModalBox(x, y, width, height int) string {
 	}
 
 	// Bottom border.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height-1, x+1))
+	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height, x+1))
 	b.WriteString("└" + strings.Repeat("─", width-2) + "┘\n")
 
 	return b.String()
@@ -413,14 +421,33 @@ func (m *Modal) renderButtons(availableWidth int) string {
 }
 
 // padOrTruncate pads or truncates a string to the specified width.
+// The width is counted in terminal cells, and characters are never split.
 func (m *Modal) padOrTruncate(text string, width int) string {
-	if len(text) > width {
+	if width < 0 {
+		width = 0
+	}
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			return text[:width-3] + "..."
+			text = cut(text, width-3) + "..."
+		} else {
+			text = cut(text, width)
+		}
+	}
+	return text + strings.Repeat(" ", width-uniseg.StringWidth(text))
+}
+
+// cut returns the longest prefix of whole characters that fits the given width.
+func cut(text string, width int) string {
+	used := 0
+	g := uniseg.NewGraphemes(text)
+	for g.Next() {
+		used += g.Width()
+		if used > width {
+			from, _ := g.Positions()
+			return text[:from]
 		}
-		return text[:width]
 	}
-	return text + strings.Repeat(" ", width-len(text))
+	return text
 }
 
 // IsVisible returns true if the modal is currently visible.
-- 
2.43.0


From b9a045e72952df3ce66dde7fd67d97c86db5edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 14/68] fix: do not let huge progress steps overflow

---
 components/progress/internal/domain/value/percentage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/progress/internal/domain/value/percentage.go b/components/progress/internal/domain/value/percentage.go
index 20a1cd8..effda60 100644
--- a/components/progress/internal/domain/value/percentage.go
+++ b/components/progress/internal/domain/value/percentage.go
@@ -23,13 +23,13 @@ func (p *Percentage) Value() int {
 // Add returns a new Percentage with the delta added.
 // The result is clamped to [0, 100].
 func (p *Percentage) Add(delta int) *Percentage {
-	return NewPercentage(p.value + delta)
+	return NewPercentage(p.value + clamp(delta, -100, 100))
 }
 
 // Subtract returns a new Percentage with the delta subtracted.
 // The result is clamped to [0, 100].
 func (p *Percentage) Subtract(delta int) *Percentage {
-	return NewPercentage(p.value - delta)
+	return NewPercentage(p.value - clamp(delta, -100, 100))
 }
 
 // IsComplete returns true if the percentage is 100%.
-- 
2.43.0


From f9e71e827e9818685b32dd963d8861d3a3876a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 15/68] fix: use the frames given to NewSpinnerCustom

---
 components/progress/spinner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/components/progress/spinner.go b/components/progress/spinner.go
index 7233184..abf88ba 100644
--- a/components/progress/spinner.go
+++ b/components/progress/spinner.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
@@ -37,11 +38,9 @@ func NewSpinner(style string) *Spinner {
 
 // NewSpinnerCustom creates a new spinner with custom frames and FPS.
 // Returns pointer for initialization, but store as value in Model.
-//
-//nolint:revive // frames parameter will be used when custom spinner support is added
-func NewSpinnerCustom(_ []string, fps int) *Spinner {
+func NewSpinnerCustom(frames []string, fps int) *Spinner {
 	return &Spinner{
-		domain: *model.NewSpinner(infrastructure.GetSpinnerStyle("dots")), // Dereference!
+		domain: *model.NewSpinner(value.NewSpinnerStyle(frames, fps)), // Dereference!
 	}
 }
 
-- 
2.43.0


From f9d6f33ca87067cfcfc6fc7c2265fb8c1488513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 16/68] fix: erase whole characters from select and multiselect
 filters

---
 components/multiselect/multiselect.go | 3 ++-
 components/select/select.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 70a1258..9f506a4 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -270,7 +270,8 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := m.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			runes := []rune(currentQuery)
+			newQuery := string(runes[:len(runes)-1])
 			newM.domain = newM.domain.SetFilterQuery(newQuery)
 		}
 		return newM
diff --git a/components/select/select.go b/components/select/select.go
index 565732e..66d96db 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -190,7 +190,8 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := s.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			runes := []rune(currentQuery)
+			newQuery := string(runes[:len(runes)-1])
 			newS.domain = newS.domain.SetFilterQuery(newQuery)
 		}
 		return newS
-- 
2.43.0


From 7397bef1f50e57c9aef48ace757ee4b43aebb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 17/68] fix: confirm nothing in a select without a selectable
 option under the cursor

---
 components/select/internal/domain/model/select.go | 13 ++++++++++++-
 components/select/select.go                       |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index e7e4800..126722f 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -126,8 +126,9 @@ func (s *Select[T]) MoveToEnd() *Select[T] {
 }
 
 // Select marks the currently focused option as selected.
+// Disabled options cannot be selected.
 func (s *Select[T]) Select() *Select[T] {
-	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) {
+	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) && !s.filteredOpts[s.cursor].Disabled() {
 		// Find the original index in options array
 		selectedOpt := s.filteredOpts[s.cursor]
 		for i, opt := range s.options {
@@ -193,6 +194,16 @@ func (s *Select[T]) FocusedValue() (T, bool) {
 	return zero, false
 }
 
+// ConfirmedValue returns the value of the focused option, or the zero value and false if there is
+// no option under the cursor that can be selected.
+func (s *Select[T]) ConfirmedValue() (T, bool) {
+	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) && !s.filteredOpts[s.cursor].Disabled() {
+		return s.filteredOpts[s.cursor].Value(), true
+	}
+	var zero T
+	return zero, false
+}
+
 // RenderVisibleOptions returns the rendered strings for visible options.
 func (s *Select[T]) RenderVisibleOptions() []string {
 	if len(s.filteredOpts) == 0 {
diff --git a/components/select/select.go b/components/select/select.go
index 66d96db..b3d86aa 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -162,7 +162,7 @@ func (s *Select[T]) handleKey(msg tea.KeyMsg) (*Select[T], tea.Cmd) {
 		newS.domain = newS.domain.MoveToEnd()
 	case infrastructure.ActionSelect:
 		newS.domain = newS.domain.Select()
-		return newS, ConfirmSelectionCmd[T](newS.SelectedValue)
+		return newS, ConfirmSelectionCmd[T](newS.domain.ConfirmedValue)
 	case infrastructure.ActionClearFilter:
 		newS.domain = newS.domain.ClearFilter()
 	case infrastructure.ActionQuit:
-- 
2.43.0


From 5c73b58c6bdf33e27389eeceb9ddf13523300d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 18/68] fix: keep disabled and missing options out of
 multiselect selections

---
 .../internal/domain/model/multiselect.go        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0d8ef32..75c5b83 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -93,11 +93,18 @@ func (m *MultiSelect[T]) WithRenderFunc(fn RenderFunc[T]) *MultiSelect[T] {
 }
 
 // WithSelected returns a new MultiSelect with the specified indices pre-selected.
+// Indices that no option has are ignored.
 func (m *MultiSelect[T]) WithSelected(indices ...int) *MultiSelect[T] {
+	existing := make([]int, 0, len(indices))
+	for _, idx := range indices {
+		if idx < len(m.options) {
+			existing = append(existing, idx)
+		}
+	}
 	return &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
-		selection:    m.selection.WithSelected(indices...),
+		selection:    m.selection.WithSelected(existing...),
 		filterQuery:  m.filterQuery,
 		filteredOpts: m.filteredOpts,
 		height:       m.height,
@@ -141,8 +148,9 @@ func (m *MultiSelect[T]) MoveToEnd() *MultiSelect[T] {
 }
 
 // Toggle toggles the selection of the currently focused option.
+// Disabled options cannot be selected.
 func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
-	if m.cursor >= 0 && m.cursor < len(m.filteredOpts) {
+	if m.cursor >= 0 && m.cursor < len(m.filteredOpts) && !m.filteredOpts[m.cursor].Disabled() {
 		// Find the original index in options array
 		focusedOpt := m.filteredOpts[m.cursor]
 		for i, opt := range m.options {
@@ -154,11 +162,14 @@ func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
 	return m
 }
 
-// SelectAll selects all filtered options (respecting max constraint).
+// SelectAll selects all filtered options that are not disabled (respecting max constraint).
 func (m *MultiSelect[T]) SelectAll() *MultiSelect[T] {
 	// Build list of indices for filtered options
 	indices := make([]int, 0, len(m.filteredOpts))
 	for _, filteredOpt := range m.filteredOpts {
+		if filteredOpt.Disabled() {
+			continue
+		}
 		for i, opt := range m.options {
 			if opt == filteredOpt {
 				indices = append(indices, i)
-- 
2.43.0


From 6b5376586b860072f1f4081343bd53a5f2085f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 19/68] fix: accept spaces in a select's filter

---
 components/select/select.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/select/select.go b/components/select/select.go
index b3d86aa..5b65166 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -187,6 +187,12 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 		return newS
 	}
 
+	// The space bar arrives as KeySpace, not as KeyRune.
+	if msg.Type == tea.KeySpace {
+		newS.domain = newS.domain.SetFilterQuery(s.domain.FilterQuery() + " ")
+		return newS
+	}
+
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := s.domain.FilterQuery()
 		if currentQuery != "" {
-- 
2.43.0


From 2dd2a6d663203ba6021932294ca8b56d76f8ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 20/68] fix: keep the list focus on a shown item when the
 filter function changes

---
 components/list/internal/domain/model/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..0177540 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -82,6 +82,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
-- 
2.43.0


From 8fcd87c3cba78e10b3c320f9a40afcfb0475ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 21/68] fix: show at least one row in lists of zero or negative
 height

---
 components/list/internal/domain/model/list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 0177540..c2babb3 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -88,6 +88,9 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 
 // WithHeight returns a new List with the specified visible height.
 func (l *List) WithHeight(height int) *List {
+	if height < 1 {
+		height = 1
+	}
 	newList := l.clone()
 	newList.height = height
 	newList.updateScrollOffset()
-- 
2.43.0


From c7e67807167b025118631833e635fdb26ed0e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 22/68] fix: report selected list items in list order

---
 components/list/internal/domain/model/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index c2babb3..c22bded 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"sort"
+
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
 )
@@ -213,7 +215,7 @@ func (l *List) ClearSelection() *List {
 // SelectedItems returns the selected items.
 func (l *List) SelectedItems() []*value.Item {
 	result := make([]*value.Item, 0, len(l.selectedIndices))
-	for idx := range l.selectedIndices {
+	for _, idx := range l.SelectedIndices() {
 		if idx < len(l.filteredItems) {
 			result = append(result, l.filteredItems[idx])
 		}
@@ -273,6 +275,7 @@ func (l *List) SelectedIndices() []int {
 	for idx := range l.selectedIndices {
 		result = append(result, idx)
 	}
+	sort.Ints(result)
 	return result
 }
 
-- 
2.43.0


From 7d1b49c21dddaabb30acc93c84defdd75a955c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 23/68] fix: filter lists by the whole typed text

---
 components/list/internal/domain/model/list.go | 5 +++++
 components/list/list.go                       | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index c22bded..429a2e1 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -264,6 +264,11 @@ func (l *List) IsFiltered() bool {
 	return l.filterQuery != ""
 }
 
+// FilterQuery returns the current filter query.
+func (l *List) FilterQuery() string {
+	return l.filterQuery
+}
+
 // FocusedIndex returns the currently focused index (in filtered list).
 func (l *List) FocusedIndex() int {
 	return l.focusedIndex
diff --git a/components/list/list.go b/components/list/list.go
index 401896b..186c047 100644
--- a/components/list/list.go
+++ b/components/list/list.go
@@ -237,11 +237,12 @@ func (l *List) handleKey(msg tea.KeyMsg) (*List, tea.Cmd) {
 		// If no action matched, check if it's a printable character for filtering.
 		if newList.showFilter && msg.Type == tea.KeyRune {
 			// Add character to filter query.
-			currentQuery := string(msg.Rune)
-			newList.domain = newList.domain.SetFilterQuery(currentQuery)
+			newList.domain = newList.domain.SetFilterQuery(l.domain.FilterQuery() + string(msg.Rune))
 		} else if newList.showFilter && msg.Type == tea.KeyBackspace {
 			// Remove last character from filter query.
-			newList.domain = newList.domain.ClearFilter()
+			if query := []rune(l.domain.FilterQuery()); len(query) > 0 {
+				newList.domain = newList.domain.SetFilterQuery(string(query[:len(query)-1]))
+			}
 		}
 	}
 
-- 
2.43.0


From 4f6f19dee0e63a0a1d8e63f07ec733cefbc7af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 24/68] fix: keep the selected table row in view when height or
 header change

---
 .../table/internal/domain/model/table.go      | 43 ++++++++++++-------
 components/table/table.go                     | 10 +----
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..145bc51 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -68,7 +68,7 @@ func (t *Table) WithRows(rows []Row) *Table {
 
 // WithHeight returns a new table with the specified visible height.
 func (t *Table) WithHeight(height int) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -78,12 +78,12 @@ func (t *Table) WithHeight(height int) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        height,
 		showHeader:    t.showHeader,
-	}
+	}).keepSelectedVisible()
 }
 
 // WithShowHeader returns a new table with header visibility set.
 func (t *Table) WithShowHeader(show bool) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -93,7 +93,7 @@ func (t *Table) WithShowHeader(show bool) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        t.height,
 		showHeader:    show,
-	}
+	}).keepSelectedVisible()
 }
 
 // SortBy returns a new table sorted by the specified column and direction.
@@ -127,6 +127,26 @@ func (t *Table) ClearSort() *Table {
 	}
 }
 
+// VisibleRowCount returns how many rows fit: the height less the header, but at least one.
+func (t *Table) VisibleRowCount() int {
+	n := t.height
+	if t.showHeader {
+		n-- // Header takes one row
+	}
+	if n < 1 {
+		return 1
+	}
+	return n
+}
+
+// keepSelectedVisible scrolls a new table so that its selected row is visible.
+func (t *Table) keepSelectedVisible() *Table {
+	if n := t.VisibleRowCount(); t.selectedIndex >= t.scrollOffset+n {
+		t.scrollOffset = t.selectedIndex - n + 1
+	}
+	return t
+}
+
 // MoveUp returns a new table with selection moved up one row.
 func (t *Table) MoveUp() *Table {
 	if t.selectedIndex <= 0 {
@@ -165,10 +185,7 @@ func (t *Table) MoveDown() *Table {
 	newOffset := t.scrollOffset
 
 	// Scroll down if needed.
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows-- // Header takes one row
-	}
+	visibleRows := t.VisibleRowCount()
 	if newIndex >= t.scrollOffset+visibleRows {
 		newOffset = newIndex - visibleRows + 1
 	}
@@ -208,10 +225,7 @@ func (t *Table) MoveToEnd() *Table {
 		maxIndex = 0
 	}
 
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.VisibleRowCount()
 
 	newOffset := maxIndex - visibleRows + 1
 	if newOffset < 0 {
@@ -266,10 +280,7 @@ func (t *Table) Rows() []Row {
 // VisibleRows returns the rows currently visible in the viewport.
 func (t *Table) VisibleRows() []Row {
 	rows := t.effectiveRows()
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.VisibleRowCount()
 
 	start := t.scrollOffset
 	end := start + visibleRows
diff --git a/components/table/table.go b/components/table/table.go
index b496527..2ae63e8 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -185,10 +185,7 @@ func (t *Table) handleKeyPress(msg tea.KeyMsg) *Table {
 
 // pageUp moves up by one page (visible height).
 func (t *Table) pageUp() *Table {
-	pageSize := t.domain.Height()
-	if t.domain.ShowHeader() {
-		pageSize--
-	}
+	pageSize := t.domain.VisibleRowCount()
 	newDomain := t.domain
 	for i := 0; i < pageSize && newDomain.SelectedIndex() > 0; i++ {
 		newDomain = newDomain.MoveUp()
@@ -202,10 +199,7 @@ func (t *Table) pageUp() *Table {
 
 // pageDown moves down by one page (visible height).
 func (t *Table) pageDown() *Table {
-	pageSize := t.domain.Height()
-	if t.domain.ShowHeader() {
-		pageSize--
-	}
+	pageSize := t.domain.VisibleRowCount()
 	maxIndex := len(t.domain.Rows()) - 1
 	newDomain := t.domain
 	for i := 0; i < pageSize && newDomain.SelectedIndex() < maxIndex; i++ {
-- 
2.43.0


From 1927977f2cf9c98082946bb3a32ea17205c109a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 25/68] fix: measure and cut table cells in terminal cells

---
 components/table/table.go | 41 +++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/components/table/table.go b/components/table/table.go
index 2ae63e8..990ef56 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -21,6 +21,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/table/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Column defines a table column.
@@ -49,7 +50,7 @@ type Table struct {
 func New(columns []Column) *Table {
 	domainCols := make([]*model2.Column, len(columns))
 	for i, col := range columns {
-		domainCol := model2.NewColumn(col.Key, col.Title, col.Width)
+		domainCol := model2.NewColumn(col.Key, col.Title, max(col.Width, 0))
 		if col.Alignment != value2.AlignmentLeft {
 			domainCol = domainCol.WithAlignment(col.Alignment)
 		}
@@ -284,9 +285,7 @@ func (t *Table) View() string {
 
 			// Add selection indicator.
 			if isSelected && colIdx == 0 {
-				if cell != "" {
-					cell = ">" + cell[1:]
-				}
+				cell = markSelected(cell)
 			}
 
 			b.WriteString(cell)
@@ -303,17 +302,20 @@ func (t *Table) View() string {
 
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(text string, width int, alignment value2.Alignment) string {
+	// A cell is one line.
+	text = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ", "\t", " ").Replace(text)
+
 	// Truncate if too long.
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			text = text[:width-3] + "..."
+			text = cutToWidth(text, width-3) + "..."
 		} else {
-			text = text[:width]
+			text = cutToWidth(text, width)
 		}
 	}
 
 	// Pad based on alignment.
-	padding := width - len(text)
+	padding := width - uniseg.StringWidth(text)
 	if padding <= 0 {
 		return text
 	}
@@ -332,6 +334,29 @@ func (t *Table) formatCell(text string, width int, alignment value2.Alignment) s
 	}
 }
 
+// cutToWidth returns the longest prefix of whole characters that fits in width terminal cells.
+func cutToWidth(text string, width int) string {
+	used, end := 0, 0
+	graphemes := uniseg.NewGraphemes(text)
+	for graphemes.Next() {
+		used += graphemes.Width()
+		if used > width {
+			break
+		}
+		_, end = graphemes.Positions()
+	}
+	return text[:end]
+}
+
+// markSelected replaces the first character of a cell by the selection indicator.
+func markSelected(cell string) string {
+	first, rest, width, _ := uniseg.FirstGraphemeClusterInString(cell, -1)
+	if first == "" {
+		return cell
+	}
+	return ">" + strings.Repeat(" ", max(width-1, 0)) + rest
+}
+
 // SelectedRow returns the currently selected row.
 func (t *Table) SelectedRow() Row {
 	return Row(t.domain.SelectedRow())
-- 
2.43.0


From 21b41dc17578a6162198f72bd6c0a19e46058860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 26/68] fix: sort table columns of any numeric types by value

---
 .../table/internal/domain/service/sort.go     | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/components/table/internal/domain/service/sort.go b/components/table/internal/domain/service/sort.go
index bb81227..30bc533 100644
--- a/components/table/internal/domain/service/sort.go
+++ b/components/table/internal/domain/service/sort.go
@@ -2,7 +2,9 @@
 package service
 
 import (
+	"cmp"
 	"fmt"
+	"reflect"
 	"sort"
 
 	"github.com/phoenix-tui/phoenix/components/table/internal/domain/model"
@@ -93,10 +95,41 @@ func (s *SortService) Compare(a, b interface{}) int {
 		}
 	}
 
+	// Other numbers, also of different types, compare by value.
+	if c, ok := compareNumbers(reflect.ValueOf(a), reflect.ValueOf(b)); ok {
+		return c
+	}
+
 	// Fallback: compare as strings.
 	return compareStrings(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
 }
 
+// compareNumbers compares two values of any numeric types. It reports false if one is not a number.
+func compareNumbers(a, b reflect.Value) (int, bool) {
+	switch {
+	case a.CanInt() && b.CanInt():
+		return cmp.Compare(a.Int(), b.Int()), true
+	case a.CanUint() && b.CanUint():
+		return cmp.Compare(a.Uint(), b.Uint()), true
+	}
+	x, okA := toFloat(a)
+	y, okB := toFloat(b)
+	return cmp.Compare(x, y), okA && okB
+}
+
+// toFloat converts a value of any numeric type.
+func toFloat(v reflect.Value) (float64, bool) {
+	switch {
+	case v.CanInt():
+		return float64(v.Int()), true
+	case v.CanUint():
+		return float64(v.Uint()), true
+	case v.CanFloat():
+		return v.Float(), true
+	}
+	return 0, false
+}
+
 // compareStrings compares two strings lexicographically.
 func compareStrings(a, b string) int {
 	if a < b {
-- 
2.43.0


From 6b1ef7a74eb685cd2e7338be5eb6e098518bc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 27/68] fix: do not insert the letters of unbound shortcuts
 into text inputs

---
 components/input/internal/input/infrastructure/keybindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index c6ea532..f2246a7 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -67,6 +67,9 @@ func (kb *DefaultKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) mode
 
 	case tea.KeyRune:
 		// Insert the rune.
+		if msg.Ctrl || msg.Alt {
+			return input // An unbound shortcut, not text
+		}
 		return input.InsertRune(msg.Rune)
 
 	default:
-- 
2.43.0


From 4665f9afd949a1c32d2356b51466ffa0073c9747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 28/68] fix: keep the text input's cursor behind a rune that
 joins the character before it

---
 components/input/internal/input/domain/model/input.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/input/domain/model/input.go b/components/input/internal/input/domain/model/input.go
index 7c48090..0d9162e 100644
--- a/components/input/internal/input/domain/model/input.go
+++ b/components/input/internal/input/domain/model/input.go
@@ -234,8 +234,11 @@ func (t TextInput) InsertRune(r rune) TextInput {
 	before, at, after := t.cursorMovement.SplitAtCursor(t.content, t.cursor.Offset())
 	t.content = before + string(r) + at + after
 
-	// Move cursor right.
-	t.cursor = t.cursor.MoveBy(1, t.cursorMovement.GraphemeCount(t.content))
+	// Move cursor behind the character the rune is now part of. It need not be a new one:
+	// the rune may have joined the character before or after it.
+	inserted := before + string(r)
+	offset := t.cursorMovement.ByteOffsetToGraphemeOffset(t.content, len(inserted)-1) + 1
+	t.cursor = value2.NewCursor(offset)
 
 	return t
 }
-- 
2.43.0


From 063e1828a0f08cb3100c17ca93a6abeccdcd9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 29/68] fix: scroll text inputs in whole characters and
 terminal cells

---
 components/input/input.go | 88 ++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 51 deletions(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eef6a5..42c7313 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -7,6 +7,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Input is the public API for the TextInput component.
@@ -197,69 +198,54 @@ func (i Input) renderPlaceholder() string {
 }
 
 // renderContent renders the input content with cursor.
-//
-//nolint:gocognit // rendering logic requires multiple conditions
 func (i Input) renderContent() string {
 	before, at, after := i.domain.ContentParts()
-
-	// Calculate visible portion based on width.
-	content := before + at + after
-
-	if len(content) <= i.domain.Width() {
-		// Content fits, render cursor.
-		if i.domain.Focused() {
-			return before + i.renderCursor(at) + after
-		}
-		return content
-	}
-
-	// Content too long, needs scrolling.
-	// Simple approach: keep cursor in view.
-	cursorPos := i.domain.CursorPosition()
 	width := i.domain.Width()
 
-	// Calculate scroll offset to keep cursor visible.
-	scrollOffset := i.domain.ScrollOffset()
-
-	// Adjust scroll if cursor is out of view.
-	if cursorPos < scrollOffset {
-		scrollOffset = cursorPos
+	// The cursor behind the text takes a cell of its own.
+	cursorWidth := uniseg.StringWidth(at)
+	if at == "" && i.domain.Focused() && i.domain.ShowCursor() {
+		cursorWidth = 1
 	}
-	if cursorPos >= scrollOffset+width {
-		scrollOffset = cursorPos - width + 1
+
+	if uniseg.StringWidth(before)+cursorWidth+uniseg.StringWidth(after) > width {
+		// Content exceeds width: show the part around the cursor, in whole characters.
+		if cursorWidth > width {
+			at, cursorWidth = "", width
+		}
+		before = lastCells(before, width-cursorWidth)
+		after = firstCells(after, width-cursorWidth-uniseg.StringWidth(before))
 	}
 
-	// Extract visible portion.
-	// Note: Uses byte offsets for simplicity - works for ASCII and most Unicode.
-	// For complex grapheme clusters (emoji with modifiers), phoenix/core UnicodeService
-	// should be used, but that's a future optimization.
-	visibleStart := scrollOffset
-	visibleEnd := scrollOffset + width
-	if visibleEnd > len(content) {
-		visibleEnd = len(content)
+	if i.domain.Focused() {
+		return before + i.renderCursor(at) + after
 	}
+	return before + at + after
+}
 
-	visibleContent := content[visibleStart:visibleEnd]
-
-	// Render cursor if in visible range.
-	//nolint:nestif // rendering logic requires nested conditions for cursor positioning
-	if i.domain.Focused() && cursorPos >= scrollOffset && cursorPos < scrollOffset+width {
-		cursorInVisible := cursorPos - scrollOffset
-		if cursorInVisible <= len(visibleContent) {
-			visibleBefore := visibleContent[:cursorInVisible]
-			visibleAt := ""
-			if cursorInVisible < len(visibleContent) {
-				visibleAt = string(visibleContent[cursorInVisible])
-			}
-			visibleAfter := ""
-			if cursorInVisible+1 < len(visibleContent) {
-				visibleAfter = visibleContent[cursorInVisible+1:]
-			}
-			return visibleBefore + i.renderCursor(visibleAt) + visibleAfter
+// firstCells returns the longest prefix of whole characters that fits in width terminal cells.
+func firstCells(text string, width int) string {
+	end := 0
+	graphemes := uniseg.NewGraphemes(text)
+	for graphemes.Next() {
+		if width -= graphemes.Width(); width < 0 {
+			break
 		}
+		_, end = graphemes.Positions()
 	}
+	return text[:end]
+}
 
-	return visibleContent
+// lastCells returns the longest suffix of whole characters that fits in width terminal cells.
+func lastCells(text string, width int) string {
+	excess := uniseg.StringWidth(text) - width
+	start := 0
+	graphemes := uniseg.NewGraphemes(text)
+	for excess > 0 && graphemes.Next() {
+		excess -= graphemes.Width()
+		_, start = graphemes.Positions()
+	}
+	return text[start:]
 }
 
 // renderCursor renders the cursor at the current position using theme colors.
-- 
2.43.0


From 46a6f0443dbcfe36af5fce86d735d99af242ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 30/68] fix: keep the text area's cursor in place when killing
 lines and words

---
 .../input/internal/textarea/domain/service/editing.go       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..1ca69d6 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -184,7 +184,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end.
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From f3b937492cf0268a00d00d971be5b17ddafd1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 31/68] fix: let Ctrl+U in text areas delete only up to the
 cursor

---
 .../textarea/domain/service/editing.go        | 33 +++++++++++++++++++
 .../infrastructure/keybindings/emacs.go       |  3 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 1ca69d6..2e11008 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -187,6 +187,39 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
+// KillToLineStart deletes from the start of the line to cursor (Ctrl+U).
+// A movement validator limits how far back the deletion reaches.
+func (s *EditingService) KillToLineStart(ta *model.TextArea) *model.TextArea {
+	if ta.IsReadOnly() {
+		return ta
+	}
+
+	row, col := ta.CursorPosition()
+	if col == 0 {
+		return ta // At start of line, nothing to kill
+	}
+
+	startCol := 0
+	if validator := ta.GetMovementValidator(); validator != nil {
+		from := model.NewCursorPos(row, col)
+		for startCol < col && !validator(from, model.NewCursorPos(row, startCol)) {
+			startCol++
+		}
+		if startCol == col {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(model.NewCursorPos(row, 0), "kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
+	line := []rune(ta.CurrentLine())
+	killRing := ta.GetKillRing().Kill(string(line[startCol:col]))
+	newBuffer := ta.GetBuffer().SetLine(row, string(line[:startCol])+string(line[col:]))
+
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
+}
+
 // KillWord deletes word after cursor (Alt+D).
 func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 	if ta.IsReadOnly() {
diff --git a/components/input/internal/textarea/infrastructure/keybindings/emacs.go b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
index ec43e57..701c391 100644
--- a/components/input/internal/textarea/infrastructure/keybindings/emacs.go
+++ b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
@@ -57,8 +57,7 @@ func (e *EmacsKeybindings) Handle(msg tea.KeyMsg, ta *model.TextArea) (*model.Te
 
 			case 'u', 'U':
 				// Kill from start of line to cursor.
-				ta = e.navigation.MoveToLineStart(ta)
-				return e.editing.KillLine(ta), nil
+				return e.editing.KillToLineStart(ta), nil
 
 			case 'w', 'W':
 				return e.editing.KillWordBackward(ta), nil
-- 
2.43.0


From 40ffb081344bb4a3c2fd6d93c9013cde44e236c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 32/68] fix: ask a text area's movement validator before
 killing a word backward

---
 .../input/internal/textarea/domain/service/editing.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 2e11008..8f8ce7d 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -288,6 +288,17 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 		return ta // No word to kill
 	}
 
+	// Check validator before moving the cursor back over the word
+	if validator := ta.GetMovementValidator(); validator != nil {
+		to := model.NewCursorPos(row, newCol)
+		if !validator(model.NewCursorPos(row, endCol), to) {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(to, "kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
 	// Kill from newCol to endCol.
 	killed := string(line[newCol:endCol])
 	killRing := ta.GetKillRing().Kill(killed)
-- 
2.43.0


From 5c9f9ac8e9ffb1aafda8d0207295469e6e9ec9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 33/68] fix: keep a text area's cursor in view when the program
 moves it or resizes the area

---
 .../internal/textarea/domain/model/textarea.go    | 15 ++++++---------
 components/input/textarea.go                      |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index c895a3a..fcff597 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -67,6 +67,7 @@ func (t *TextArea) WithSize(width, height int) *TextArea {
 	updated := t.copy()
 	updated.width = width
 	updated.height = height
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -212,7 +213,7 @@ func (t *TextArea) IsEmpty() bool {
 // VisibleLines returns slice of visible lines (respecting scroll).
 func (t *TextArea) VisibleLines() []string {
 	start := t.scrollRow
-	end := start + t.height
+	end := start + max(t.height, 0)
 	if end > t.buffer.LineCount() {
 		end = t.buffer.LineCount()
 	}
@@ -274,9 +275,7 @@ func (t *TextArea) MoveCursorToEnd() *TextArea {
 	lastLine := t.buffer.Line(lastRow)
 	lastCol := len([]rune(lastLine))
 
-	updated := t.copy()
-	updated.cursor = NewCursor(lastRow, lastCol)
-	return updated
+	return t.withCursor(NewCursor(lastRow, lastCol))
 }
 
 // SetCursorPosition sets cursor to specific position with bounds checking.
@@ -305,9 +304,7 @@ func (t *TextArea) SetCursorPosition(row, col int) *TextArea {
 		col = maxCol
 	}
 
-	updated := t.copy()
-	updated.cursor = NewCursor(row, col)
-	return updated
+	return t.withCursor(NewCursor(row, col))
 }
 
 // Public Methods for Services (used by domain services)
@@ -397,8 +394,8 @@ func (t *TextArea) ensureCursorVisible() {
 	if row < t.scrollRow {
 		t.scrollRow = row
 	}
-	if row >= t.scrollRow+t.height {
-		t.scrollRow = row - t.height + 1
+	if height := max(t.height, 1); row >= t.scrollRow+height {
+		t.scrollRow = row - height + 1
 	}
 
 	// Horizontal scrolling (if no wrap)
diff --git a/components/input/textarea.go b/components/input/textarea.go
index 2439cea..0de3296 100644
--- a/components/input/textarea.go
+++ b/components/input/textarea.go
@@ -145,7 +145,7 @@ func (t TextArea) Value() string {
 
 // SetValue replaces all text.
 func (t TextArea) SetValue(text string) TextArea {
-	t.model = t.model.WithBuffer(model.NewBufferFromString(text))
+	t.model = t.model.WithBuffer(model.NewBufferFromString(text)).SetCursorPosition(0, 0)
 	return t
 }
 
-- 
2.43.0


From cf3979402f874169e9697ac8c004a2b17811c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 34/68] fix: enforce a text area's character and line limits on
 every edit

---
 .../textarea/domain/model/textarea.go         |  5 ++++
 .../textarea/domain/service/editing.go        | 25 ++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index fcff597..460f296 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -261,6 +261,11 @@ func (t *TextArea) ShowCursor() bool {
 	return t.showCursor
 }
 
+// MaxChars returns maximum character limit (0 = unlimited).
+func (t *TextArea) MaxChars() int {
+	return t.maxChars
+}
+
 // MaxLines returns the maximum number of lines (0 = unlimited).
 func (t *TextArea) MaxLines() int {
 	return t.maxLines
diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 8f8ce7d..266e6a6 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -18,6 +18,10 @@ func (s *EditingService) InsertChar(ta *model.TextArea, ch rune) *model.TextArea
 		return ta // Read-only
 	}
 
+	if atMaxChars(ta) {
+		return ta // Character limit reached
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -137,6 +141,10 @@ func (s *EditingService) InsertNewline(ta *model.TextArea) *model.TextArea {
 		return ta
 	}
 
+	if atMaxChars(ta) {
+		return ta // Character limit reached
+	}
+
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
@@ -332,8 +340,18 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
-	// Insert each character.
+	maxLines, maxChars := ta.MaxLines(), ta.MaxChars()
+	chars := len([]rune(ta.Value()))
+
+	// Insert each character, as far as the limits allow.
 	for _, ch := range text {
+		if maxChars > 0 && chars >= maxChars {
+			break
+		}
+		if ch == '\n' && maxLines > 0 && buffer.LineCount() >= maxLines {
+			break
+		}
+		chars++
 		if ch == '\n' {
 			// Insert newline.
 			buffer = buffer.InsertNewline(row, col)
@@ -349,3 +367,8 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	newCursor := model.NewCursor(row, col)
 	return ta.WithBuffer(buffer).WithCursor(newCursor)
 }
+
+// atMaxChars reports whether the text (line breaks included) has reached the character limit.
+func atMaxChars(ta *model.TextArea) bool {
+	return ta.MaxChars() > 0 && len([]rune(ta.Value())) >= ta.MaxChars()
+}
-- 
2.43.0


From 8a0e4fbfa5cdb7a788f0d6fefbebd081b0388b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 35/68] fix: do not share field storage between forms built
 from one another

---
 components/form/form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index f6a6752..cc34d7e 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -73,7 +73,8 @@ func New(title string) *Form {
 func (f *Form) Field(name, label string, fieldModel value.FieldModel, validators ...value.Validator) *Form {
 	field := value.NewField(name, label, fieldModel).WithValidators(validators...)
 
-	fields := append(f.domain.Fields(), field)
+	old := f.domain.Fields()
+	fields := append(old[:len(old):len(old)], field)
 
 	// Update field name mapping
 	newFieldNames := make(map[string]int, len(f.fieldNames)+1)
-- 
2.43.0


From 72a721fcfa4af6883fce8ee0838bf5aaa134795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 36/68] fix: pass messages to form fields whose Update returns
 their own type

---
 components/form/form.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index cc34d7e..a3e08de 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -38,6 +38,7 @@
 package form
 
 import (
+	"reflect"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/components/form/internal/domain/model"
@@ -228,14 +229,9 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	focusedField := f.domain.Fields()[focusedIndex]
 
 	// Update the focused field's model
-	if updater, ok := focusedField.Model().(interface {
-		Update(tea.Msg) (value.FieldModel, tea.Cmd)
-	}); ok {
-		newModel, cmd := updater.Update(msg)
-		newDomain := f.domain.UpdateField(focusedIndex, newModel)
-
+	if newModel, cmd, ok := updateModel(focusedField.Model(), msg); ok {
 		newForm := &Form{
-			domain:     newDomain,
+			domain:     f.domain.UpdateField(focusedIndex, newModel),
 			keymap:     f.keymap,
 			fieldNames: f.fieldNames,
 		}
@@ -246,6 +242,35 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	return f, nil
 }
 
+// updateModel passes a message to a field model that has an Update(tea.Msg) (M, tea.Cmd) method.
+// Components return their own concrete type M, so the method is found by its shape.
+func updateModel(m value.FieldModel, msg tea.Msg) (value.FieldModel, tea.Cmd, bool) {
+	update := reflect.ValueOf(m).MethodByName("Update")
+	if !update.IsValid() {
+		return nil, nil, false
+	}
+
+	t := update.Type()
+	if t.NumIn() != 1 || t.In(0) != reflect.TypeFor[tea.Msg]() ||
+		t.NumOut() != 2 || t.Out(1) != reflect.TypeFor[tea.Cmd]() {
+		return nil, nil, false
+	}
+
+	arg := reflect.New(t.In(0)).Elem()
+	if msg != nil {
+		arg.Set(reflect.ValueOf(msg))
+	}
+
+	out := update.Call([]reflect.Value{arg})
+	newModel, ok := out[0].Interface().(value.FieldModel)
+	if !ok {
+		return nil, nil, false
+	}
+
+	cmd, _ := out[1].Interface().(tea.Cmd)
+	return newModel, cmd, true
+}
+
 // extractFieldValues extracts values from field models.
 // This assumes field models have a Value() method (like TextInput).
 func (f *Form) extractFieldValues() map[string]interface{} {
-- 
2.43.0


From 9966d3e46b1c6431e95c4e155e0daa6dfefe3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 37/68] fix: validate form fields that hold no value

---
 components/form/internal/domain/model/form.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/components/form/internal/domain/model/form.go b/components/form/internal/domain/model/form.go
index 5123b69..2e289da 100644
--- a/components/form/internal/domain/model/form.go
+++ b/components/form/internal/domain/model/form.go
@@ -175,11 +175,8 @@ func (f *Form) ValidateAll(fieldValues map[string]interface{}) *Form {
 	for i, field := range newFields {
 		var errors []error
 
-		// Get value for this field
-		fieldValue, ok := fieldValues[field.Name()]
-		if !ok {
-			continue
-		}
+		// Get value for this field (nil if it has none, such as a choice not made yet)
+		fieldValue := fieldValues[field.Name()]
 
 		// Run all validators
 		for _, validator := range field.Validators() {
-- 
2.43.0


From bb1c519e3e791cf9aa7af1ff75c83a17498a4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 38/68] fix: validate the selected value of form fields that
 offer typed choices

---
 components/form/form.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index a3e08de..1bd0b7e 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -242,6 +242,22 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	return f, nil
 }
 
+// selectedValue calls the SelectedValue() (T, bool) method of a field model that has one.
+func selectedValue(m value.FieldModel) (val interface{}, selected, ok bool) {
+	method := reflect.ValueOf(m).MethodByName("SelectedValue")
+	if !method.IsValid() {
+		return nil, false, false
+	}
+
+	t := method.Type()
+	if t.NumIn() != 0 || t.NumOut() != 2 || t.Out(1).Kind() != reflect.Bool {
+		return nil, false, false
+	}
+
+	out := method.Call(nil)
+	return out[0].Interface(), out[1].Bool(), true
+}
+
 // updateModel passes a message to a field model that has an Update(tea.Msg) (M, tea.Cmd) method.
 // Components return their own concrete type M, so the method is found by its shape.
 func updateModel(m value.FieldModel, msg tea.Msg) (value.FieldModel, tea.Cmd, bool) {
@@ -281,13 +297,13 @@ func (f *Form) extractFieldValues() map[string]interface{} {
 		switch valuer := field.Model().(type) {
 		case interface{ Value() string }:
 			result[field.Name()] = valuer.Value()
-		case interface{ SelectedValue() (interface{}, bool) }:
-			if val, ok := valuer.SelectedValue(); ok {
+		default:
+			if val, selected, ok := selectedValue(field.Model()); !ok {
+				// Default: use the model itself as value
+				result[field.Name()] = field.Model()
+			} else if selected {
 				result[field.Name()] = val
 			}
-		default:
-			// Default: use the model itself as value
-			result[field.Name()] = field.Model()
 		}
 	}
 
-- 
2.43.0


From a4d3d3ef17985c1721ff512c241fa34e94ca8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 39/68] fix: count characters, not bytes, in the form's length
 validators

---
 components/form/internal/domain/value/validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/form/internal/domain/value/validator.go b/components/form/internal/domain/value/validator.go
index f77dc63..8329e27 100644
--- a/components/form/internal/domain/value/validator.go
+++ b/components/form/internal/domain/value/validator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // Validator is a function that validates a value and returns an error if invalid.
@@ -36,7 +37,7 @@ func MinLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) < n {
+		if utf8.RuneCountInString(str) < n {
 			return fmt.Errorf("must be at least %d characters", n)
 		}
 
@@ -52,7 +53,7 @@ func MaxLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) > n {
+		if utf8.RuneCountInString(str) > n {
 			return fmt.Errorf("must be at most %d characters", n)
 		}
 
-- 
2.43.0


From 14314c408915be2a4cd5c9d9aea60bde03192309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 40/68] fix: underline form titles across their cells and put
 each error on its own line

---
 components/form/form.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index 1bd0b7e..b6473d1 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -46,6 +46,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/form/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Form is the public API for the form container component.
@@ -318,7 +319,7 @@ func (f *Form) View() string {
 	if f.domain.Title() != "" {
 		b.WriteString(f.domain.Title())
 		_ = b.WriteByte('\n')
-		b.WriteString(strings.Repeat("─", len(f.domain.Title())))
+		b.WriteString(strings.Repeat("─", uniseg.StringWidth(f.domain.Title())))
 		_ = b.WriteByte('\n')
 		_ = b.WriteByte('\n')
 	}
@@ -370,7 +371,10 @@ func (f *Form) renderField(b *strings.Builder, field *value.Field, focused bool)
 	// Render errors
 	if len(field.Errors()) > 0 {
 		_ = b.WriteByte('\n')
-		for _, err := range field.Errors() {
+		for i, err := range field.Errors() {
+			if i > 0 {
+				_ = b.WriteByte('\n')
+			}
 			b.WriteString("✗ ")
 			b.WriteString(err.Error())
 		}
-- 
2.43.0


From e3fe21a26b18cb632a3f974e606a54c6ef452021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 41/68] fix: pad style boxes to a rectangle and measure them
 without escape sequences

---
 .../domain/service/spacing_calculator.go      | 23 +++++++++++++++----
 .../internal/domain/service/visible_width.go  | 15 ++++++++++++
 2 files changed, 33 insertions(+), 5 deletions(-)
 create mode 100644 style/internal/domain/service/visible_width.go

diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index 4154279..0d13207 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -67,7 +66,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	leftPad := strings.Repeat(" ", padding.Left())
 	rightPad := strings.Repeat(" ", padding.Right())
 
-	for _, line := range lines {
+	for _, line := range fillLines(lines) {
 		paddedLine := leftPad + line + rightPad
 		paddedLines = append(paddedLines, paddedLine)
 	}
@@ -80,7 +79,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	// Use the first line's width if available.
 	emptyLineWidth := padding.Left() + padding.Right()
 	if len(paddedLines) > 0 {
-		emptyLineWidth = core.StringWidth(paddedLines[0])
+		emptyLineWidth = VisibleWidth(paddedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -116,7 +115,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	leftMargin := strings.Repeat(" ", margin.Left())
 	rightMargin := strings.Repeat(" ", margin.Right())
 
-	for _, line := range lines {
+	for _, line := range fillLines(lines) {
 		marginedLine := leftMargin + line + rightMargin
 		marginedLines = append(marginedLines, marginedLine)
 	}
@@ -128,7 +127,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	// Calculate width of margined lines for empty margin lines.
 	emptyLineWidth := margin.Left() + margin.Right()
 	if len(marginedLines) > 0 {
-		emptyLineWidth = core.StringWidth(marginedLines[0])
+		emptyLineWidth = VisibleWidth(marginedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -153,3 +152,17 @@ func (sc *DefaultSpacingCalculator) ApplyBoth(content string, padding value2.Pad
 	padded := sc.ApplyPadding(content, padding)
 	return sc.ApplyMargin(padded, margin)
 }
+
+// fillLines fills all lines up to the width of the widest one.
+func fillLines(lines []string) []string {
+	width := 0
+	for _, line := range lines {
+		width = max(width, VisibleWidth(line))
+	}
+
+	filled := make([]string, len(lines))
+	for i, line := range lines {
+		filled[i] = line + strings.Repeat(" ", width-VisibleWidth(line))
+	}
+	return filled
+}
diff --git a/style/internal/domain/service/visible_width.go b/style/internal/domain/service/visible_width.go
new file mode 100644
index 0000000..e40a09a
--- /dev/null
+++ b/style/internal/domain/service/visible_width.go
@@ -0,0 +1,15 @@
+package service
+
+import (
+	"regexp"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// ansiSequence matches the escape sequences that styled content contains.
+var ansiSequence = regexp.MustCompile("\x1b\\[[0-9;:?]*[@-~]")
+
+// VisibleWidth returns the number of terminal cells a line of (styled) text occupies.
+func VisibleWidth(line string) int {
+	return core.StringWidth(ansiSequence.ReplaceAllString(line, ""))
+}
-- 
2.43.0


From 1171f721fc0b66b36b343c10602d86f40c017a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 42/68] fix: cut aligned text to whole characters instead of
 bytes

---
 style/internal/domain/service/text_aligner.go | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..f6f7069 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -37,11 +36,11 @@ func NewTextAligner() TextAligner {
 // Handles Unicode correctly by using visual width, not string length.
 func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment value.HorizontalAlignment) string {
 	// Calculate actual visual width of text.
-	textWidth := core.StringWidth(text)
+	textWidth := VisibleWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		text, textWidth = truncate(text, width) // Simple truncation for now
 	}
 
 	// If text fits exactly, return as-is.
@@ -97,7 +96,7 @@ func (ta *DefaultTextAligner) AlignVertical(text string, height int, alignment v
 	// Determine width for empty lines (use max line width).
 	emptyLineWidth := 0
 	for _, line := range lines {
-		lineWidth := core.StringWidth(line)
+		lineWidth := VisibleWidth(line)
 		if lineWidth > emptyLineWidth {
 			emptyLineWidth = lineWidth
 		}
@@ -171,3 +170,16 @@ func (ta *DefaultTextAligner) AlignBoth(text string, width, height int, alignmen
 	horizontallyAligned := strings.Join(alignedLines, "\n")
 	return ta.AlignVertical(horizontallyAligned, height, alignment.Vertical())
 }
+
+// truncate cuts text to the whole characters that fit into the given width.
+// Escape sequences take no space and are all kept. Returns the text and its width.
+func truncate(text string, width int) (cut string, cutWidth int) {
+	end, total := 0, VisibleWidth(text)
+	for i := range text {
+		// Between whole characters (and sequences) the widths of both parts add up.
+		if w := VisibleWidth(text[:i]); w <= width && w+VisibleWidth(text[i:]) == total {
+			end, cutWidth = i, w
+		}
+	}
+	return text[:end] + strings.Join(ansiSequence.FindAllString(text[end:], -1), ""), cutWidth
+}
-- 
2.43.0


From d54e0abe9cc68e96f11e7e1ced34d4f43e743ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 43/68] fix: align every line of a text, not the text as one
 line

---
 style/internal/application/command/render.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index aa92847..08c813f 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -112,7 +112,11 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		if targetWidth > 0 && targetHeight > 0 {
 			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
 		} else if targetWidth > 0 {
-			content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
+			lines := strings.Split(content, "\n")
+			for i, line := range lines {
+				lines[i] = rc.textAligner.AlignHorizontal(line, targetWidth, alignment.Horizontal())
+			}
+			content = strings.Join(lines, "\n")
 		} else if targetHeight > 0 {
 			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
 		}
-- 
2.43.0


From 4b89ceeaba3957514f8e5815302aff210f32d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 44/68] fix: make an exact size take effect without an
 alignment too

---
 style/internal/application/command/render.go | 30 +++++++++++---------
 style/style.go                               |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 08c813f..ae356da 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -18,7 +18,7 @@ import (
 // Pipeline:.
 //  1. Style validation.
 //  2. Size validation (if size constraints set).
-//  3. Text alignment (if alignment set).
+//  3. Text alignment (if an exact size is set).
 //  4. Apply padding (if padding set).
 //  5. Apply border (if border set).
 //  6. Apply margin (if margin set).
@@ -107,19 +107,23 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 	}
 
 	// 3. Text alignment (before padding/border).
-	//nolint:gocritic,nestif // ifElseChain: Sequential checks are clearer; nestif: Optional properties require nested checks
-	if alignment, ok := style.GetAlignment(); ok {
-		if targetWidth > 0 && targetHeight > 0 {
-			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
-		} else if targetWidth > 0 {
-			lines := strings.Split(content, "\n")
-			for i, line := range lines {
-				lines[i] = rc.textAligner.AlignHorizontal(line, targetWidth, alignment.Horizontal())
-			}
-			content = strings.Join(lines, "\n")
-		} else if targetHeight > 0 {
-			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
+	// An exact size without an alignment means top left.
+	alignment, ok := style.GetAlignment()
+	if !ok {
+		alignment = value.NewAlignment(value.AlignLeft, value.AlignTop)
+	}
+
+	//nolint:gocritic // ifElseChain: Sequential checks are clearer
+	if targetWidth > 0 && targetHeight > 0 {
+		content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
+	} else if targetWidth > 0 {
+		lines := strings.Split(content, "\n")
+		for i, line := range lines {
+			lines[i] = rc.textAligner.AlignHorizontal(line, targetWidth, alignment.Horizontal())
 		}
+		content = strings.Join(lines, "\n")
+	} else if targetHeight > 0 {
+		content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
 	}
 
 	// 4. Apply padding.
diff --git a/style/style.go b/style/style.go
index 6591cc7..57aa007 100644
--- a/style/style.go
+++ b/style/style.go
@@ -237,7 +237,7 @@ func New() Style {
 // The rendering pipeline:
 //  1. Style validation
 //  2. Size validation (if size constraints set)
-//  3. Text alignment (if alignment set)
+//  3. Text alignment (if an exact size is set)
 //  4. Apply padding (if padding set)
 //  5. Apply border (if border set)
 //  6. Apply margin (if margin set)
-- 
2.43.0


From 1f2ae450ae06c851bec9f5a946220df4e96a5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 45/68] fix: colour each piece of a border on its own, with the
 same colours as text

---
 .../application/command/border_renderer.go    | 179 ++----------------
 style/internal/application/command/render.go  |   2 +-
 2 files changed, 21 insertions(+), 160 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 4147202..88d7a4c 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -4,8 +4,8 @@ package command
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
+	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
@@ -13,14 +13,17 @@ import (
 // BorderRenderer handles border rendering around content.
 // This is a helper for RenderCommand that encapsulates border logic.
 type BorderRenderer struct {
+	colorAdapter  service2.ColorAdapter
 	ansiGenerator *ansi.ANSICodeGenerator
 }
 
 // NewBorderRenderer creates a new BorderRenderer.
 func NewBorderRenderer(
+	colorAdapter service2.ColorAdapter,
 	ansiGenerator *ansi.ANSICodeGenerator,
 ) *BorderRenderer {
 	return &BorderRenderer{
+		colorAdapter:  colorAdapter,
 		ansiGenerator: ansiGenerator,
 	}
 }
@@ -59,22 +62,18 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 	// Top border.
 	if hasTop {
 		topLine := br.buildTopBorder(border, maxWidth, hasLeft, hasRight)
-		topLine = br.applyBorderColor(topLine, style)
-		result = append(result, topLine)
+		result = append(result, br.paint(topLine, style))
 	}
 
 	// Content lines with left/right borders.
 	for _, line := range lines {
-		borderedLine := br.buildContentLine(line, border, maxWidth, hasLeft, hasRight)
-		borderedLine = br.applyBorderColorToSides(borderedLine, border, style, hasLeft, hasRight)
-		result = append(result, borderedLine)
+		result = append(result, br.buildContentLine(line, border, maxWidth, hasLeft, hasRight, style))
 	}
 
 	// Bottom border.
 	if hasBottom {
 		bottomLine := br.buildBottomBorder(border, maxWidth, hasLeft, hasRight)
-		bottomLine = br.applyBorderColor(bottomLine, style)
-		result = append(result, bottomLine)
+		result = append(result, br.paint(bottomLine, style))
 	}
 
 	return strings.Join(result, "\n")
@@ -84,7 +83,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 func (br *BorderRenderer) calculateMaxWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.VisibleWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
@@ -133,9 +132,9 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 }
 
 // buildContentLine builds a content line with left/right borders.
-func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool) string {
+func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool, style model.Style) string {
 	// Calculate padding needed to reach target width.
-	currentWidth := core.StringWidth(line)
+	currentWidth := service2.VisibleWidth(line)
 	paddingWidth := targetWidth - currentWidth
 	if paddingWidth < 0 {
 		paddingWidth = 0
@@ -148,7 +147,7 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Left border.
 	if hasLeft {
-		parts = append(parts, border.Left)
+		parts = append(parts, br.paint(border.Left, style))
 	}
 
 	// Content.
@@ -156,162 +155,24 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Right border.
 	if hasRight {
-		parts = append(parts, border.Right)
+		parts = append(parts, br.paint(border.Right, style))
 	}
 
 	return strings.Join(parts, "")
 }
 
-// applyBorderColor applies border color to entire line.
-func (br *BorderRenderer) applyBorderColor(line string, style model.Style) string {
+// paint colors a piece of the border.
+func (br *BorderRenderer) paint(piece string, style model.Style) string {
 	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
+	if !hasBorderColor || piece == "" {
+		return piece
 	}
 
 	// Adapt color to terminal capability.
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-
-	return ansiCode + line + br.ansiGenerator.Reset()
-}
-
-// applyBorderColorToSides applies border color only to left/right border characters.
-// This is more complex because we need to color only the border chars, not the content.
-func (br *BorderRenderer) applyBorderColorToSides(line string, _ value2.Border, style model.Style, hasLeft, hasRight bool) string {
-	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
-	}
-
-	// If neither side has border, return as-is.
-	if !hasLeft && !hasRight {
-		return line
-	}
-
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-	reset := br.ansiGenerator.Reset()
-
-	// Split line to color only border characters.
-	runes := []rune(line)
-	var result strings.Builder
-
-	// Left border (first character).
-	if hasLeft && len(runes) > 0 {
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[0])
-		result.WriteString(reset)
-		runes = runes[1:]
-	}
-
-	// Middle content (no color).
-	if hasRight && len(runes) > 0 {
-		// All but last character.
-		result.WriteString(string(runes[:len(runes)-1]))
-
-		// Right border (last character).
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[len(runes)-1])
-		result.WriteString(reset)
-	} else {
-		// No right border, write remaining content.
-		result.WriteString(string(runes))
-	}
-
-	return result.String()
-}
-
-// colorToANSI converts a Color to ANSI code based on terminal capability.
-func (br *BorderRenderer) colorToANSI(color value2.Color, termCap value2.TerminalCapability, isForeground bool) string {
-	r, g, b := color.RGB()
-
-	switch termCap {
-	case value2.TrueColor:
-		if isForeground {
-			return br.ansiGenerator.Foreground(r, g, b)
-		}
-		return br.ansiGenerator.Background(r, g, b)
-
-	case value2.ANSI256:
-		// Convert RGB to 256-color palette.
-		code := br.rgbTo256(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground256(code)
-		}
-		return br.ansiGenerator.Background256(code)
-
-	case value2.ANSI16:
-		// Convert RGB to 16-color palette.
-		code := br.rgbTo16(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground16(code)
-		}
-		return br.ansiGenerator.Background16(code)
-
-	default:
-		return ""
-	}
-}
-
-// rgbTo256 converts RGB to 256-color palette index.
-// Uses 6x6x6 color cube + grayscale ramp.
-func (br *BorderRenderer) rgbTo256(r, g, b uint8) uint8 {
-	// Grayscale detection.
-	if r == g && g == b {
-		// Use grayscale ramp (232-255).
-		if r < 8 {
-			return 16 // black
-		}
-		if r > 247 {
-			return 231 // white
-		}
-		//nolint:gosec // G115: Overflow impossible - result range 0-24 from (r-8)/10 where r ∈ [8,247]
-		return 232 + uint8((int(r)-8)/10)
-	}
-
-	// Color cube (16-231): 16 + 36*R + 6*G + B.
-	// Where R, G, B are in range 0-5.
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (r*6)/256 where r ∈ [0,255]
-	r6 := uint8((int(r) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (g*6)/256
-	g6 := uint8((int(g) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (b*6)/256
-	b6 := uint8((int(b) * 6) / 256)
-
-	return 16 + 36*r6 + 6*g6 + b6
-}
-
-// rgbTo16 converts RGB to 16-color palette index.
-// Maps to basic ANSI colors (0-15).
-func (br *BorderRenderer) rgbTo16(r, g, b uint8) uint8 {
-	// Calculate brightness.
-	brightness := (int(r) + int(g) + int(b)) / 3
-
-	// Determine if color is bright (8-15) or normal (0-7).
-	bright := brightness > 128
-
-	// Determine dominant color.
-	red := r > 128
-	green := g > 128
-	blue := b > 128
-
-	// Build color code.
-	var code uint8
-	if red {
-		code |= 1
-	}
-	if green {
-		code |= 2
-	}
-	if blue {
-		code |= 4
-	}
-
-	// Add bright bit.
-	if bright {
-		code |= 8
+	ansiCode := br.colorAdapter.ToANSIForeground(borderColor, style.GetTerminalCapability())
+	if ansiCode == "" {
+		return piece
 	}
 
-	return code
+	return ansiCode + piece + br.ansiGenerator.Reset()
 }
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index ae356da..ec12fc9 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -50,7 +50,7 @@ func NewRenderCommand(
 		spacingCalculator: spacingCalculator,
 		textAligner:       textAligner,
 		ansiGenerator:     ansiGenerator,
-		borderRenderer:    NewBorderRenderer(ansiGenerator),
+		borderRenderer:    NewBorderRenderer(colorAdapter, ansiGenerator),
 	}
 }
 
-- 
2.43.0


From 6fa5405259f111209c79d0d8afa4b1210cd210c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 46/68] fix: count only the border sides that are drawn in size
 limits

---
 style/internal/application/command/render.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index ec12fc9..3fb1e98 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -79,11 +79,15 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		}
 
 		// Add border dimensions.
-		if style.GetBorderLeft() || style.GetBorderRight() {
-			contentWidth += 2 // Left + right border
+		for _, side := range []bool{style.GetBorderLeft(), style.GetBorderRight()} {
+			if side {
+				contentWidth++
+			}
 		}
-		if style.GetBorderTop() || style.GetBorderBottom() {
-			contentHeight += 2 // Top + bottom border
+		for _, side := range []bool{style.GetBorderTop(), style.GetBorderBottom()} {
+			if side {
+				contentHeight++
+			}
 		}
 
 		// Add margin dimensions.
-- 
2.43.0


From d97a37c03891d85c86c02469c7614d3ef3e3a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 47/68] fix: draw nothing at all for a hidden border

---
 style/internal/application/command/border_renderer.go | 4 ++--
 style/internal/application/command/render.go          | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 88d7a4c..d4e83a0 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -42,8 +42,8 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 	hasLeft := style.GetBorderLeft()
 	hasRight := style.GetBorderRight()
 
-	// If no sides enabled, return content as-is.
-	if !hasTop && !hasBottom && !hasLeft && !hasRight {
+	// If no sides enabled (or nothing to draw them with), return content as-is.
+	if border.IsHidden() || (!hasTop && !hasBottom && !hasLeft && !hasRight) {
 		return content
 	}
 
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 3fb1e98..758fd81 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -78,14 +78,16 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 			contentHeight += padding.Top() + padding.Bottom()
 		}
 
-		// Add border dimensions.
+		// Add border dimensions (a hidden border takes no space).
+		border, hasBorder := style.GetBorder()
+		hasBorder = hasBorder && !border.IsHidden()
 		for _, side := range []bool{style.GetBorderLeft(), style.GetBorderRight()} {
-			if side {
+			if side && hasBorder {
 				contentWidth++
 			}
 		}
 		for _, side := range []bool{style.GetBorderTop(), style.GetBorderBottom()} {
-			if side {
+			if side && hasBorder {
 				contentHeight++
 			}
 		}
-- 
2.43.0


From 995163f09f5e286d08d05bbd578761efd3aaf57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 48/68] fix: keep colours and decorations of a box after a
 coloured border piece

---
 style/internal/application/command/render.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 758fd81..65d6f10 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -234,9 +234,7 @@ func (rc *RenderCommand) applyColors(content string, style model.Style) string {
 
 	// Apply colors to entire content.
 	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
-
-	return prefix + content + suffix
+	return rc.wrap(content, prefix)
 }
 
 // applyDecorations applies text decorations (bold, italic, underline, strikethrough).
@@ -263,7 +261,11 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 
 	// Apply decorations to entire content.
 	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
+	return rc.wrap(content, prefix)
+}
 
-	return prefix + content + suffix
+// wrap applies codes to content, also after each piece of it (like a border) that has colors of its own.
+func (rc *RenderCommand) wrap(content, codes string) string {
+	reset := rc.ansiGenerator.Reset()
+	return codes + strings.ReplaceAll(content, reset, reset+codes) + reset
 }
-- 
2.43.0


From 29ce748b83de6e00ce8a7477d929750ae6617a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 49/68] fix: choose the closest colour of the 256-colour
 palette

---
 .../internal/domain/service/color_adapter.go  | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/style/internal/domain/service/color_adapter.go b/style/internal/domain/service/color_adapter.go
index 48ff5e0..e980941 100644
--- a/style/internal/domain/service/color_adapter.go
+++ b/style/internal/domain/service/color_adapter.go
@@ -88,33 +88,42 @@ func (a *DefaultColorAdapter) toANSI256Background(color value2.Color) string {
 func (a *DefaultColorAdapter) rgbToANSI256(color value2.Color) uint8 {
 	r, g, b := color.RGB()
 
-	// Check if it's close to a grayscale value (232-255).
+	gray := (uint16(r) + uint16(g) + uint16(b)) / 3
+
+	// Too close to black or white for the grayscale range.
 	if isGrayish(r, g, b) {
-		// Map to grayscale range (232-255): 24 shades from near-black to near-white.
-		// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232.
-		gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 		if gray < 8 {
 			return 16 // Use black from color cube
 		}
 		if gray > 238 {
 			return 231 // Use white from color cube
 		}
-		code := (gray-8)/10 + 232
-		//nolint:gosec // G115: Overflow impossible - result range 232-255
-		return uint8(code)
 	}
 
-	// Use 6x6x6 RGB color cube (16-231).
+	// Closest of the grayscale range (232-255): 24 shades from near-black to near-white.
+	shade := min(max(int(math.Round(((float64(r)+float64(g)+float64(b))/3-8)/10)), 0), 23)
+	//nolint:gosec // G115: Overflow impossible - result range 8-238
+	level := uint8(8 + 10*shade)
+
+	// Closest of the 6x6x6 RGB color cube (16-231).
 	// Map RGB (0-255) to cube index (0-5).
 	rCube := rgbToCubeIndex(r)
 	gCube := rgbToCubeIndex(g)
 	bCube := rgbToCubeIndex(b)
 
+	if colorDistance(r, g, b, level, level, level) <
+		colorDistance(r, g, b, cubeIntensities[rCube], cubeIntensities[gCube], cubeIntensities[bCube]) {
+		//nolint:gosec // G115: Overflow impossible - result range 232-255
+		return uint8(232 + shade)
+	}
+
 	// Calculate ANSI 256 code: 16 + 36*r + 6*g + b.
-	code := 16 + 36*rCube + 6*gCube + bCube
-	return code
+	return 16 + 36*rCube + 6*gCube + bCube
 }
 
+// cubeIntensities are the standard intensity levels of the 6x6x6 cube.
+var cubeIntensities = [6]uint8{0, 95, 135, 175, 215, 255}
+
 // isGrayish returns true if the color is close to grayscale (low color variance).
 func isGrayish(r, g, b uint8) bool {
 	avg := (uint16(r) + uint16(g) + uint16(b)) / 3
@@ -130,11 +139,10 @@ func isGrayish(r, g, b uint8) bool {
 //
 //nolint:gocritic // importShadow: 'value' parameter is clear in this domain context
 func rgbToCubeIndex(value uint8) uint8 {
-	intensities := []uint8{0, 95, 135, 175, 215, 255}
 	closestIndex := uint8(0)
 	closestDistance := uint8(255)
 
-	for i, intensity := range intensities {
+	for i, intensity := range cubeIntensities {
 		distance := absDiff(value, intensity)
 		if distance < closestDistance {
 			closestDistance = distance
-- 
2.43.0


From 155da609bc2e80b4e77c9ece8e5058fdba1a818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 50/68] fix: measure layout boxes in terminal cells and pad
 every line of them

---
 .../internal/domain/service/render_service.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..c4f2e32 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -4,6 +4,7 @@ package service
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 )
 
@@ -143,18 +144,12 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		// Add content
 		line += contentLine
 
-		// Add right padding to align right border
-		lineWidth := len(contentLine)
-		spacesNeeded := contentWidth - lineWidth
-
-		// Only pad to contentWidth if we have a border (to align it)
-		// Without border, no alignment padding needed
-		if hasBorder {
-			line += strings.Repeat(" ", spacesNeeded) + strings.Repeat(" ", totalPaddingRight)
-		} else {
-			// Without border, just add explicit padding (if any)
-			line += strings.Repeat(" ", totalPaddingRight)
+		// Pad to the width of the content, so that every line of the box is equally wide
+		// (bare text without anything around it stays as it is)
+		if hasBorder || !padding.IsZero() || !margin.IsZero() {
+			line += strings.Repeat(" ", contentWidth-core.StringWidth(contentLine))
 		}
+		line += strings.Repeat(" ", totalPaddingRight)
 
 		if hasBorder {
 			line += "│"
@@ -211,7 +206,7 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From fbd03204a2d5cdb2e91ac28553f3c44d34baf08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 51/68] fix: apply the size constraints of a layout box to what
 it renders

---
 .../internal/domain/service/render_service.go | 48 ++++++++++++++++++-
 layout/layout.go                              | 13 +----
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index c4f2e32..cfcfc15 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -88,6 +88,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 
 	// Calculate widths
 	contentWidth := rs.calculateContentWidth(contentLines)
+	contentLines, contentWidth = rs.fitContent(box, contentLines, contentWidth)
 
 	// Calculate total padding (explicit + implicit for borders)
 	// When border is enabled, add 1-space aesthetic padding between border and content
@@ -146,7 +147,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 
 		// Pad to the width of the content, so that every line of the box is equally wide
 		// (bare text without anything around it stays as it is)
-		if hasBorder || !padding.IsZero() || !margin.IsZero() {
+		if hasBorder || !padding.IsZero() || !margin.IsZero() || !box.Size().IsUnconstrained() {
 			line += strings.Repeat(" ", contentWidth-core.StringWidth(contentLine))
 		}
 		line += strings.Repeat(" ", totalPaddingRight)
@@ -201,6 +202,51 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 	return rs.Render(node.Box())
 }
 
+// fitContent applies the size constraints of the box to its content: the content is
+// cut to the space which the constraints leave for it, or aligned within that space.
+// Returns the content lines and the width of the content area.
+func (rs *RenderService) fitContent(box *model2.Box, lines []string, width int) (fitted []string, fittedWidth int) {
+	size := box.Size()
+	if size.IsUnconstrained() {
+		return lines, width
+	}
+
+	// Everything around the content
+	frameWidth := box.Padding().Horizontal() + box.Margin().Horizontal()
+	frameHeight := box.Padding().Vertical() + box.Margin().Vertical()
+	if box.HasBorder() {
+		frameWidth += 4 // Border characters and the spacing next to them
+		frameHeight += 2
+	}
+
+	totalWidth, totalHeight := size.Constrain(width+frameWidth, len(lines)+frameHeight)
+	areaWidth, areaHeight := max(0, totalWidth-frameWidth), max(0, totalHeight-frameHeight)
+	left, top := box.Alignment().CalculateOffsets(width, len(lines), areaWidth, areaHeight)
+
+	result := make([]string, areaHeight)
+	for i, line := range lines {
+		if top+i < areaHeight {
+			result[top+i] = strings.Repeat(" ", left) + Truncate(line, areaWidth-left)
+		}
+	}
+	return result, areaWidth
+}
+
+// Truncate cuts a line to the whole characters that fit into the given width.
+func Truncate(line string, width int) string {
+	end, total := 0, core.StringWidth(line)
+	for i := range line {
+		// Between whole characters the widths of both parts add up.
+		if w := core.StringWidth(line[:i]); w <= width && w+core.StringWidth(line[i:]) == total {
+			end = i
+		}
+	}
+	if total <= width {
+		end = len(line)
+	}
+	return line[:end]
+}
+
 // calculateContentWidth finds the maximum line width in content.
 // This is a simple character count (Unicode width handled by caller if needed).
 func (rs *RenderService) calculateContentWidth(lines []string) int {
diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..e5b3a95 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -399,18 +399,7 @@ func (b *Box) Align(horizontal value2.HorizontalAlignment, vertical value2.Verti
 //		Render()
 //	fmt.Println(output)
 func (b *Box) Render() string {
-	// Create services (these are lightweight)
-	measureService := service2.NewMeasureService()
-	renderService := service2.NewRenderService()
-
-	// Measure box to get natural size
-	size := measureService.Measure(b.domain)
-
-	// Update domain box with measured size (for rendering)
-	b.domain = b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
-
-	// Render the box
-	return renderService.Render(b.domain)
+	return service2.NewRenderService().Render(b.domain)
 }
 
 // String implements fmt.Stringer for convenient printing.
-- 
2.43.0


From 4c5509c5b82860150cd1514bdf303067945e5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 52/68] fix: place flex items by terminal cells instead of code
 points

---
 layout/layout.go | 48 +++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index e5b3a95..c92173a 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -83,6 +83,7 @@ package layout
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/layout/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
@@ -741,8 +742,6 @@ func (f *Flex) Height(height int) *Flex {
 //		Add(layout.NewBox("Right")).
 //		Render(80, 24)
 //	fmt.Println(output)
-//
-//nolint:gocognit // Flex rendering orchestrates multiple services
 func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Create services
 	measureService := service2.NewMeasureService()
@@ -752,50 +751,29 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Layout the flexbox
 	laidOut := flexService.Layout(f.domain, containerWidth, containerHeight)
 
-	// Render each item
-	var result strings.Builder
-
-	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
-	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
-		for j := range grid[i] {
-			grid[i][j] = ' '
-		}
-	}
-
-	// Render each item into the grid
+	// Put the lines of each item where it is; items of a row come from left to right
+	rows := make([]string, containerHeight)
 	for _, item := range laidOut.Items() {
-		itemOutput := renderService.Render(item.Box())
-		itemLines := strings.Split(itemOutput, "\n")
-
 		pos := item.Position()
-		for lineIdx, line := range itemLines {
-			y := pos.Y() + lineIdx
+		for i, line := range strings.Split(renderService.Render(item.Box()), "\n") {
+			y := pos.Y() + i
 			if y >= containerHeight {
 				break
 			}
-
-			x := pos.X()
-			for _, ch := range line {
-				if x >= containerWidth {
-					break
-				}
-				grid[y][x] = ch
-				x++
+			if left := pos.X() - core.StringWidth(rows[y]); left > 0 {
+				rows[y] += strings.Repeat(" ", left)
 			}
+			rows[y] += line
 		}
 	}
 
-	// Convert grid to string
-	for i, row := range grid {
-		result.WriteString(string(row))
-		if i < len(grid)-1 {
-			result.WriteRune('\n')
-		}
+	// Cut or pad each row to the width of the container
+	for y, row := range rows {
+		row = service2.Truncate(row, containerWidth)
+		rows[y] = row + strings.Repeat(" ", containerWidth-core.StringWidth(row))
 	}
 
-	return result.String()
+	return strings.Join(rows, "\n")
 }
 
 // String implements fmt.Stringer.
-- 
2.43.0


From 9f459ea357b06e901aca5696380245673dd8ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 53/68] fix: lay out flex items with the size they are rendered
 with

---
 layout/internal/domain/service/flexbox_layout_service.go | 2 +-
 layout/internal/domain/service/measure_service.go        | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/layout/internal/domain/service/flexbox_layout_service.go b/layout/internal/domain/service/flexbox_layout_service.go
index 998a70c..512f0f8 100644
--- a/layout/internal/domain/service/flexbox_layout_service.go
+++ b/layout/internal/domain/service/flexbox_layout_service.go
@@ -107,7 +107,7 @@ func (f *FlexboxLayoutService) measureItems(container *model2.FlexContainer) []v
 	sizes := make([]value2.Size, len(items))
 
 	for i, item := range items {
-		sizes[i] = f.measureService.Measure(item.Box())
+		sizes[i] = f.measureService.MeasureRendered(item.Box())
 	}
 
 	return sizes
diff --git a/layout/internal/domain/service/measure_service.go b/layout/internal/domain/service/measure_service.go
index 0943bd0..9224482 100644
--- a/layout/internal/domain/service/measure_service.go
+++ b/layout/internal/domain/service/measure_service.go
@@ -107,6 +107,12 @@ func (ms *MeasureService) Measure(box *model.Box) value.Size {
 	return value.NewSizeExact(finalWidth, finalHeight)
 }
 
+// MeasureRendered returns the size of the area which the box covers when it is rendered.
+// Unlike Measure it does not reserve empty lines next to a border.
+func (ms *MeasureService) MeasureRendered(box *model.Box) value.Size {
+	return value.NewSizeExact(ms.measureContent(NewRenderService().Render(box)))
+}
+
 // measureContent calculates the size of content text (Unicode-aware).
 // Multi-line content is split by \n and max width is calculated.
 //
-- 
2.43.0


From f1e41f4683a5cc0c2687662f080fd8c07d271359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 54/68] fix: put the last item of a space-between layout at the
 end of the container

---
 .../internal/domain/service/flexbox_layout_service.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/layout/internal/domain/service/flexbox_layout_service.go b/layout/internal/domain/service/flexbox_layout_service.go
index 512f0f8..69dfad0 100644
--- a/layout/internal/domain/service/flexbox_layout_service.go
+++ b/layout/internal/domain/service/flexbox_layout_service.go
@@ -204,16 +204,15 @@ func (f *FlexboxLayoutService) calculateMainAxisPositions(
 			// Single item: position at start
 			positions[0] = 0
 		} else {
-			// Calculate gap between items (excluding original gap)
-			gapBetween := remainingSpace / (len(itemSizes) - 1)
-
+			// Share the remaining space between items (excluding original gap);
+			// the last item ends at the end of the container
 			pos := 0
 			for i, size := range itemSizes {
-				positions[i] = pos
+				positions[i] = pos + remainingSpace*i/(len(itemSizes)-1)
 				if container.IsHorizontal() {
-					pos += size.Width() + gap + gapBetween
+					pos += size.Width() + gap
 				} else {
-					pos += size.Height() + gap + gapBetween
+					pos += size.Height() + gap
 				}
 			}
 		}
-- 
2.43.0


From e836d745c262b450be18b1b8dd7e85b231dac4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 55/68] fix: stretch flex items over the cross axis when asked
 to

---
 .../domain/service/flexbox_layout_service.go  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/layout/internal/domain/service/flexbox_layout_service.go b/layout/internal/domain/service/flexbox_layout_service.go
index 69dfad0..8a7cd21 100644
--- a/layout/internal/domain/service/flexbox_layout_service.go
+++ b/layout/internal/domain/service/flexbox_layout_service.go
@@ -79,6 +79,10 @@ func (f *FlexboxLayoutService) Layout(
 	items := container.Items()
 
 	for i := 0; i < len(items); i++ {
+		if container.AlignItems().RequiresStretching() {
+			items[i] = stretchItem(container, items[i], itemSizes[i], containerWidth, containerHeight)
+		}
+
 		var x, y int
 
 		if container.IsHorizontal() {
@@ -101,6 +105,27 @@ func (f *FlexboxLayoutService) Layout(
 	return result
 }
 
+// stretchItem makes an item fill the cross axis of the container, as far as its own
+// size constraints allow. An item that is larger already keeps its size.
+func stretchItem(
+	container *model2.FlexContainer,
+	item *model2.Node,
+	itemSize value2.Size,
+	containerWidth, containerHeight int,
+) *model2.Node {
+	box := item.Box()
+	size := box.Size()
+	width, height := size.Constrain(containerWidth, containerHeight)
+
+	if container.IsHorizontal() && height > itemSize.Height() {
+		return item.SetBox(box.WithSize(size.WithHeight(height)))
+	}
+	if container.IsVertical() && width > itemSize.Width() {
+		return item.SetBox(box.WithSize(size.WithWidth(width)))
+	}
+	return item
+}
+
 // measureItems measures all items and returns their sizes.
 func (f *FlexboxLayoutService) measureItems(container *model2.FlexContainer) []value2.Size {
 	items := container.Items()
-- 
2.43.0


From 05acf1fbfa4ecba6256fd769519dcd4e8ce1ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 56/68] fix: give a flex container the size set for it

---
 layout/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layout/layout.go b/layout/layout.go
index c92173a..83900e8 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -748,6 +748,9 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	flexService := service2.NewFlexboxLayoutService(measureService)
 	renderService := service2.NewRenderService()
 
+	// The container's own size takes precedence over the available space
+	containerWidth, containerHeight = f.domain.Size().Constrain(containerWidth, containerHeight)
+
 	// Layout the flexbox
 	laidOut := flexService.Layout(f.domain, containerWidth, containerHeight)
 
-- 
2.43.0


From 01a8a21a3cbfc04408b9a4a03e876c6eee0d97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 57/68] fix: accept any clipboard history size limit

The entry slice was allocated for the whole limit up front, so enabling
the history with a very large limit panicked or took all memory.
---
 clipboard/internal/domain/service/clipboard_history.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 0fce74f..dab59e4 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -32,7 +32,6 @@ func NewClipboardHistory(maxSize int, maxAge time.Duration) *ClipboardHistory {
 	}
 
 	return &ClipboardHistory{
-		entries: make([]*model.HistoryEntry, 0, maxSize),
 		maxSize: maxSize,
 		maxAge:  maxAge,
 	}
@@ -149,7 +148,7 @@ func (h *ClipboardHistory) Clear() {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
-	h.entries = make([]*model.HistoryEntry, 0, h.maxSize)
+	h.entries = nil
 }
 
 // RemoveExpired removes all entries older than maxAge.
-- 
2.43.0


From 06862c7d3277e9784fd4e47e5e9c1a438133cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 58/68] fix: list clipboard history entries of the same instant
 newest first

The sort by timestamp was not stable, so on a clock which does not tick
between two copies they were listed in any order.
---
 .../domain/service/clipboard_history.go       | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index dab59e4..64ce37d 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -3,6 +3,7 @@ package service
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"sync"
 	"time"
@@ -87,9 +88,7 @@ func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {
 	copy(result, h.entries)
 
 	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	return result
 }
@@ -109,9 +108,7 @@ func (h *ClipboardHistory) GetRecent(count int) []*model.HistoryEntry {
 	result := make([]*model.HistoryEntry, len(h.entries))
 	copy(result, h.entries)
 
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	// Limit to requested count
 	if count < len(result) {
@@ -136,9 +133,7 @@ func (h *ClipboardHistory) GetByMIMEType(mimeType value.MIMEType) []*model.Histo
 	}
 
 	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	sortNewestFirst(result)
 
 	return result
 }
@@ -267,3 +262,12 @@ func (h *ClipboardHistory) Contains(id string) bool {
 	}
 	return false
 }
+
+// sortNewestFirst orders entries, given oldest first, by timestamp with the newest first.
+// Of entries with the same timestamp the one added later comes first.
+func sortNewestFirst(entries []*model.HistoryEntry) {
+	slices.Reverse(entries)
+	sort.SliceStable(entries, func(i, j int) bool {
+		return entries[i].Timestamp().After(entries[j].Timestamp())
+	})
+}
-- 
2.43.0


From 2768efe2b44d68be7d1ce9a254e86e5c86693bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 59/68] fix: let an OSC 52 copy to a terminal succeed

The sequence was followed by an fsync, which terminals refuse, so every
copy to a real terminal was reported as failed.
---
 clipboard/internal/infrastructure/osc52/osc52_provider.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/clipboard/internal/infrastructure/osc52/osc52_provider.go b/clipboard/internal/infrastructure/osc52/osc52_provider.go
index 3d3611b..099eea7 100644
--- a/clipboard/internal/infrastructure/osc52/osc52_provider.go
+++ b/clipboard/internal/infrastructure/osc52/osc52_provider.go
@@ -53,13 +53,9 @@ func (p *Provider) Write(content *model.ClipboardContent) error {
 	// Write to terminal with timeout
 	done := make(chan error, 1)
 	go func() {
+		// No Sync: os.File does not buffer, and a terminal cannot be synced.
 		_, err := p.output.WriteString(sequence)
-		if err != nil {
-			done <- err
-			return
-		}
-		// Flush is important to ensure the escape sequence is sent immediately
-		done <- p.output.Sync()
+		done <- err
 	}()
 
 	// Wait for write to complete or timeout
-- 
2.43.0


From e3a7dd35efc9dd9d15d199e45172da44c8730805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 60/68] fix: read back the RTF the clipboard writes

The decoder removed escapes, line breaks, non-ASCII characters and outer
spaces from the text and took escaped text for formatting.  Read RTF with
a small parser instead, and write characters beyond U+7FFF as RTF wants
them: UTF-16 code units as signed 16-bit numbers.
---
 .../internal/domain/service/richtext_codec.go |  84 +------
 .../internal/domain/service/rtf_reader.go     | 207 ++++++++++++++++++
 2 files changed, 216 insertions(+), 75 deletions(-)
 create mode 100644 clipboard/internal/domain/service/rtf_reader.go

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 9acbecb..35fee6d 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -6,6 +6,7 @@ import (
 	"html"
 	"regexp"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
 )
@@ -186,48 +187,8 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 		return "", value.NewTextStyles(), fmt.Errorf("invalid RTF format: missing header")
 	}
 
-	styles := value.NewTextStyles()
-
-	// Detect bold
-	if strings.Contains(rtfContent, "\\b ") {
-		styles = styles.WithBold(true)
-	}
-
-	// Detect italic
-	if strings.Contains(rtfContent, "\\i ") {
-		styles = styles.WithItalic(true)
-	}
-
-	// Detect underline
-	if strings.Contains(rtfContent, "\\ul ") {
-		styles = styles.WithUnderline(true)
-	}
-
-	// Detect color from color table
-	colorTableRegex := regexp.MustCompile(`\\colortbl\s*;\\red(\d+)\\green(\d+)\\blue(\d+);`)
-	if matches := colorTableRegex.FindStringSubmatch(rtfContent); len(matches) > 3 {
-		var r, g, b int
-		fmt.Sscanf(matches[1], "%d", &r)
-		fmt.Sscanf(matches[2], "%d", &g)
-		fmt.Sscanf(matches[3], "%d", &b)
-
-		color, err := value.FormatColorRGB(r, g, b)
-		if err != nil {
-			return "", styles, fmt.Errorf("invalid color in RTF: %w", err)
-		}
-		styles, err = styles.WithColor(color)
-		if err != nil {
-			return "", styles, fmt.Errorf("failed to set color: %w", err)
-		}
-	}
-
-	// Strip RTF formatting
-	plainText, err := c.StripRTFFormatting(rtfContent)
-	if err != nil {
-		return "", styles, err
-	}
-
-	return plainText, styles, nil
+	text, styles := readRTF(rtfContent)
+	return text, styles, nil
 }
 
 // StripRTFFormatting removes all RTF formatting from the input, leaving only plain text.
@@ -236,37 +197,7 @@ func (c *RichTextCodec) StripRTFFormatting(rtfContent string) (string, error) {
 		return "", nil
 	}
 
-	// Remove RTF control words and groups
-	text := rtfContent
-
-	// Remove color table
-	colorTableRegex := regexp.MustCompile(`\{\\colortbl[^}]*\}`)
-	text = colorTableRegex.ReplaceAllString(text, "")
-
-	// Remove RTF header
-	text = strings.TrimPrefix(text, "{\\rtf1\\ansi\\deff0")
-	text = strings.TrimPrefix(text, "\n")
-
-	// Remove formatting codes
-	text = strings.ReplaceAll(text, "\\b ", "")
-	text = strings.ReplaceAll(text, "\\b0 ", "")
-	text = strings.ReplaceAll(text, "\\i ", "")
-	text = strings.ReplaceAll(text, "\\i0 ", "")
-	text = strings.ReplaceAll(text, "\\ul ", "")
-	text = strings.ReplaceAll(text, "\\ul0 ", "")
-	text = regexp.MustCompile(`\\cf\d+ `).ReplaceAllString(text, "")
-
-	// Remove remaining control sequences
-	controlRegex := regexp.MustCompile(`\\[a-z]+\d*\s*`)
-	text = controlRegex.ReplaceAllString(text, "")
-
-	// Remove braces
-	text = strings.ReplaceAll(text, "{", "")
-	text = strings.ReplaceAll(text, "}", "")
-
-	// Trim whitespace
-	text = strings.TrimSpace(text)
-
+	text, _ := readRTF(rtfContent)
 	return text, nil
 }
 
@@ -330,9 +261,12 @@ func (c *RichTextCodec) escapeRTF(text string) string {
 			// Skip carriage returns
 			continue
 		default:
-			// For non-ASCII characters, use Unicode escape
+			// For non-ASCII characters, use Unicode escapes: UTF-16 code units
+			// written as signed 16-bit numbers.
 			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\u%d?", r))
+				for _, u := range utf16.Encode([]rune{r}) {
+					buf.WriteString(fmt.Sprintf("\\u%d?", int16(u))) //nolint:gosec // signed by definition
+				}
 			} else {
 				buf.WriteRune(r)
 			}
diff --git a/clipboard/internal/domain/service/rtf_reader.go b/clipboard/internal/domain/service/rtf_reader.go
new file mode 100644
index 0000000..63bc0d9
--- /dev/null
+++ b/clipboard/internal/domain/service/rtf_reader.go
@@ -0,0 +1,207 @@
+package service
+
+import (
+	"strconv"
+	"strings"
+	"unicode/utf16"
+
+	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
+)
+
+// rtfFormat is the part of RTF's formatting state which groups save and restore.
+type rtfFormat struct {
+	bold, italic, underline bool
+	color                   int  // index into the color table, 0 = default
+	hidden                  bool // inside a destination which is not document text
+	inColorTable            bool
+	fallback                int // characters standing in for a \u escape (\ucN)
+}
+
+// rtfReader reads the text and the formatting of an RTF document.
+// Unknown control words and destinations are ignored.
+type rtfReader struct {
+	in     string
+	format rtfFormat
+	stack  []rtfFormat
+
+	colors   [][3]int // color table; entry 0 is the default color
+	entry    [3]int   // color table entry being read
+	skip     int      // fallback characters still to be skipped
+	starDest bool     // a \* has announced an optional destination
+
+	text   []uint16 // document text in UTF-16, as \u escapes give it
+	styles value.TextStyles
+}
+
+// readRTF returns the text of an RTF document and the styles which occur in it.
+func readRTF(rtf string) (string, value.TextStyles) {
+	r := &rtfReader{in: rtf, format: rtfFormat{fallback: 1}, styles: value.NewTextStyles()}
+	for r.in != "" {
+		r.step()
+	}
+	return string(utf16.Decode(r.text)), r.styles
+}
+
+// step reads the next token.
+func (r *rtfReader) step() {
+	switch r.in[0] {
+	case '{':
+		r.in = r.in[1:]
+		r.stack = append(r.stack, r.format)
+		r.skip = 0
+	case '}':
+		r.in = r.in[1:]
+		if n := len(r.stack); n > 0 {
+			r.format = r.stack[n-1]
+			r.stack = r.stack[:n-1]
+		}
+		r.skip = 0
+		r.starDest = false
+	case '\r', '\n':
+		r.in = r.in[1:]
+	case '\\':
+		r.control(r.in[1:])
+	default:
+		for i, c := range r.in {
+			if i > 0 {
+				r.in = r.in[i:]
+				return
+			}
+			r.char(c)
+		}
+		r.in = ""
+	}
+}
+
+// control reads a control symbol or word; in is what follows its backslash.
+func (r *rtfReader) control(in string) {
+	if in == "" {
+		r.in = ""
+		return
+	}
+	letters := 0
+	for letters < len(in) && (in[letters]|0x20 >= 'a' && in[letters]|0x20 <= 'z') {
+		letters++
+	}
+	if letters == 0 {
+		r.symbol(in)
+		return
+	}
+	word, in := in[:letters], in[letters:]
+	digits := 0
+	if strings.HasPrefix(in, "-") {
+		digits = 1
+	}
+	for digits < len(in) && in[digits] >= '0' && in[digits] <= '9' {
+		digits++
+	}
+	param, err := strconv.Atoi(in[:digits])
+	hasParam := err == nil
+	if hasParam {
+		in = in[digits:]
+	}
+	r.in = strings.TrimPrefix(in, " ")
+	r.word(word, param, hasParam)
+	r.starDest = false
+}
+
+// symbol handles a control symbol: a backslash followed by anything but a letter.
+func (r *rtfReader) symbol(in string) {
+	r.in = in[1:]
+	switch in[0] {
+	case '\\', '{', '}':
+		r.char(rune(in[0]))
+	case '\r', '\n':
+		r.char('\n')
+	case '~':
+		r.char('\u00a0')
+	case '_':
+		r.char('\u2011')
+	case '*':
+		r.starDest = true
+	case '\'':
+		if len(in) >= 3 {
+			if c, err := strconv.ParseUint(in[1:3], 16, 8); err == nil {
+				r.in = in[3:]
+				r.char(rune(c))
+			}
+		}
+	}
+}
+
+// word handles a control word.
+func (r *rtfReader) word(word string, param int, hasParam bool) {
+	on := !hasParam || param != 0
+	switch word {
+	case "b":
+		r.format.bold = on
+	case "i":
+		r.format.italic = on
+	case "ul":
+		r.format.underline = on
+	case "ulnone":
+		r.format.underline = false
+	case "cf":
+		r.format.color = param
+	case "plain":
+		r.format.bold, r.format.italic, r.format.underline, r.format.color = false, false, false, 0
+	case "par", "line":
+		r.char('\n')
+	case "tab":
+		r.char('\t')
+	case "uc":
+		r.format.fallback = max(param, 0)
+	case "u":
+		r.unit(uint16(param)) //nolint:gosec // RTF writes code units as signed 16-bit numbers
+		r.skip = r.format.fallback
+	case "colortbl":
+		r.format.inColorTable = true
+	case "red":
+		r.entry[0] = param
+	case "green":
+		r.entry[1] = param
+	case "blue":
+		r.entry[2] = param
+	case "fonttbl", "stylesheet", "info", "pict":
+		r.format.hidden = true
+	default:
+		if r.starDest {
+			r.format.hidden = true
+		}
+	}
+}
+
+// char handles one character, which may stand for itself or be a fallback to skip.
+func (r *rtfReader) char(c rune) {
+	switch {
+	case r.skip > 0:
+		r.skip--
+	case r.format.inColorTable:
+		if c == ';' {
+			r.colors = append(r.colors, r.entry)
+			r.entry = [3]int{}
+		}
+	default:
+		for _, u := range utf16.Encode([]rune{c}) {
+			r.unit(u)
+		}
+	}
+}
+
+// unit adds one UTF-16 code unit to the document text.
+func (r *rtfReader) unit(u uint16) {
+	f := r.format
+	if f.hidden || f.inColorTable {
+		return
+	}
+	r.text = append(r.text, u)
+	r.styles.Bold = r.styles.Bold || f.bold
+	r.styles.Italic = r.styles.Italic || f.italic
+	r.styles.Underline = r.styles.Underline || f.underline
+	if r.styles.Color == "" && f.color > 0 && f.color < len(r.colors) {
+		c := r.colors[f.color]
+		if color, err := value.FormatColorRGB(c[0], c[1], c[2]); err == nil {
+			r.styles.Color = color
+		}
+	}
+}
-- 
2.43.0


From 83ec8d16f67e909ba291e08d8205fec26cc00e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 61/68] fix: keep a mouse drag a drag until release

---
 mouse/internal/domain/model/drag_state.go     | 17 +++++++++++------
 mouse/internal/domain/service/drag_tracker.go |  5 ++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/mouse/internal/domain/model/drag_state.go b/mouse/internal/domain/model/drag_state.go
index 5f9d968..5f2e5ca 100644
--- a/mouse/internal/domain/model/drag_state.go
+++ b/mouse/internal/domain/model/drag_state.go
@@ -10,6 +10,7 @@ import (
 // This is an entity that tracks drag progress.
 type DragState struct {
 	active    bool
+	dragging  bool // The threshold was reached since Start
 	start     value2.Position
 	current   value2.Position
 	button    value2.Button
@@ -31,6 +32,7 @@ func NewDragState(threshold int) *DragState {
 // Start begins a drag operation.
 func (d *DragState) Start(pos value2.Position, button value2.Button, modifiers value2.Modifiers) {
 	d.active = true
+	d.dragging = false
 	d.start = pos
 	d.current = pos
 	d.button = button
@@ -41,12 +43,16 @@ func (d *DragState) Start(pos value2.Position, button value2.Button, modifiers v
 func (d *DragState) Update(pos value2.Position) {
 	if d.active {
 		d.current = pos
+		if d.start.DistanceTo(pos) >= d.threshold {
+			d.dragging = true
+		}
 	}
 }
 
 // End ends the drag operation.
 func (d *DragState) End() {
 	d.active = false
+	d.dragging = false
 }
 
 // IsActive returns true if a drag is currently active.
@@ -54,13 +60,11 @@ func (d *DragState) IsActive() bool {
 	return d.active
 }
 
-// IsDrag returns true if the movement is beyond the threshold (actual drag).
+// IsDrag returns true if the movement reached the threshold (actual drag).
+// Once it did, the operation stays a drag until it ends, also when the pointer
+// comes back near the start position.
 func (d *DragState) IsDrag() bool {
-	if !d.active {
-		return false
-	}
-	distance := d.start.DistanceTo(d.current)
-	return distance >= d.threshold
+	return d.active && d.dragging
 }
 
 // StartPosition returns the starting position of the drag.
@@ -94,6 +98,7 @@ func (d *DragState) Distance() int {
 // Reset resets the drag state to inactive.
 func (d *DragState) Reset() {
 	d.active = false
+	d.dragging = false
 	d.start = value2.NewPosition(0, 0)
 	d.current = value2.NewPosition(0, 0)
 	d.button = value2.ButtonNone
diff --git a/mouse/internal/domain/service/drag_tracker.go b/mouse/internal/domain/service/drag_tracker.go
index b1ba9c3..cde5a03 100644
--- a/mouse/internal/domain/service/drag_tracker.go
+++ b/mouse/internal/domain/service/drag_tracker.go
@@ -54,12 +54,15 @@ func (d *DragTracker) ProcessMotion(motionEvent model2.MouseEvent) *model2.Mouse
 }
 
 // ProcessRelease handles a release event, ending the drag.
+// The release position counts as the last movement of the drag.
 // Returns the final drag state information.
-func (d *DragTracker) ProcessRelease(_ model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
+func (d *DragTracker) ProcessRelease(releaseEvent model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
 	if !d.state.IsActive() {
 		return false, value2.NewPosition(0, 0), value2.NewPosition(0, 0)
 	}
 
+	d.state.Update(releaseEvent.Position())
+
 	wasDrag = d.state.IsDrag()
 	start = d.state.StartPosition()
 	end = d.state.Current()
-- 
2.43.0


From a5dfd0c371b97882a5e1b15c4d21deb979fba59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 62/68] fix: decode mouse motion, wheels and extra buttons by
 their bits

---
 .../infrastructure/parser/button_code.go      | 25 +++++++++++++++++++
 .../infrastructure/parser/sgr_parser.go       | 15 +++++------
 .../infrastructure/parser/urxvt_parser.go     |  2 +-
 .../infrastructure/parser/x10_parser.go       |  2 +-
 4 files changed, 35 insertions(+), 9 deletions(-)
 create mode 100644 mouse/internal/infrastructure/parser/button_code.go

diff --git a/mouse/internal/infrastructure/parser/button_code.go b/mouse/internal/infrastructure/parser/button_code.go
new file mode 100644
index 0000000..4b06add
--- /dev/null
+++ b/mouse/internal/infrastructure/parser/button_code.go
@@ -0,0 +1,25 @@
+package parser
+
+// Bits of the button code shared by all protocols:
+// 0-1 button (3 = release in protocols without a release marker), 2-4 modifiers
+// (shift, alt, ctrl), 5 motion, 6 wheel, 7 extra buttons.
+const (
+	modifierBits   = 4 | 8 | 16
+	motionBit      = 32
+	wheelBit       = 64
+	extraButtonBit = 128
+
+	// baseButtonMask removes the modifier bits from a button code.
+	baseButtonMask = ^modifierBits
+)
+
+// isMotionCode returns true if the button code reports pointer motion.
+func isMotionCode(code int) bool {
+	return code&motionBit != 0
+}
+
+// isWheelCode returns true if the button code reports a wheel step, also of a
+// wheel without a Button of its own (horizontal wheels).
+func isWheelCode(code int) bool {
+	return code&wheelBit != 0 && code&(motionBit|extraButtonBit) == 0
+}
diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index b33cbe6..d2e41a8 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -60,11 +60,14 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 
 	// Determine event type
 	var eventType value2.EventType
-	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
+	switch {
+	case isMotionCode(buttonCode):
+		eventType = value2.EventMotion
+	case isWheelCode(buttonCode):
 		eventType = value2.EventScroll
-	} else if isPress {
+	case isPress:
 		eventType = value2.EventPress
-	} else {
+	default:
 		eventType = value2.EventRelease
 	}
 
@@ -81,8 +84,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	// Mask: keep bits 0,1,5,6 (0x63 = 0b01100011)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & baseButtonMask
 
 	var button value2.Button
 	switch baseButton {
@@ -107,8 +109,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
-	baseButton := buttonCode & 0x63 // same mask as decodeButton
-	return baseButton == 32 || baseButton == 35
+	return isMotionCode(buttonCode)
 }
 
 // FormatSequence formats a mouse event as an SGR sequence (for testing).
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index 0481361..e93c770 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -73,7 +73,7 @@ func (p *URxvtParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & baseButtonMask
 
 	var button value2.Button
 	switch baseButton {
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index 915d2ec..62497d6 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -56,7 +56,7 @@ func (p *X10Parser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code & baseButtonMask
 
 	var button value2.Button
 	switch baseButton {
-- 
2.43.0


From 77c52adb30dfdb97c597fb5e11dba8b149c1e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 63/68] fix: decode releases and motion of the X10 mouse
 protocol

---
 mouse/internal/application/event_processor.go | 11 ++++++++
 .../infrastructure/parser/button_code.go      | 25 +++++++++++++++++++
 .../infrastructure/parser/x10_parser.go       | 11 +-------
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/mouse/internal/application/event_processor.go b/mouse/internal/application/event_processor.go
index 2c06ac9..edd66f3 100644
--- a/mouse/internal/application/event_processor.go
+++ b/mouse/internal/application/event_processor.go
@@ -63,6 +63,17 @@ func (p *EventProcessor) ProcessEvent(event model.MouseEvent) []model.MouseEvent
 		events = append(events, event)
 
 	case value.EventRelease:
+		// X10 and URxvt releases don't tell the button: it is the pressed one
+		if event.Button() == value.ButtonNone && p.dragTracker.IsActive() {
+			event = model.NewMouseEventWithTimestamp(
+				event.Type(),
+				p.dragTracker.State().Button(),
+				event.Position(),
+				event.Modifiers(),
+				event.Timestamp(),
+			)
+		}
+
 		// Check for drag end
 		wasDrag, _, _ := p.dragTracker.ProcessRelease(event)
 
diff --git a/mouse/internal/infrastructure/parser/button_code.go b/mouse/internal/infrastructure/parser/button_code.go
index 4b06add..60adda1 100644
--- a/mouse/internal/infrastructure/parser/button_code.go
+++ b/mouse/internal/infrastructure/parser/button_code.go
@@ -1,5 +1,9 @@
 package parser
 
+import (
+	value2 "github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
+)
+
 // Bits of the button code shared by all protocols:
 // 0-1 button (3 = release in protocols without a release marker), 2-4 modifiers
 // (shift, alt, ctrl), 5 motion, 6 wheel, 7 extra buttons.
@@ -23,3 +27,24 @@ func isMotionCode(code int) bool {
 func isWheelCode(code int) bool {
 	return code&wheelBit != 0 && code&(motionBit|extraButtonBit) == 0
 }
+
+// isReleaseCode returns true if the button code of a protocol without a release
+// marker reports a release. Such a release does not tell which button it was.
+func isReleaseCode(code int) bool {
+	return code&baseButtonMask == 3
+}
+
+// eventTypeOf determines the event type from the button code alone, for
+// protocols without a release marker (X10, URxvt).
+func eventTypeOf(code int) value2.EventType {
+	switch {
+	case isMotionCode(code):
+		return value2.EventMotion
+	case isWheelCode(code):
+		return value2.EventScroll
+	case isReleaseCode(code):
+		return value2.EventRelease
+	default:
+		return value2.EventPress
+	}
+}
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index 62497d6..9cc5060 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -34,16 +34,7 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 	button, modifiers := p.decodeButton(buttonCode)
 	position := value2.NewPosition(x, y)
 
-	// X10 doesn't distinguish press/release for normal buttons
-	// We'll treat it as a press event
-	var eventType value2.EventType
-	if button.IsWheel() {
-		eventType = value2.EventScroll
-	} else {
-		eventType = value2.EventPress
-	}
-
-	event := model.NewMouseEvent(eventType, button, position, modifiers)
+	event := model.NewMouseEvent(eventTypeOf(buttonCode), button, position, modifiers)
 	return &event, nil
 }
 
-- 
2.43.0


From e13ab9094628943818c736b4fb498184301291ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 64/68] fix: decode URxvt mouse reports as terminals send them

---
 mouse/internal/application/mouse_handler.go   |  2 +-
 .../infrastructure/parser/urxvt_parser.go     | 22 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/mouse/internal/application/mouse_handler.go b/mouse/internal/application/mouse_handler.go
index 83bf18c..72c83fa 100644
--- a/mouse/internal/application/mouse_handler.go
+++ b/mouse/internal/application/mouse_handler.go
@@ -109,7 +109,7 @@ func (h *MouseHandler) parseURxvt(sequence string) (*model.MouseEvent, error) {
 	// Remove 'M' suffix
 	sequence = strings.TrimSuffix(sequence, "M")
 
-	return h.urxvtParser.Parse(sequence)
+	return h.urxvtParser.ParseReport(sequence)
 }
 
 // Processor returns the event processor (for advanced use cases).
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index e93c770..dd659ba 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -64,6 +64,28 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 	return &event, nil
 }
 
+// ParseReport parses the parameters of a report as a terminal sends it.
+// Terminals add 32 to the button code (like X10), and report releases with
+// button 3. Codes below 32 are taken without the offset.
+func (p *URxvtParser) ParseReport(sequence string) (*model.MouseEvent, error) {
+	code, rest, _ := strings.Cut(sequence, ";")
+	buttonCode, err := strconv.Atoi(code)
+	if err != nil {
+		return nil, fmt.Errorf("invalid button code: %w", err)
+	}
+	if buttonCode >= 32 {
+		buttonCode -= 32
+	}
+
+	event, err := p.Parse(strconv.Itoa(buttonCode) + ";" + rest)
+	if err != nil {
+		return nil, err
+	}
+
+	typed := event.WithType(eventTypeOf(buttonCode))
+	return &typed, nil
+}
+
 // decodeButton extracts button and modifiers from URxvt button code.
 func (p *URxvtParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	// Extract modifiers
-- 
2.43.0


From 07dcbc20161aa6362a1d18ae73c7fe7944b37e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 65/68] fix: reject malformed mouse reports

---
 mouse/internal/application/mouse_handler.go    | 13 +++++++------
 .../infrastructure/parser/button_code.go       | 18 ++++++++++++++++++
 .../infrastructure/parser/sgr_parser.go        |  9 +++------
 .../infrastructure/parser/urxvt_parser.go      | 10 ++++------
 .../infrastructure/parser/x10_parser.go        |  4 ++++
 5 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/mouse/internal/application/mouse_handler.go b/mouse/internal/application/mouse_handler.go
index 72c83fa..33e69ef 100644
--- a/mouse/internal/application/mouse_handler.go
+++ b/mouse/internal/application/mouse_handler.go
@@ -83,13 +83,14 @@ func (h *MouseHandler) parseRawEvent(sequence string) (*model.MouseEvent, error)
 // parseSGR parses an SGR mouse sequence.
 func (h *MouseHandler) parseSGR(sequence string) (*model.MouseEvent, error) {
 	// Extract press/release indicator
-	isPress := strings.HasSuffix(sequence, "M")
-
-	// Remove suffix
-	sequence = strings.TrimSuffix(sequence, "M")
-	sequence = strings.TrimSuffix(sequence, "m")
+	if params, ok := strings.CutSuffix(sequence, "M"); ok {
+		return h.sgrParser.Parse(params, true)
+	}
+	if params, ok := strings.CutSuffix(sequence, "m"); ok {
+		return h.sgrParser.Parse(params, false)
+	}
 
-	return h.sgrParser.Parse(sequence, isPress)
+	return nil, fmt.Errorf("invalid SGR sequence: missing M or m: %s", sequence)
 }
 
 // parseX10 parses an X10 mouse sequence.
diff --git a/mouse/internal/infrastructure/parser/button_code.go b/mouse/internal/infrastructure/parser/button_code.go
index 60adda1..715f6f6 100644
--- a/mouse/internal/infrastructure/parser/button_code.go
+++ b/mouse/internal/infrastructure/parser/button_code.go
@@ -1,6 +1,9 @@
 package parser
 
 import (
+	"fmt"
+	"strconv"
+
 	value2 "github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
 )
 
@@ -48,3 +51,18 @@ func eventTypeOf(code int) value2.EventType {
 		return value2.EventPress
 	}
 }
+
+// parseNumber parses a decimal parameter, which has digits only (no sign).
+func parseNumber(s string) (int, error) {
+	n, err := strconv.ParseUint(s, 10, 31)
+	return int(n), err
+}
+
+// parseCoordinate parses a 1-based coordinate and converts it to 0-based.
+func parseCoordinate(s string) (int, error) {
+	n, err := parseNumber(s)
+	if err == nil && n < 1 {
+		err = fmt.Errorf("coordinate %d is not positive", n)
+	}
+	return n - 1, err
+}
diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index d2e41a8..94a57e9 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -4,7 +4,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
@@ -35,24 +34,22 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 	}
 
 	// Parse button
-	buttonCode, err := strconv.Atoi(parts[0])
+	buttonCode, err := parseNumber(parts[0])
 	if err != nil {
 		return nil, fmt.Errorf("invalid button code: %w", err)
 	}
 
 	// Parse X (1-based in protocol, convert to 0-based)
-	x, err := strconv.Atoi(parts[1])
+	x, err := parseCoordinate(parts[1])
 	if err != nil {
 		return nil, fmt.Errorf("invalid X coordinate: %w", err)
 	}
-	x-- // Convert to 0-based
 
 	// Parse Y (1-based in protocol, convert to 0-based)
-	y, err := strconv.Atoi(parts[2])
+	y, err := parseCoordinate(parts[2])
 	if err != nil {
 		return nil, fmt.Errorf("invalid Y coordinate: %w", err)
 	}
-	y-- // Convert to 0-based
 
 	// Extract button and modifiers
 	button, modifiers := p.decodeButton(buttonCode)
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index dd659ba..b5282d4 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -29,24 +29,22 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 	}
 
 	// Parse button
-	buttonCode, err := strconv.Atoi(parts[0])
+	buttonCode, err := parseNumber(parts[0])
 	if err != nil {
 		return nil, fmt.Errorf("invalid button code: %w", err)
 	}
 
 	// Parse X (1-based in protocol, convert to 0-based)
-	x, err := strconv.Atoi(parts[1])
+	x, err := parseCoordinate(parts[1])
 	if err != nil {
 		return nil, fmt.Errorf("invalid X coordinate: %w", err)
 	}
-	x-- // Convert to 0-based
 
 	// Parse Y (1-based in protocol, convert to 0-based)
-	y, err := strconv.Atoi(parts[2])
+	y, err := parseCoordinate(parts[2])
 	if err != nil {
 		return nil, fmt.Errorf("invalid Y coordinate: %w", err)
 	}
-	y-- // Convert to 0-based
 
 	// Extract button and modifiers
 	button, modifiers := p.decodeButton(buttonCode)
@@ -69,7 +67,7 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 // button 3. Codes below 32 are taken without the offset.
 func (p *URxvtParser) ParseReport(sequence string) (*model.MouseEvent, error) {
 	code, rest, _ := strings.Cut(sequence, ";")
-	buttonCode, err := strconv.Atoi(code)
+	buttonCode, err := parseNumber(code)
 	if err != nil {
 		return nil, fmt.Errorf("invalid button code: %w", err)
 	}
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index 9cc5060..bb16e14 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -25,6 +25,10 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 		return nil, fmt.Errorf("invalid X10 sequence: expected 3 bytes, got %d", len(data))
 	}
 
+	if data[0] < 32 || data[1] < 33 || data[2] < 33 {
+		return nil, fmt.Errorf("invalid X10 sequence: bytes %v below the offset", data)
+	}
+
 	// Decode button (subtract 32 offset)
 	buttonCode := int(data[0]) - 32
 	x := int(data[1]) - 32 - 1 // -1 to convert to 0-based
-- 
2.43.0


From deb895fc0cf2485d2ff52248821e15e63cb1933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:41 +0000
Subject: [PATCH 66/68] fix: do not take input meant for the program that has
 the terminal

A read blocked in a terminal cannot be canceled, so the canceled input
reader took the first line typed into an external program, and the first
keys after Resume or the end of the program. Wait for input with select
before reading, which Cancel can interrupt.
---
 .../infrastructure/input/cancelable_reader.go | 42 ++++++++++++++
 .../infrastructure/input/wait_input_other.go  | 14 +++++
 .../infrastructure/input/wait_input_unix.go   | 58 +++++++++++++++++++
 3 files changed, 114 insertions(+)
 create mode 100644 tea/internal/infrastructure/input/wait_input_other.go
 create mode 100644 tea/internal/infrastructure/input/wait_input_unix.go

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index bdfafe9..6925250 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -2,6 +2,7 @@
 package input
 
 import (
+	"errors"
 	"io"
 	"os"
 	"sync"
@@ -52,6 +53,11 @@ type CancelableReader struct {
 	pipeWriterOnce sync.Once     // Protects pipeWriter from double-close
 	relayDone      chan struct{} // Signals when relay goroutine exits
 	usePipe        bool          // true if pipe relay is active
+
+	// Closed to wake the relay while it waits for input it can't be interrupted
+	// reading (nil if the underlying reader is no such file)
+	wakeReader *os.File
+	wakeWriter *os.File
 }
 
 // readResult holds the result of a single read operation.
@@ -89,6 +95,7 @@ func NewCancelableReader(r io.Reader) *CancelableReader {
 		cr.pipeWriter = pipeWriter
 		cr.relayDone = make(chan struct{})
 		cr.usePipe = true
+		cr.openWakePipe()
 
 		go cr.relayLoop()
 		go cr.readLoopPipe()
@@ -102,6 +109,30 @@ func NewCancelableReader(r io.Reader) *CancelableReader {
 	return cr
 }
 
+// openWakePipe prepares waiting for input if the underlying reader is a file
+// whose Read() can't be interrupted by a deadline.
+func (cr *CancelableReader) openWakePipe() {
+	f, ok := cr.r.(*os.File)
+	if !ok || !canWaitForInput || !errors.Is(f.SetReadDeadline(time.Time{}), os.ErrNoDeadline) {
+		return
+	}
+	if r, w, err := os.Pipe(); err == nil {
+		cr.wakeReader, cr.wakeWriter = r, w
+	}
+}
+
+// waitInput waits until reading from the underlying reader would not block.
+// Returns false if the reader is canceled.
+func (cr *CancelableReader) waitInput() bool {
+	if cr.wakeReader == nil {
+		return true
+	}
+	if f, ok := cr.r.(*os.File); ok {
+		return waitForInput(f, cr.wakeReader)
+	}
+	return true
+}
+
 // closePipeWriter closes the pipe write end exactly once.
 // Safe to call from both Cancel() and relayLoop defer concurrently.
 func (cr *CancelableReader) closePipeWriter() {
@@ -126,6 +157,9 @@ func (cr *CancelableReader) closePipeWriter() {
 func (cr *CancelableReader) relayLoop() {
 	defer close(cr.relayDone)
 	defer cr.closePipeWriter() // Signal EOF to readLoopPipe on any exit
+	if cr.wakeReader != nil {
+		defer cr.wakeReader.Close()
+	}
 
 	buf := make([]byte, 4096)
 
@@ -137,6 +171,11 @@ func (cr *CancelableReader) relayLoop() {
 		default:
 		}
 
+		// Don't be caught in a Read() that Cancel can't interrupt
+		if !cr.waitInput() {
+			return
+		}
+
 		// Read from underlying reader (may block on real stdin)
 		n, err := cr.r.Read(buf)
 
@@ -335,6 +374,9 @@ func (cr *CancelableReader) Cancel() {
 			cr.closePipeWriter()
 
 			// Phase 2: Try to unblock relay goroutine's stdin Read
+			if cr.wakeWriter != nil {
+				_ = cr.wakeWriter.Close()
+			}
 			cr.unblockRelay()
 		} else {
 			// Legacy fallback: inject fake input for direct-read mode
diff --git a/tea/internal/infrastructure/input/wait_input_other.go b/tea/internal/infrastructure/input/wait_input_other.go
new file mode 100644
index 0000000..b80e752
--- /dev/null
+++ b/tea/internal/infrastructure/input/wait_input_other.go
@@ -0,0 +1,14 @@
+//go:build !(darwin || dragonfly || freebsd || linux || netbsd || openbsd)
+
+// Package input provides keyboard input reading and parsing.
+package input
+
+import "os"
+
+// canWaitForInput tells whether waitForInput does anything on this platform.
+const canWaitForInput = false
+
+// waitForInput is not available on this platform: Read() is called right away.
+func waitForInput(_, _ *os.File) bool {
+	return true
+}
diff --git a/tea/internal/infrastructure/input/wait_input_unix.go b/tea/internal/infrastructure/input/wait_input_unix.go
new file mode 100644
index 0000000..aa52ffe
--- /dev/null
+++ b/tea/internal/infrastructure/input/wait_input_unix.go
@@ -0,0 +1,58 @@
+//go:build darwin || dragonfly || freebsd || linux || netbsd || openbsd
+
+// Package input provides keyboard input reading and parsing.
+package input
+
+import (
+	"errors"
+	"os"
+
+	"golang.org/x/sys/unix"
+)
+
+// canWaitForInput tells whether waitForInput does anything on this platform.
+const canWaitForInput = true
+
+// waitForInput blocks until reading from f would not block, or wake is closed
+// at its other end. Returns false in the latter case.
+//
+// A terminal in blocking mode (the usual os.Stdin) supports no read deadline:
+// a Read() once blocked in it can't be canceled and takes the next input,
+// whoever that is meant for. So Read() is only called when there is input.
+func waitForInput(f, wake *os.File) bool {
+	fc, err := f.SyscallConn()
+	if err != nil {
+		return true
+	}
+	wc, err := wake.SyscallConn()
+	if err != nil {
+		return true
+	}
+
+	ready := true
+	_ = fc.Control(func(ffd uintptr) {
+		_ = wc.Control(func(wfd uintptr) {
+			ready = selectReadable(int(ffd), int(wfd))
+		})
+	})
+	return ready
+}
+
+// selectReadable waits for fd or wake to become readable and returns false if it is wake.
+func selectReadable(fd, wake int) bool {
+	if fd >= unix.FD_SETSIZE || wake >= unix.FD_SETSIZE {
+		return true // Beyond what select supports
+	}
+
+	for {
+		var set unix.FdSet
+		set.Set(fd)
+		set.Set(wake)
+
+		_, err := unix.Select(max(fd, wake)+1, &set, nil, nil, nil)
+		if errors.Is(err, unix.EINTR) {
+			continue
+		}
+		return err != nil || !set.IsSet(wake)
+	}
+}
-- 
2.43.0


From 2f46e08a06771766ad5c3eb68139e460f2a9552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:06 +0000
Subject: [PATCH 67/68] fix: give the terminal to the process group the child
 is in

With TransferForeground alone the terminal was given to a process group that
does not exist: reading from it stopped the child and the program.
---
 .../application/program/tty_control_darwin.go         | 11 +++++++++--
 tea/internal/application/program/tty_control_linux.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index afea5bd..bd9d866 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -111,12 +111,19 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		return fmt.Errorf("exec: failed to start command: %w", err)
 	}
 
-	childPid := cmd.Process.Pid
+	// Without a process group of its own the child is in ours
+	childPgid := syscall.Getpgrp()
+	if attr := cmd.SysProcAttr; attr != nil && attr.Setpgid {
+		childPgid = attr.Pgid
+		if childPgid == 0 {
+			childPgid = cmd.Process.Pid
+		}
+	}
 
 	// STEP 5: Transfer foreground to child (if requested)
 	// CRITICAL: This MUST be called from parent, not child!
 	if opts.TransferForeground {
-		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
+		if err := tcsetpgrp(ttyFD, int32(childPgid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
 			_ = cmd.Wait()
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index ce75320..6ea93d4 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -111,12 +111,19 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		return fmt.Errorf("exec: failed to start command: %w", err)
 	}
 
-	childPid := cmd.Process.Pid
+	// Without a process group of its own the child is in ours
+	childPgid := syscall.Getpgrp()
+	if attr := cmd.SysProcAttr; attr != nil && attr.Setpgid {
+		childPgid = attr.Pgid
+		if childPgid == 0 {
+			childPgid = cmd.Process.Pid
+		}
+	}
 
 	// STEP 5: Transfer foreground to child (if requested)
 	// CRITICAL: This MUST be called from parent, not child!
 	if opts.TransferForeground {
-		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
+		if err := tcsetpgrp(ttyFD, int32(childPgid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
 			_ = cmd.Wait()
-- 
2.43.0


From 87e265a1d07a473fd0bcba3f6503aa055b14310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:34 +0000
Subject: [PATCH 68/68] fix: continue an external program stopped before the
 terminal was its own

Between its start and the transfer of the foreground it could read from the
terminal, was stopped for that, and was waited for forever.
---
 tea/internal/application/program/tty_control_darwin.go | 5 +++++
 tea/internal/application/program/tty_control_linux.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index bd9d866..bdfc616 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -132,6 +132,11 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 			}
 			return fmt.Errorf("exec: failed to transfer foreground: %w", err)
 		}
+
+		// It may have used the terminal before it was its own, and been stopped for that
+		if childPgid != syscall.Getpgrp() {
+			_ = syscall.Kill(-childPgid, syscall.SIGCONT)
+		}
 	}
 
 	// STEP 6: Wait for child to complete (BLOCKING)
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 6ea93d4..b19b1b5 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -132,6 +132,11 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 			}
 			return fmt.Errorf("exec: failed to transfer foreground: %w", err)
 		}
+
+		// It may have used the terminal before it was its own, and been stopped for that
+		if childPgid != syscall.Getpgrp() {
+			_ = syscall.Kill(-childPgid, syscall.SIGCONT)
+		}
 	}
 
 	// STEP 6: Wait for child to complete (BLOCKING)
-- 
2.43.0

