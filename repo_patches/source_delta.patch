From 1b7637c208f2c8b77698294c41a84d4b22eb2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 01/39] fix: hyphenation lost trailing letters and cut inside
 multi-byte characters

---
 hyphenation/hyphenation.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..a1a004c 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/pkg/errors"
 )
@@ -36,7 +37,7 @@ func new(pl *patternLookup) *Hyphenator {
 }
 
 func (h *Hyphenator) Hyphenate(s string) []string {
-	if len(s) < 3 {
+	if utf8.RuneCountInString(s) < 3 {
 		//don't hyphenate words with less than 3 runes
 		return []string{s}
 	}
@@ -63,22 +64,28 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//weights are counted in runes, so cut at the byte-offsets of the runes
+	offs := make([]int, 0, len(s)+1)
+	for i := range s {
+		offs = append(offs, i)
+	}
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
-		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
-				last = i + 1
-			}
+		if w%2 == 1 && i+1-last > 1 {
+			sl = append(sl, s[offs[last]:offs[i+1]])
+			last = i + 1
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
+	rest := s[offs[last]:]
+	if len(sl) > 0 && len(offs)-last < 2 {
+		//don't split off a single rune, but don't lose it either
+		sl[len(sl)-1] += rest
+	} else {
+		sl = append(sl, rest)
 	}
 	return sl
 }
-- 
2.43.0


From 927c44a5e536a7d0c3930311bdca7ec937d7bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 02/39] fix: centred and right-aligned words wider than their
 column ran off the page's left edge

---
 text.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/text.go b/text.go
index 773dd4d..0443277 100644
--- a/text.go
+++ b/text.go
@@ -1,6 +1,7 @@
 package xpdf
 
 import (
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -94,13 +95,15 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 	lines := p.textLines(iss, width, sty)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
+		//a word wider than the available width must not start left of it
+		space := math.Max(width-line.width, 0)
 		switch sty.HAlign {
 		case style.HAlignLeft:
 			p.engine.SetX(xLeft)
 		case style.HAlignCenter:
-			p.engine.SetX(xLeft + (width-line.width)/2.0)
+			p.engine.SetX(xLeft + space/2.0)
 		case style.HAlignRight:
-			p.engine.SetX(xLeft + width - line.width)
+			p.engine.SetX(xLeft + space)
 		}
 		for _, item := range line.items {
 			p.changeFont(item.sty.Font)
-- 
2.43.0


From ab9c6e4965dc79c7a1c2a3cf2caf4bcfe0171e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 03/39] fix: boxes were torn at the bottom margin because
 padding and offset were not counted

---
 process.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index b523714..f827520 100644
--- a/process.go
+++ b/process.go
@@ -191,14 +191,15 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	frameHeight := height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+frameHeight >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
 
 	x0 += sty.Dimension.OffsetX
 	y0 += sty.Dimension.OffsetY
-	y1 := y0 + height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	y1 := y0 + frameHeight
 	x1 := x0 + width + sty.Padding.Left + sty.Padding.Right
 	p.drawBox(x0, y0, x1, y1, sty)
 
-- 
2.43.0


From 5054e94c198b1446fc940fcd2206879fd9401dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 04/39] fix: a box moved to the left margin when it caused a
 page break

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index f827520..fec4c3d 100644
--- a/process.go
+++ b/process.go
@@ -194,7 +194,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	frameHeight := height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
 	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+frameHeight >= effHeight {
 		p.engine.AddPage()
-		x0, y0 = p.engine.GetXY()
+		_, y0 = p.engine.GetXY()
 	}
 
 	x0 += sty.Dimension.OffsetX
-- 
2.43.0


From c5647b73c47742501e09a9f996449b3ff7aac61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 05/39] fix: block-aligned text of middle and bottom aligned
 cells was drawn outside its cell

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From 7b57c49d01c491546ccbf0d163306447a32ea5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 06/39] fix: rows and boxes ending exactly at the bottom margin
 could be torn by rounding

---
 dim.go     | 3 +++
 process.go | 2 +-
 table.go   | 7 +++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dim.go b/dim.go
index 39e67ab..9e48dc9 100644
--- a/dim.go
+++ b/dim.go
@@ -6,6 +6,9 @@ import (
 	"github.com/mazzegi/xpdf/style"
 )
 
+// roundingTolerance covers rounding errors of summed up heights (in mm)
+const roundingTolerance = 1e-6
+
 type PrintableArea struct {
 	x0, y0, x1, y1 float64
 }
diff --git a/process.go b/process.go
index fec4c3d..534d695 100644
--- a/process.go
+++ b/process.go
@@ -192,7 +192,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
 	frameHeight := height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
-	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+frameHeight >= effHeight {
+	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+frameHeight >= effHeight-roundingTolerance {
 		p.engine.AddPage()
 		_, y0 = p.engine.GetXY()
 	}
diff --git a/table.go b/table.go
index 3fb063e..6c22b66 100644
--- a/table.go
+++ b/table.go
@@ -365,6 +365,9 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 		p.engine.SetX(x0)
 	}
 
+	// rows ending exactly at the bottom must not be torn by rounding
+	bottom := page.printableArea.y1 - roundingTolerance
+
 	//check if we have to start a new page for the entire table
 	if !p.preventPageBreak {
 		var headHeight float64
@@ -373,14 +376,14 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 				headHeight += tab.rows[i].maxCellHeight()
 			}
 		}
-		if y+headHeight > page.printableArea.y1 {
+		if y+headHeight > bottom {
 			p.engine.AddPage()
 			_, y = p.engine.GetXY()
 		}
 	}
 
 	for i, row := range tab.rows {
-		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
+		if !p.preventPageBreak && y+row.maxCellHeight() > bottom {
 			p.engine.AddPage()
 			_, y = p.engine.GetXY()
 			if i > 0 && xtab.RepeatHeader > 0 {
-- 
2.43.0


From f6bb0eb1359abb5b11cdea8da68d92c4d253faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 07/39] fix: a hyphenated {np} was not replaced by the page
 count

---
 process.go   | 5 ++++-
 text-hyph.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 534d695..7a71f8a 100644
--- a/process.go
+++ b/process.go
@@ -12,6 +12,9 @@ import (
 	"github.com/mazzegi/xpdf/xdoc"
 )
 
+// pageCountAlias is replaced by the total number of pages when the PDF is written
+const pageCountAlias = "{np}"
+
 type Processor struct {
 	engine           engine.Engine
 	doc              *xdoc.Document
@@ -49,7 +52,7 @@ func (p *Processor) Process(w io.Writer) error {
 		            "l c c";
 	*/
 	//TODO: make page-count and current-page aliases options
-	p.engine.SetPageCountAlias("{np}")
+	p.engine.SetPageCountAlias(pageCountAlias)
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
 		p.preventPageBreak = true
diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..f108261 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -14,6 +14,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 	}
 	tryHyphenate := func(s string, currWidth float64) (s1 string, s2 string, success bool) {
 		success = false
+		if strings.Contains(s, pageCountAlias) {
+			//a divided alias would not be replaced any more
+			return
+		}
 		availWidth := width - currWidth
 		parts := p.hyphenator.Hyphenate(s)
 		if len(parts) < 2 {
-- 
2.43.0


From e1907b8c8162acd4c322f07c333cffc1829a6f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 08/39] fix: a page break inside a header or footer recursed
 without end

---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 7a71f8a..a62464a 100644
--- a/process.go
+++ b/process.go
@@ -142,7 +142,10 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			//a header or footer breaking the page would call itself forever
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From a376b9a7f4a7d06f17c43d53c464bb429d1e2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 09/39] fix: the font of a text, box, cell or paragraph leaked
 into the elements after it

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index f108261..b316d48 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -63,7 +63,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -127,14 +127,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 0443277..89389ae 100644
--- a/text.go
+++ b/text.go
@@ -55,7 +55,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -106,7 +106,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + space)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 8a935f471bba8a72b7a4863514bf4603d90dd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 10/39] fix: font instructions in headers and footers changed
 the body's font

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index a62464a..aba7d0d 100644
--- a/process.go
+++ b/process.go
@@ -55,20 +55,24 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias(pageCountAlias)
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Footer)
-- 
2.43.0


From 9c40a1cecfc591437f460b9861c5103f4fc0d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 11/39] fix: the text colour of a paragraph was ignored

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index b316d48..fea639b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -128,6 +128,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -135,6 +136,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 89389ae..fe8868f 100644
--- a/text.go
+++ b/text.go
@@ -107,6 +107,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 5852bef60a73b1969590456b8ca068a2d854fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 12/39] fix: the height of an empty box followed from the font
 of the element before it

---
 process.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/process.go b/process.go
index aba7d0d..814e3dc 100644
--- a/process.go
+++ b/process.go
@@ -172,6 +172,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	var height float64
 	if sty.Dimension.Height <= 0 {
 		if len(box.ISS) == 0 {
+			p.engine.ChangeFont(sty.Font)
 			height = p.engine.FontHeight()
 		} else {
 			height = p.textHeightFnc(sty)(box.ISS, width, sty)
@@ -192,6 +193,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 		if len(box.ISS) > 0 {
 			height = p.textHeightFnc(sty)(box.ISS, width, sty)
 		} else {
+			p.engine.ChangeFont(sty.Font)
 			height = p.engine.FontHeight()
 		}
 	} else {
-- 
2.43.0


From 310d9eafd4f8d0c3b5c172bb472aa09f23c8190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 13/39] fix: headers and footers started in the font of the
 element interrupted by a page break

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index 814e3dc..0f87dff 100644
--- a/process.go
+++ b/process.go
@@ -63,6 +63,8 @@ func (p *Processor) Process(w io.Writer) error {
 			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
+		//start with the current font, not the one of an element the page break is in
+		p.resetStyles()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
@@ -75,6 +77,8 @@ func (p *Processor) Process(w io.Writer) error {
 			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
+		//start with the current font, not the one of an element the page break is in
+		p.resetStyles()
 		p.processInstructions(p.doc.Footer)
 	})
 
-- 
2.43.0


From 5fadee0bd16aa0c84effa5500777b5a735535980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 14/39] fix: read errors and overlong lines silently truncated
 hyphenation pattern tables

---
 hyphenation/pattern.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..f6604fb 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -1,7 +1,6 @@
 package hyphenation
 
 import (
-	"bufio"
 	"fmt"
 	"io"
 	"strconv"
@@ -79,9 +78,11 @@ func parsePattern(s string) (pattern, error) {
 
 func parsePatterns(r io.Reader) (*patternLookup, error) {
 	pl := newPatternLookup()
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		line := scanner.Text()
+	bs, err := io.ReadAll(r)
+	if err != nil {
+		return nil, errors.Wrap(err, "read-all")
+	}
+	for _, line := range strings.Split(string(bs), "\n") {
 		line = strings.Trim(line, " \n\r\t")
 		if line == "" {
 			continue
-- 
2.43.0


From af239c54d865913c1c072e1cf95eccb166e4a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 15/39] fix: unsupported or damaged font files were left out
 silently or caused a panic

---
 engine/fpdf.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..ec8f50c 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -106,22 +106,53 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 		default:
 			sty = ""
 		}
-		e.pdf.AddUTF8FontFromBytes(fd.Name, sty, bs)
-		if e.pdf.Error() != nil {
-			return e.pdf.Error()
-		}
-		return nil
+		return errors.Wrapf(e.addFont(fd.Name, sty, bs), "add font %q", fd.FilePath)
 	})
 }
 
+// addFont adds a font to the PDF. gofpdf doesn't return an error when the data
+// is not a TrueType font, but leaves the font out, and panics when the data is
+// damaged.
+func (e *FPDF) addFont(name, sty string, bs []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("invalid font data: %v", r)
+		}
+	}()
+	e.pdf.AddUTF8FontFromBytes(name, sty, bs)
+	if e.pdf.Error() != nil {
+		return e.pdf.Error()
+	}
+	if e.pdf.GetFontDesc(name, sty) == (gofpdf.FontDescType{}) {
+		return errors.New("not a supported TrueType font")
+	}
+	return nil
+}
+
 func (e *FPDF) Error() error {
 	return e.pdf.Error()
 }
 
+// WritePDF writes the PDF to w. The glyphs used by the document are read from
+// the font data only now, and gofpdf panics when that data is damaged.
 func (e *FPDF) WritePDF(w io.Writer) error {
+	err := e.closePDF()
+	if err != nil {
+		return err
+	}
 	return e.pdf.Output(w)
 }
 
+func (e *FPDF) closePDF() (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("close PDF: %v", r)
+		}
+	}()
+	e.pdf.Close()
+	return e.pdf.Error()
+}
+
 func (e *FPDF) SetPageCountAlias(alias string) {
 	e.pdf.AliasNbPages(alias)
 }
-- 
2.43.0


From 046205d5e013f322499fe7b556f3bdacdb02a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/39] fix: the order of style differences in a description
 was random

---
 xdoc/diff.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..918ee81 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,13 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		orgKeys := make([]string, 0, len(org))
+		for orgKey := range org {
+			orgKeys = append(orgKeys, orgKey)
+		}
+		sort.Strings(orgKeys)
+		for _, orgKey := range orgKeys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 57abdc123889d0e1074d6b08db5242810cb920ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 17/39] fix: the description gave the right margin as the left
 one

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From c3de84022c3d7129d0305dc2b781091736de17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 18/39] fix: damaged images caused a panic

---
 engine/fpdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index ec8f50c..cbfc7b8 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -212,6 +212,12 @@ func (e *FPDF) PageWidth() float64 {
 }
 
 func (e *FPDF) PutImage(src string, x, y, width, height float64) {
+	// gofpdf panics when the image data is damaged
+	defer func() {
+		if r := recover(); r != nil {
+			e.pdf.SetErrorf("invalid image %q: %v", src, r)
+		}
+	}()
 	e.pdf.ImageOptions(src, x, y, width, height, false, gofpdf.ImageOptions{}, 0, "")
 }
 
-- 
2.43.0


From 190feed3ac2917028e4c010736bbec26f9f31623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 19/39] fix: characters outside of the BMP caused a panic with
 UTF-8 fonts

---
 engine/fpdf.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index cbfc7b8..89fe35a 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/jung-kurt/gofpdf/v2"
 	"github.com/mazzegi/xpdf/font"
@@ -80,10 +82,21 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
-	e.translateUnicode = func(s string) string { return s }
+	e.translateUnicode = replaceNonBMP
 	return e, nil
 }
 
+// replaceNonBMP replaces the characters outside of the basic multilingual plane,
+// for which gofpdf has no glyphs (and panics with UTF-8 fonts).
+func replaceNonBMP(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r > 0xFFFF {
+			return utf8.RuneError
+		}
+		return r
+	}, s)
+}
+
 func (e *FPDF) initFonts(fonts *font.Registry) error {
 	if fonts.MonoFont() != "" {
 		e.monoFont = fonts.MonoFont()
-- 
2.43.0


From 8f99b73758ceb69607e4b406e9b2cce640d37a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 20/39] fix: the command reported success when closing the
 output failed

---
 cmd/xpdf/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xpdf/main.go b/cmd/xpdf/main.go
index 175342c..e2b8379 100644
--- a/cmd/xpdf/main.go
+++ b/cmd/xpdf/main.go
@@ -71,4 +71,8 @@ func main() {
 		fmt.Println("ERROR processing input:", err)
 		os.Exit(4)
 	}
+	if err := outF.Close(); err != nil {
+		fmt.Println("ERROR closing output-file:", err)
+		os.Exit(4)
+	}
 }
-- 
2.43.0


From c7aeed285aea3c6a4b19224a2e5049c26ae268a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 21/39] fix: describe and image reported success when their
 output could not be written

---
 cmd/describe/main.go | 6 +++++-
 cmd/image/main.go    | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/describe/main.go b/cmd/describe/main.go
index 599bba6..f144651 100644
--- a/cmd/describe/main.go
+++ b/cmd/describe/main.go
@@ -22,5 +22,9 @@ func main() {
 		os.Exit(2)
 	}
 	desc := xdoc.Describe(doc)
-	fmt.Printf("%s\n", desc.Dump(xdoc.DescribeXML))
+	_, err = fmt.Printf("%s\n", desc.Dump(xdoc.DescribeXML))
+	if err != nil {
+		fmt.Fprintln(os.Stderr, "ERROR: write description:", err)
+		os.Exit(3)
+	}
 }
diff --git a/cmd/image/main.go b/cmd/image/main.go
index e111f75..f8a4124 100644
--- a/cmd/image/main.go
+++ b/cmd/image/main.go
@@ -28,7 +28,9 @@ func main() {
 		fmt.Println("ERROR: decode config:", err)
 		os.Exit(2)
 	}
-	fmt.Printf("Source: %q\n", src)
-	fmt.Printf("Format: %q\n", format)
-	fmt.Printf("Dim   : w=%d, h=%d\n", cfg.Width, cfg.Height)
+	_, err = fmt.Printf("Source: %q\nFormat: %q\nDim   : w=%d, h=%d\n", src, format, cfg.Width, cfg.Height)
+	if err != nil {
+		fmt.Fprintln(os.Stderr, "ERROR: write output:", err)
+		os.Exit(3)
+	}
 }
-- 
2.43.0


From d92b02318245bc78a6513b40052d8046d6118eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 22/39] fix: NaN and infinite style values were accepted and
 emptied the style's description

---
 style/box.go    |  6 ++++++
 style/decode.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/style/box.go b/style/box.go
index 22bf403..127ce16 100644
--- a/style/box.go
+++ b/style/box.go
@@ -47,6 +47,9 @@ func (b *Padding) UnmarshalStyle(v string) error {
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
+	if !isFinite(b.Left, b.Top, b.Right, b.Bottom) {
+		return errors.Errorf("scan padding value (%s): not finite numbers", v)
+	}
 	return nil
 }
 
@@ -55,5 +58,8 @@ func (b *Margin) UnmarshalStyle(v string) error {
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
+	if !isFinite(b.Left, b.Top, b.Right, b.Bottom) {
+		return errors.Errorf("scan margin value (%s): not finite numbers", v)
+	}
 	return nil
 }
diff --git a/style/decode.go b/style/decode.go
index 8d178c7..04d1338 100644
--- a/style/decode.go
+++ b/style/decode.go
@@ -3,6 +3,7 @@ package style
 import (
 	"io"
 	"io/ioutil"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -136,6 +137,9 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 		if err != nil {
 			return nil, errors.Wrapf(err, "parse-float (%s)", styleValue)
 		}
+		if !isFinite(f) {
+			return nil, errors.Errorf("parse-float (%s): not a finite number", styleValue)
+		}
 		return func(v reflect.Value) {
 			v.SetFloat(f)
 		}, nil
@@ -160,6 +164,15 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 	}
 }
 
+func isFinite(fs ...float64) bool {
+	for _, f := range fs {
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 func appendedCopy(sl []int, a int) []int {
 	c := make([]int, len(sl)+1)
 	for i, v := range sl {
-- 
2.43.0


From 2ddad3e3f27a554067c83e9f0c3f4e451f1715ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 23/39] fix: NaN and infinite positions led to malformed PDFs

---
 engine/fpdf.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 89fe35a..d982d9c 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"math"
 	"strings"
 	"unicode/utf8"
 
@@ -77,6 +78,10 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 		return nil, errors.Wrap(err, "init-fonts")
 	}
 
+	m := doc.Page.Margins
+	if !e.finite(m.Left, m.Top, m.Right, m.Bottom) {
+		return nil, errors.Wrap(e.pdf.Error(), "margins")
+	}
 	e.pdf.SetAutoPageBreak(true, doc.Page.Margins.Bottom)
 	e.pdf.SetMargins(doc.Page.Margins.Left, doc.Page.Margins.Top, doc.Page.Margins.Right)
 
@@ -186,11 +191,29 @@ func (e *FPDF) AddPage() {
 	e.pdf.AddPage()
 }
 
+// finite tells whether all the values can be written to a PDF. If not, the
+// engine is set to its error state.
+func (e *FPDF) finite(vs ...float64) bool {
+	for _, v := range vs {
+		if math.IsNaN(v) || math.Abs(v) > math.MaxFloat32 {
+			e.pdf.SetErrorf("invalid number %v", v)
+			return false
+		}
+	}
+	return true
+}
+
 func (e *FPDF) SetX(x float64) {
+	if !e.finite(x) {
+		return
+	}
 	e.pdf.SetX(x)
 }
 
 func (e *FPDF) SetY(y float64) {
+	if !e.finite(y) {
+		return
+	}
 	//prevent reset fo x-value
 	e.pdf.SetXY(e.pdf.GetX(), y)
 }
@@ -200,11 +223,17 @@ func (e *FPDF) GetXY() (float64, float64) {
 }
 
 func (e *FPDF) LineFeed(lines float64) {
+	if !e.finite(lines) {
+		return
+	}
 	_, heightMM := e.pdf.GetFontSize()
 	e.pdf.Ln(heightMM * lines)
 }
 
 func (e *FPDF) ChangeFont(fnt style.Font) {
+	if !e.finite(float64(fnt.PointSize)) {
+		return
+	}
 	e.pdf.SetFont(string(fnt.Family), fpdfFontStyle(fnt), float64(fnt.PointSize))
 }
 
@@ -225,6 +254,9 @@ func (e *FPDF) PageWidth() float64 {
 }
 
 func (e *FPDF) PutImage(src string, x, y, width, height float64) {
+	if !e.finite(x, y, width, height) {
+		return
+	}
 	// gofpdf panics when the image data is damaged
 	defer func() {
 		if r := recover(); r != nil {
@@ -262,6 +294,9 @@ func (e *FPDF) WriteText(s string) {
 
 //drawing
 func (e *FPDF) SetLineWidth(w float64) {
+	if !e.finite(w) {
+		return
+	}
 	e.pdf.SetLineWidth(w)
 }
 
@@ -274,14 +309,23 @@ func (e *FPDF) SetFillColor(r, g, b int) {
 }
 
 func (e *FPDF) FillRect(x, y, width, height float64) {
+	if !e.finite(x, y, width, height) {
+		return
+	}
 	e.pdf.Rect(x, y, width, height, "F")
 }
 
 func (e *FPDF) MoveTo(x, y float64) {
+	if !e.finite(x, y) {
+		return
+	}
 	e.pdf.MoveTo(x, y)
 }
 
 func (e *FPDF) LineTo(x, y float64) {
+	if !e.finite(x, y) {
+		return
+	}
 	e.pdf.LineTo(x, y)
 }
 
-- 
2.43.0


From 40b3be5b72b8eb2d443a1461427f3357cfa69217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 24/39] fix: an empty box moved what follows it by its padding
 and offset

---
 process.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/process.go b/process.go
index 0f87dff..f378717 100644
--- a/process.go
+++ b/process.go
@@ -224,6 +224,9 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if len(box.ISS) > 0 {
 		p.writeTextFnc(sty)(box.ISS, width, sty)
 	}
+	//a box without text doesn't end its line by itself, and what follows must
+	//not start at its padding and offset
+	p.engine.LineFeed(0)
 	p.engine.SetY(y1)
 }
 
-- 
2.43.0


From c5de7bc02fef2979026c36ea7bd1d2868cef7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 25/39] fix: loading style selectors wrote to standard output,
 in front of the description

---
 style/class.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index 8c255fd..d4f59d7 100644
--- a/style/class.go
+++ b/style/class.go
@@ -2,7 +2,6 @@ package style
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -94,7 +93,6 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 					Name:    selName,
 					mutator: mut,
 				}
-				fmt.Printf("added selector (%s) to class (%s) \n", selName, className)
 			} else {
 				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
 			}
-- 
2.43.0


From 39f8f542bd051885ac7d5fe3c67f41f80bfedad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 26/39] fix: every box of a cell but the first was drawn at the
 left margin of the page

---
 table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 6c22b66..ceb4155 100644
--- a/table.go
+++ b/table.go
@@ -419,8 +419,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
-	p.engine.SetX(paddedPa.x0)
 	for _, is := range cell.iss {
+		//a box ends at the left margin of the page
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
 			height := p.textBoxHeight(is, paddedPa)
-- 
2.43.0


From 7fb54c70424f0756b075ca2aaf858431d1031717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 27/39] fix: block-aligned text stretched the line before a
 line break and left the one before it ragged

---
 text-hyph.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index fea639b..63cb043 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -42,10 +42,8 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			//the line ending here, not the one before, is not justified
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From cdf26a08ca3720204e147e93e589489140926198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 28/39] fix: text with a page number overflowed its box or cell
 after a page break that made the number wider

---
 process.go | 3 +++
 table.go   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/process.go b/process.go
index f378717..88734ad 100644
--- a/process.go
+++ b/process.go
@@ -211,6 +211,9 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+frameHeight >= effHeight-roundingTolerance {
 		p.engine.AddPage()
 		_, y0 = p.engine.GetXY()
+		//the text may need more space now, if it contains the page number
+		height = p.textBoxHeight(box, pa)
+		frameHeight = height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
 	}
 
 	x0 += sty.Dimension.OffsetX
diff --git a/table.go b/table.go
index ceb4155..c067201 100644
--- a/table.go
+++ b/table.go
@@ -345,7 +345,13 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 	page := p.page()
 	x0, y := p.engine.GetXY()
 
+	digits := len(p.tr("{cp}"))
 	renderRow := func(row *tableRow) {
+		if n := len(p.tr("{cp}")); n != digits {
+			//cells with the page number may need more space now
+			digits = n
+			p.assignHeights(tab)
+		}
 		x := x0
 		for _, cell := range row.cells {
 			if cell.spannedBy != nil || cell.zero {
-- 
2.43.0


From 4f778beb0b0a2fa9671dd576b176cd35104ee05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 29/39] fix: panic when a header or footer fails on a page
 break within a text of another font

---
 engine/fpdf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index d982d9c..1c86784 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -288,6 +288,13 @@ func (e *FPDF) TextWidth(s string) float64 {
 }
 
 func (e *FPDF) WriteText(s string) {
+	// a header or footer that fails on a page break within the text leaves its
+	// own font behind, and gofpdf may panic with the text of another one then
+	defer func() {
+		if r := recover(); r != nil && e.pdf.Error() == nil {
+			panic(r)
+		}
+	}()
 	_, heightMM := e.pdf.GetFontSize()
 	e.pdf.Write(heightMM, e.translateUnicode(s))
 }
-- 
2.43.0


From ff9efef3ba30077678a2e160f942f4575212c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 30/39] fix: staggered row spans and cells spanning columns and
 rows shifted the cells of the following rows

---
 table.go | 59 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/table.go b/table.go
index c067201..9368058 100644
--- a/table.go
+++ b/table.go
@@ -191,7 +191,27 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
+	//cells spanned by cells of the rows above, by row and column
+	spanned := map[int]map[int]*tableCell{}
+	for ir := 0; ir < len(t.rows); ir++ {
+		row := t.rows[ir]
+		//insert spanned cells between the cells of the row
+		cells := row.cells
+		row.cells = []*tableCell{}
+		for left := len(spanned[ir]); left > 0 || len(cells) > 0; {
+			if sc, ok := spanned[ir][len(row.cells)]; ok {
+				row.cells = append(row.cells, sc)
+				left--
+			} else if len(cells) > 0 {
+				row.cells = append(row.cells, cells[0])
+				cells = cells[1:]
+			} else {
+				row.cells = append(row.cells, &tableCell{
+					zero: true,
+				})
+			}
+		}
+
 		for ic, cell := range row.cells {
 			if cell.rowSpan <= 1 {
 				continue
@@ -199,33 +219,28 @@ func (t *table) processRowSpans() {
 			if cell.spannedBy != nil || cell.zero {
 				continue
 			}
-			//insert spanned cell in following rows
+			//span cells in following rows
 			for n := 0; n < cell.rowSpan-1; n++ {
 				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
 				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
+					t.rows = append(t.rows, &tableRow{})
 				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
+				if spanned[spannedRowIdx] == nil {
+					spanned[spannedRowIdx] = map[int]*tableCell{}
 				}
-
-				newCell := &tableCell{
-					spannedBy: cell,
+				col := ic
+				for s := 0; s < 1+len(cell.spansCols); s++ {
+					for spanned[spannedRowIdx][col] != nil {
+						col++
+					}
+					newCell := &tableCell{
+						spannedBy: cell,
+					}
+					if s == 0 {
+						cell.spansRows = append(cell.spansRows, newCell)
+					}
+					spanned[spannedRowIdx][col] = newCell
 				}
-				cell.spansRows = append(cell.spansRows, newCell)
-
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
 			}
 		}
 	}
-- 
2.43.0


From 42f997e0698f34c13f4b66548ca58307fd7b326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 31/39] fix: a cell with a huge colspan or rowspan exhausted
 memory and time

---
 xdoc/table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..6fc6dd6 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -28,6 +28,10 @@ type TableCell struct {
 	RowSpan int `xml:"rowspan,attr"`
 }
 
+// maxSpan limits the cells that a single cell can add to its table by spanning
+// them. More of them don't fit on a page.
+const maxSpan = 100
+
 func (t *Table) DecodeAttrs(attrs []xml.Attr) error {
 	for _, a := range attrs {
 		switch a.Name.Local {
@@ -51,12 +55,16 @@ func (c *TableCell) DecodeAttrs(attrs []xml.Attr) error {
 			n, err := strconv.ParseInt(a.Value, 10, 64)
 			if err != nil {
 				return err
+			} else if n > maxSpan {
+				return errors.Errorf("invalid value %d for colspan - must be at most %d", n, maxSpan)
 			}
 			c.ColSpan = int(n)
 		case "rowspan":
 			n, err := strconv.ParseInt(a.Value, 10, 64)
 			if err != nil {
 				return err
+			} else if n > maxSpan {
+				return errors.Errorf("invalid value %d for rowspan - must be at most %d", n, maxSpan)
 			}
 			c.RowSpan = int(n)
 		}
-- 
2.43.0


From 6cbc48b33bbf09b2636364bb2a10a6ada95eb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 32/39] fix: a line feed by a negative number of lines depended
 on the text drawn last

---
 engine/fpdf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 1c86784..e34064b 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -223,6 +223,10 @@ func (e *FPDF) GetXY() (float64, float64) {
 }
 
 func (e *FPDF) LineFeed(lines float64) {
+	if _, heightMM := e.pdf.GetFontSize(); heightMM*lines < 0 {
+		e.lineBack(heightMM * lines)
+		return
+	}
 	if !e.finite(lines) {
 		return
 	}
@@ -230,6 +234,17 @@ func (e *FPDF) LineFeed(lines float64) {
 	e.pdf.Ln(heightMM * lines)
 }
 
+// lineBack starts a line further up. gofpdf would move down by the height of
+// whatever text it has drawn last.
+func (e *FPDF) lineBack(height float64) {
+	if !e.finite(height) {
+		return
+	}
+	y := e.pdf.GetY()
+	e.pdf.Ln(0)
+	e.SetY(math.Max(y+height, 0))
+}
+
 func (e *FPDF) ChangeFont(fnt style.Font) {
 	if !e.finite(float64(fnt.PointSize)) {
 		return
-- 
2.43.0


From 0ddf5cc354f40d83f57bf7c841621e7684c1964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 33/39] fix: a box reaching over the left or upper edge of the
 page had its text at the opposite edge

---
 engine/fpdf.go | 14 ++++++++++++--
 process.go     | 13 +++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index e34064b..41a0675 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -207,7 +207,7 @@ func (e *FPDF) SetX(x float64) {
 	if !e.finite(x) {
 		return
 	}
-	e.pdf.SetX(x)
+	e.pdf.SetX(e.position(x, e.PageWidth()))
 }
 
 func (e *FPDF) SetY(y float64) {
@@ -215,7 +215,17 @@ func (e *FPDF) SetY(y float64) {
 		return
 	}
 	//prevent reset fo x-value
-	e.pdf.SetXY(e.pdf.GetX(), y)
+	x := e.pdf.GetX()
+	e.pdf.SetXY(e.position(x, e.PageWidth()), e.position(y, e.PageHeight()))
+}
+
+// position is what to pass to gofpdf for a position: negative ones, which are off
+// the page, would count from the opposite edge.
+func (e *FPDF) position(pos, size float64) float64 {
+	if pos < 0 {
+		return pos - size
+	}
+	return pos
 }
 
 func (e *FPDF) GetXY() (float64, float64) {
diff --git a/process.go b/process.go
index 88734ad..4514362 100644
--- a/process.go
+++ b/process.go
@@ -136,9 +136,11 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.LineFeed:
 			p.engine.LineFeed(i.Lines)
 		case *xdoc.SetX:
-			p.engine.SetX(i.X)
+			//a negative position counts from the right edge
+			p.engine.SetX(fromEdge(i.X, p.engine.PageWidth()))
 		case *xdoc.SetY:
-			p.engine.SetY(i.Y)
+			//and from the bottom
+			p.engine.SetY(fromEdge(i.Y, p.engine.PageHeight()))
 		case *xdoc.Box:
 			p.renderTextBox(i, p.page().printableArea)
 		case *xdoc.Text:
@@ -158,6 +160,13 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 	}
 }
 
+func fromEdge(pos, size float64) float64 {
+	if pos < 0 {
+		return size + pos
+	}
+	return pos
+}
+
 func (p *Processor) renderText(text *xdoc.Text) {
 	if len(text.Instructions.ISS) == 0 {
 		return
-- 
2.43.0


From 6fbe7b1884ddacef1c57566d4ef406205a08cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 34/39] fix: boxes of middle and bottom aligned cells were
 placed by their own height, not the cell's

---
 table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 9368058..81ae990 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -445,12 +446,14 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			height := p.textBoxHeight(is, paddedPa)
+			sty := is.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
+			height := sty.OffsetY + sty.Padding.Top + p.textBoxHeight(is, paddedPa) + sty.Padding.Bottom
+			boxMargin := math.Max(0, paddedPa.Height()-height)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + boxMargin/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + boxMargin)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From 0afb9bebcef023ae9ffc3ab12985129390ae6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 35/39] fix: a box as high as its table cell broke the page in
 the middle of the row

---
 table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table.go b/table.go
index 81ae990..9b880b2 100644
--- a/table.go
+++ b/table.go
@@ -441,6 +441,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
+	//a box at the end of its cell must not break the page within the row
+	preventPageBreak := p.preventPageBreak
+	defer func() { p.preventPageBreak = preventPageBreak }()
 	for _, is := range cell.iss {
 		//a box ends at the left margin of the page
 		p.engine.SetX(paddedPa.x0)
@@ -457,6 +460,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
+			p.preventPageBreak = true
 			p.renderTextBox(is, paddedPa)
 		case *xdoc.Image:
 			p.engine.SetY(paddedPa.y0)
-- 
2.43.0


From 85ce6df73108e2713c15f5bd096af24156f62d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:40 +0000
Subject: [PATCH 36/39] fix: the height of a row did not count the boxes in its
 cells, which were drawn over the next rows and the bottom margin

---
 table.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 9b880b2..d725368 100644
--- a/table.go
+++ b/table.go
@@ -270,7 +270,14 @@ func (p *Processor) assignCellMinHeight(cell *tableCell) {
 
 	textHeight := p.textHeightFnc(cell.Styles)(cell.iss, availableWidth, cell.Styles)
 
-	cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom
+	contentHeight := textHeight
+	for _, is := range cell.iss {
+		if box, ok := is.(*xdoc.Box); ok {
+			contentHeight = math.Max(contentHeight, p.cellBoxHeight(box, PrintableArea{x1: availableWidth}))
+		}
+	}
+
+	cellHeight := contentHeight + cell.Padding.Top + cell.Padding.Bottom
 
 	// if cell spans rows, divide height to spanned cells
 	heightPerCell := cellHeight / float64(1+len(cell.spansRows))
@@ -280,6 +287,12 @@ func (p *Processor) assignCellMinHeight(cell *tableCell) {
 	}
 }
 
+// cellBoxHeight is the height that a box takes in a cell.
+func (p *Processor) cellBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
+	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
+	return sty.OffsetY + sty.Padding.Top + p.textBoxHeight(box, pa) + sty.Padding.Bottom
+}
+
 func (p *Processor) assignHeights(tab *table) {
 	for _, row := range tab.rows {
 		for _, cell := range row.cells {
@@ -449,9 +462,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			sty := is.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
-			height := sty.OffsetY + sty.Padding.Top + p.textBoxHeight(is, paddedPa) + sty.Padding.Bottom
-			boxMargin := math.Max(0, paddedPa.Height()-height)
+			boxMargin := math.Max(0, paddedPa.Height()-p.cellBoxHeight(is, paddedPa))
 			switch cell.VAlign {
 			case style.VAlignMiddle:
 				p.engine.SetY(paddedPa.y0 + boxMargin/2)
-- 
2.43.0


From 8a5f43a618425221483b3548377d608c4ed9f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 37/39] fix: descriptions ran words separated by line breaks or
 several spaces together

---
 xdoc/describe.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 3d44d56..8e85aba 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -10,9 +10,10 @@ import (
 )
 
 func clearStr(s string) string {
-	s = strings.ReplaceAll(s, "\n", "")
-	s = strings.ReplaceAll(s, "  ", "")
-	return strings.Trim(s, " ")
+	//single spaces instead of white space, so that words aren't run together
+	return strings.Join(strings.FieldsFunc(s, func(r rune) bool {
+		return r == ' ' || r == '\t' || r == '\r' || r == '\n'
+	}), " ")
 }
 
 type DescribeItem struct {
-- 
2.43.0


From 6288d3b0026873bc5705f1d04cf63369bb21a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:34 +0000
Subject: [PATCH 38/39] fix: style classes with a missing or surplus brace were
 ignored or misread

---
 style/class.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/style/class.go b/style/class.go
index d4f59d7..ebe846d 100644
--- a/style/class.go
+++ b/style/class.go
@@ -67,17 +67,26 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 		curr := s[pos:]
 		i := strings.IndexByte(curr, '{')
 		if i < 0 {
+			if rest := trimWS(curr); rest != "" {
+				return nil, errors.Errorf("invalid style class syntax (%s)", rest)
+			}
 			return cs, nil
 		}
 		name := trimWS(curr[:i])
 		if len(name) == 0 {
 			return nil, errors.Errorf("style class without name")
 		}
+		if strings.IndexByte(name, '}') >= 0 {
+			return nil, errors.Errorf("non matching brace")
+		}
 		in := strings.IndexByte(curr[i:], '}')
 		if in < 0 {
 			return nil, errors.Errorf("non matching brace")
 		}
 		in += i
+		if strings.IndexByte(curr[i+1:in], '{') >= 0 {
+			return nil, errors.Errorf("non matching brace")
+		}
 		mut, err := DecodeMutator(bytes.NewBufferString(curr[i+1 : in]))
 		if err != nil {
 			return nil, errors.Wrap(err, "parse style")
-- 
2.43.0


From b016aae3007b1180901efa0873d516accfc35f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:34 +0000
Subject: [PATCH 39/39] fix: fonts with an unknown style were taken as regular
 ones or left out

---
 engine/fpdf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 41a0675..e4c4fb7 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -121,8 +121,11 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 			sty = "I"
 		case font.BoldItalic:
 			sty = "BI"
-		default:
+		case font.Regular, "":
 			sty = ""
+		default:
+			//as the regular one it would replace that or be left out
+			return errors.Errorf("font %q: unknown style %q", fd.Name, fd.Style)
 		}
 		return errors.Wrapf(e.addFont(fd.Name, sty, bs), "add font %q", fd.FilePath)
 	})
-- 
2.43.0

