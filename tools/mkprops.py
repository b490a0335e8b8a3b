#!/usr/bin/env python3
# Regenerates properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Loading does not depend on how a stream delivers its bytes",
 "Loading a document, a set of style classes, an inline style or a hyphenation pattern table from a stream (or file) gives the same outcome - the same content, or an error - for every way in which the same bytes can be split into reads, including one-byte reads, reads that return nothing, and end-of-stream reported together with the last bytes. What is loaded is the whole of the input: every element, text and pattern in it, in order; a document with an element that is not known where it stands (inside table cells and grid parts excepted) is refused.",
 ["inputs","schedules"],"every input text of any size, and every legal delivery schedule of the reader for it",
 "Tests load from one in-memory buffer that is delivered in a single read; no test uses a reader that splits, stalls or merges EOF with data.",
 ["xdoc/doc.go","xdoc/instructions.go","xdoc/table.go","style/class.go","style/decode.go","hyphenation/pattern.go","hyphenation/hyphenation.go"],
 [("streaming XML decode","xdoc/doc.go Load"),("read-all before parsing styles","style/class.go DecodeClasses"),("line scanner","hyphenation/pattern.go parsePatterns")],
 ["the loaded document's instructions, texts and resolved styles","Hyphenate results","returned error"])
p("C02","A failed or truncated input never loads as if complete",
 "If the stream or file that a document, style classes, an inline style, a hyphenation pattern table or a font definition is being loaded from fails before its content has been delivered completely, loading returns an error and no object. The same holds for a document whose stream simply ends before the document's closing tag.",
 ["inputs","fault_sequences"],"every input, every byte offset at which the stream can fail or end, every kind of read error, every delivery schedule before it",
 "No test injects a read error; the failing offset ranges over every byte of every input.",
 ["xdoc/doc.go","xdoc/instructions.go","xdoc/table.go","xdoc/grid.go","style/class.go","style/decode.go","hyphenation/pattern.go","font/definition.go"],
 [("token errors returned by every nested decoder","xdoc/instructions.go, xdoc/table.go, xdoc/grid.go"),("read-all error returned","style/decode.go"),("scanner error","hyphenation/pattern.go parsePatterns")],
 ["returned error and object of the load calls"])
p("C03","Success means the writer accepted the whole PDF",
 "Rendering returns success only if the output writer has accepted every byte of a complete, well-formed PDF; if the writer fails or accepts fewer bytes than offered, at any byte position up to and including the last one, rendering returns an error. Whatever the writer accepted is always a prefix of the PDF that the same render would have produced without the fault, and nothing is written again after a failed write.",
 ["inputs","fault_sequences"],"every document, every byte offset at which the writer fails, every kind of failure (error, short write, error after partial write)",
 "No test renders a document to a writer at all, let alone a failing one.",
 ["process.go","engine/fpdf.go"],
 [("error of the write is returned","process.go Process"),("output is assembled in memory first and handed over","engine/fpdf.go WritePDF")],
 ["error returned by Process","bytes accepted by the writer"])
p("C04","A render whose backend fails reports it and emits nothing",
 "If the PDF backend enters an error state at any moment of a render - while laying out the body, inside a header or a footer, on a page break, or in the footer of the last page - rendering returns an error and not a single byte reaches the output writer. This includes the failures a document itself provokes, such as using a font family that is not defined.",
 ["inputs","fault_sequences"],"every document and every backend operation of its render as the moment of failure",
 "No test drives a render with a failing backend; the failing operation ranges over all operations of all documents.",
 ["process.go","engine/fpdf.go"],
 [("sticky backend error checked before output","process.go Process"),("error check around the final page's footer","engine/fpdf.go WritePDF")],
 ["error returned by Process","bytes accepted by the writer"])
p("C05","Image file faults: left out or reported, never half-drawn",
 "An image file that is missing, cannot be opened, or cannot be recognised as an image is left out, and everything else in the document comes out exactly as if the image element were not there. If a recognised image then cannot be read to its end, rendering returns an error and writes nothing. A successful render shows, for every other image element, the complete image at the place and size its style asks for: with at most one of width and height given it keeps its proportions, and it never exceeds the area it is placed in.",
 ["inputs","fault_sequences"],"every document with images (top level, in table cells, in headers and footers), every disk operation on an image file as the failing one, short reads everywhere",
 "No test renders an image; disk faults at a given read of a given file cannot be produced from a unit test.",
 ["image.go","engine/fpdf.go","process.go","table.go"],
 [("image is described before it is placed","image.go renderImage"),("backend error when the data cannot be read","engine/fpdf.go PutImage")],
 ["drawn images and all other marks in the produced PDF","error returned by Process"],
 hook="simulated disk under the os package (build overlay, no change in /repo)")
p("C06","A font set is loaded completely or refused",
 "Loading a font definition file and creating a rendering engine from it either makes every font named in it available in every style given for it - file paths taken relative to the definition file's folder, wherever the process runs - or returns an error, as it does for a style that does not exist. No failure to open or read the definition or any of the font files, at any byte, is swallowed, and text is drawn with the font of exactly the file registered for its family and style.",
 ["inputs","configurations","fault_sequences"],"every font definition (families, styles, relative and absolute paths, working directories), every disk operation as the failing one, every way of splitting reads",
 "No test loads a font definition or a font file.",
 ["font/definition.go","font/registry.go","engine/fpdf.go"],
 [("every font file read and registered at engine creation","engine/fpdf.go initFonts"),("path resolution against the definition's folder","font/definition.go LoadRegistryFromFile")],
 ["errors returned","paths opened on disk","text rendered in each registered font"],
 hook="simulated disk under the os package (build overlay)")
p("C07","Concurrent loads and renders do not influence each other",
 "Loads and renders that run at the same time in different goroutines - each with its own engine and processor, but sharing one loaded document, hyphenator, font registry and the files on disk - each produce exactly the result they would have produced alone. There is no unsynchronised access to shared memory between them, under any interleaving.",
 ["schedules","inputs"],"every interleaving of the statements of two to four concurrent operations (load document, load patterns, load fonts, create engine, render, describe, hyphenate) on generated inputs",
 "Every test is single-threaded.",
 ["process.go","xdoc/registry.go","xdoc/style.go","style/decode.go","style/class.go","hyphenation/hyphenation.go","hyphenation/en-us.go","font/registry.go","image.go"],
 [("per-render state kept in the processor","process.go Processor"),("shared objects are read-only after loading","xdoc/doc.go, hyphenation/hyphenation.go, font/registry.go"),("instruction prototypes never written","xdoc/registry.go")],
 ["results of each operation compared with its solo run","race detector reports"],
 hook="scheduler hook before every statement (build overlay)")
p("C08","A render depends only on its document and the files, not on history",
 "Rendering, loading, describing or hyphenating gives the same result no matter what the process did before: the same loaded document can be rendered any number of times, after any number of other documents, and after operations that failed at any point, with the same output as in a fresh process. None of these operations changes the loaded document, and files are read as they are at the time of the operation, not as they were for an earlier one.",
 ["histories","fault_sequences"],"every sequence of operations in one process, including operations interrupted by a fault, and file changes between them",
 "Each test performs one operation on fresh objects; histories and failed operations are never composed.",
 ["process.go","xdoc/doc.go","xdoc/registry.go","style/class.go","hyphenation/hyphenation.go","image.go","font/definition.go"],
 [("all render state lives in the processor and the engine","process.go NewProcessor"),("style resolution works on copies","xdoc/style.go MutatedStyles")],
 ["output of the last operation against a fresh process","deep content of the loaded document before and after"])
p("C09","Header and footer do not disturb the body",
 "Whatever the header and footer contain - text, boxes, tables, images, font changes, position changes, line feeds - and at whatever moment of the body's layout a page break makes them run, every mark of the body (its text, frames, fills and images) has the same page, position, font, size and colour as in the same document with an empty header and footer.",
 ["inputs","histories"],"every header, footer and body; every point in the body's layout at which a page break interrupts it",
 "No test renders a document with a header or footer; the interrupt point depends on the whole layout.",
 ["process.go","text.go","text-hyph.go","table.go"],
 [("position saved and restored around the callbacks","process.go Process OnHeader/OnFooter"),("backend restores font and colours","gofpdf AddPage")],
 ["marks of the body in the produced PDF with and without header/footer"],
 [("current styles","font in effect for the next element","process.go Processor.currStyles"),("prevent-page-break flag","set while a callback runs","process.go Processor.preventPageBreak")])
p("C10","Every page carries its complete header and footer once",
 "Every page of a successfully rendered document, the first and the last included, shows all content of the header and all content of the footer exactly once, in order, wherever they are positioned, boxes and texts at the places their position elements name (a negative position counts from the right or bottom edge of the page); {cp} in them is that page's number, counted from 1, and {np} is the total number of pages. A header or footer never causes a page break itself.",
 ["inputs","histories"],"every header and footer, every document, every sequence of explicit and automatic page breaks",
 "No test renders a header or footer or counts pages.",
 ["process.go","engine/fpdf.go"],
 [("header and footer callbacks","process.go Process"),("page break suppression while they run","process.go preventPageBreak, table.go, process.go renderTextBox"),("page count alias","engine/fpdf.go SetPageCountAlias"),("current page marker replaced while laying out","process.go tr")],
 ["header and footer marks of every page"])
p("C11","Flowing text appears completely, once, in order",
 "All text of the body's text and box elements - raw text, paragraphs, line breaks, left, right, centred or block aligned with hyphenation, in any font - appears in the produced PDF exactly once, in document order, and (offsets of boxes that move them off it aside) inside the page, no matter where page breaks fall within or between the elements. Words that white space separates in the document are never run together, and no gap appears inside a word. The only characters ever added are hyphens at line ends of block-aligned text, the only place where a word that fits on a line is divided.",
 ["inputs","histories"],"every sequence of text and box elements, every page geometry, hence every position of every automatic or explicit page break in the flow",
 "Tests only check table span bookkeeping and hyphenation of single words; no test looks at rendered text.",
 ["process.go","text.go","text-hyph.go","hyphenation/hyphenation.go","text/text.go","engine/fpdf.go"],
 [("line breaking","text.go textLines, text-hyph.go textLinesHyphenated"),("writing line by line with automatic page break","text.go writeText, text-hyph.go writeTextHyphenated")],
 ["text runs of the produced PDF, attributed by colour, in drawing order"])
p("C12","Table rows appear once, in order, under repeated headers",
 "Every body row of a table is drawn exactly once and in order; a row that fits on a page below the repeated header rows is never split across pages and stays above the bottom margin. With repeated header rows configured, each page on which the table continues starts with exactly these rows, once and complete, before the next body row, at the same horizontal positions; and where the header rows and the first body row fit on a page together they are not separated. The text of a cell (given one font size and no fixed height) and its boxes (given no fixed height, or one that is enough for them) lie inside the cell, the boxes aligned vertically as the cell says, on the page of their cell.",
 ["inputs","histories"],"every table whose repeated header rows fit on a page and whose words fit their columns (rows, cells, heights, row and column spans, repeat counts) and every position on the page where it starts, hence every page break position",
 "The table tests check span bookkeeping only; no test renders a table or breaks one across pages.",
 ["table.go","process.go"],
 [("page break check per row","table.go renderTable"),("header rows drawn again after a break","table.go renderTable")],
 ["cell frames and cell text per page"])
p("C13","Every operation ends, without panicking",
 "Loading, describing and rendering end within a number of steps and an amount of memory bounded by the size of the document, and never panic, for every document - malformed, degenerate or oversized (rows, boxes or words larger than the page, page breaks inside headers and footers) - and under every combination of reader, writer, disk and backend faults.",
 ["inputs","fault_sequences","histories"],"every document whose numeric attributes have ordinary magnitudes, every combination and moment of faults",
 "The tests use a handful of well-formed inputs and no faults.",
 ["process.go","table.go","text.go","text-hyph.go","hyphenation/hyphenation.go","xdoc/instructions.go","engine/fpdf.go"],
 [("page-break suppression in callbacks","process.go"),("a row is drawn even if it does not fit after a break","table.go renderTable"),("errors instead of panics","xdoc")],
 ["return of the operation within the step budget and the budget of allocated bytes"],
 hook="step counter before every statement (build overlay)")
p("C14","Files are only read, and always closed again",
 "When a load, render, describe or font operation returns, successfully or not, every file it opened has been closed, whatever disk fault interrupted it. None of these library operations creates, changes, renames or deletes a file.",
 ["fault_sequences","inputs"],"every operation, every disk operation inside it as the failing one",
 "No test observes file handles or injects disk faults.",
 ["xdoc/doc.go","hyphenation/hyphenation.go","image.go","font/definition.go","engine/fpdf.go"],
 [("deferred Close","xdoc/doc.go LoadFromFile, hyphenation/hyphenation.go LoadFromFile, image.go DescribeImage")],
 ["open handles and mutations of the simulated disk"],
 hook="simulated disk under the os package (build overlay)")
p("C15","The command line tool's exit status tells the truth",
 "The xpdf command exits with status 0 only if the output file holds a complete PDF of the input document, and with a non-zero status whenever reading the input, the font definition or a font, rendering, or creating, writing or closing the output failed. It changes no file other than the output file, and after a crash or failure at any point, running it again on a healthy disk produces the same complete output as a first run.",
 ["fault_sequences","crash_points","inputs"],"every invocation (with and without output argument), every disk operation as the failing one or the crash point",
 "No test runs the command.",
 ["cmd/xpdf/main.go"],
 [("exit codes on every error","cmd/xpdf/main.go main")],
 ["exit status","content of the simulated disk after exit or crash"],
 hook="command's main run in-process on the simulated disk, os.Exit intercepted (build overlay)")
p("C16","Output does not depend on map order or the clock",
 "Describing or rendering the same document with the same files always gives the same description text and the same PDF content, independent of the run-time's random map iteration order and of the time of day; only the creation date recorded in the PDF may differ.",
 ["schedules","inputs"],"every document and every iteration order of every map the code ranges over, every clock value and clock jump",
 "Map order is re-randomised by the runtime on every range, so a test sees an arbitrary sample it neither controls nor repeats.",
 ["xdoc/diff.go","xdoc/describe.go","style/decode.go","grid.go","engine/fpdf.go"],
 [("diff entries in sorted key order","xdoc/diff.go interfaceDiff"),("style keys set independent fields","style/decode.go DecodeMutator")],
 ["description dump","marks of the PDF"],
 hook="seeded map iteration and simulated clock (build overlay)")
p("C17","An element's style applies to that element only",
 "Every text, box, paragraph and table cell of the body is drawn in the font, size, decoration, colours and (paragraphs excepted, which flow with their element) alignment and line spacing that result from the document defaults, the font elements before it in the body, its enclosing elements and its own classes (in the order listed, a selector's rules instead of the class's for the first and last rows and cells of a table) and then its inline style; a box inside a table cell counts as an element of the body and does not inherit from the table. Texts and boxes start at the left margin or where the last position element before them says (a negative position counts from the right or bottom edge of the page), and a line feed moves down, or up when negative, by its number of lines of the font that the font elements before it select; block-aligned lines fill the width, except for those that a line break or the end of the text ends, which are not stretched; frames have a line on exactly the sides that the border style names, and text stands inside the padding where the vertical alignment puts it. What other elements are styled like - earlier siblings, paragraphs inside them, images left out because of a fault, headers and footers run by a page break in their middle - has no influence on it.",
 ["inputs","histories"],"every sequence of styled elements and every page break and image fault between and inside them",
 "No test renders two elements in a row, and the leak depends on which elements and interrupts precede.",
 ["process.go","text.go","text-hyph.go","table.go","xdoc/style.go"],
 [("styles resolved on copies","xdoc/style.go"),("styles restored after each element","process.go resetStyles")],
 ["font, size and colour of each text run, fill of each frame"],
 [("current styles","what the next element starts from","process.go Processor.currStyles")])
p("C18","A box that fits on a page is never torn apart",
 "A box whose frame fits on one page is drawn with its frame and all its text on one page above the bottom margin (at the top margin if it is the first of its page and a box precedes it), its text inside its frame (given one font size and no fixed height), and at the horizontal position it would have had without the page break. The same holds inside headers and footers, which never break the page.",
 ["inputs","histories"],"every box (padding, width, offsets, alignment, borders) at every vertical position, hence on either side of every page break",
 "No test renders a box; the failing positions are the narrow bands just above the bottom margin.",
 ["process.go","text.go","text-hyph.go","draw.go"],
 [("height computed before drawing, page break if it does not fit","process.go renderTextBox")],
 ["frames (fills) and text runs per page"])
p("C19","A description states everything in the document and nothing untrue",
 "The JSON and XML descriptions of a loaded document contain its meta data, page format, orientation and all four margins, and every element of header, footer and body, in document order and nesting, with its kind, its numbers (a table's number of repeated header rows excepted), texts (their white space may be replaced by single spaces) and sources, and exactly those style values that its classes and inline style set (zero, black and empty values, which a description leaves out, excepted), with their values.",
 ["inputs"],"every document (any elements, nesting, classes, inline styles) under any map iteration order",
 "Tests look at no description; each element kind and each style property has its own code for it.",
 ["xdoc/describe.go","xdoc/diff.go"],
 [("one case per element kind","xdoc/describe.go"),("reflective difference of styles","xdoc/diff.go")],
 ["JSON and XML dump of every document against the generated one"])
p("C20","The describe and image commands report the truth or fail",
 "The describe command exits with status 0 only if the complete description of the whole document has been written to standard output, and the image command only if the format and the dimensions of the image have been; they exit with another status whenever their input is missing, unreadable or invalid or standard output cannot be written, they succeed when none of this happens, and they never change a file.",
 ["inputs","environment","fault timing"],"every input, and every open, read or standard output error at any byte of it, alone and together",
 "No test runs the commands, and no test has a failing disk or a full standard output.",
 ["cmd/describe/main.go","cmd/image/main.go","xdoc/doc.go","xdoc/describe.go"],
 [("command describe","cmd/describe/main.go"),("command image","cmd/image/main.go")],
 ["exit status","bytes accepted by standard output","set of changed files"])
p("C21","A page break moves content and changes nothing else about it",
 "Wherever page breaks fall - because the margins or the page height are other ones or something precedes - the body consists of the same texts, frames, fills, lines and images in the same order, each at the same horizontal position and with the same size, font and colours, and with the same vertical distance to its predecessor on the same page; only the page and the height on it may differ. Every page, however it came about, has the document's format and orientation. (Given that no box, or row together with the repeated header rows, is higher than a page, no word wider than its line, and a cell or box has one font size and no fixed height.)",
 ["inputs","histories"],"every document and every place a page break can interrupt the layout of its body",
 "A test sees one document with its page breaks where they are; the property relates all renders of the same body with the breaks anywhere.",
 ["process.go","text.go","text-hyph.go","table.go","image.go","engine/fpdf.go"],
 [("page break before a box","process.go renderTextBox"),("page break inside flowing text","text.go writeText"),("page break between table rows","table.go")],
 ["marks of the body for several placements of the breaks"])
p("C22","Table cells cover exactly their columns and rows",
 "In every row of a table and on every page it reaches, repeated header rows included, a column has the same left edge and width: the widest column width its cells ask for, or else an equal share of what the fixed columns leave of the table's width (the printable width or the narrower one of its style), so that the columns together fill that width. A cell is drawn over exactly the columns and rows its spans cover, cells of following rows stand in the first columns that no cell above covers, the cells of a row have one top and (spanning ones excepted) one height, at least its fixed heights, rows adjoin without gaps or overlaps, and what follows the table starts where its last row ends.",
 ["inputs","histories"],"every arrangement of spans and widths at every position, hence with every place a page break can interrupt the rows",
 "Tests look at the span bookkeeping of ten small tables; none draws one, and none has spans that meet a page break, repeated header rows or each other.",
 ["table.go","process.go"],
 [("span bookkeeping","table.go processSpans"),("column widths","table.go assignColumnWidths"),("row heights","table.go")],
 ["frames of the cells on the pages"])
p("C23","A value that cannot be parsed makes loading fail",
 "A document in which a number, a list of numbers, a colour, the syntax of a style, a class (its braces included), a numeric attribute or a margin is damaged so that it cannot be parsed is refused with an error, wherever the value stands (body, header, footer; class, selector or inline; used or not; the contents of table cells and grids excepted, which are loaded as far as they can be) and however the document is delivered: no damaged value is ignored, replaced by a default or misread. (Text behind four complete numbers of a list is not judged.)",
 ["inputs","fault_sequences"],"every place a value can be damaged at, every splitting of the input and every map iteration order",
 "Tests sample one bad padding.",
 ["style/decode.go","style/class.go","style/box.go","style/color.go","xdoc/style.go","xdoc/table.go","xdoc/doc.go"],
 [("errors of decoding returned","style/decode.go DecodeMutator"),("errors of attributes returned","xdoc/registry.go DecodeInstruction")],
 ["error of Load and LoadFromFile"])
# pure functions: listed, not claimed
p("N04","Hyphenation follows the patterns",
 "A word is split exactly where the loaded patterns give an odd weight, never inside a character, and the parts joined give the word back.",
 ["inputs"],"every word and pattern table","Tests sample a few words.",
 ["hyphenation/hyphenation.go","hyphenation/pattern.go"],[("pattern weights","hyphenation/hyphenation.go Hyphenate")],["Hyphenate results"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
