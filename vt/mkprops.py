# writes ../properties.jsonl, ../MANIFEST.json and the properties of ../DESIGN.md: python3 vt/mkprops.py
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,level_note,tech,observe=None,claimed=True,reason=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,note=level_note,tech=tech,observe=observe,claimed=claimed,reason=reason))
PAR="thermal_parser/src/"
CM=PAR+"commands/"
p("C01","Every byte stream is framed into the commands it contains",
 "For every byte stream the parser yields, in stream order between one begin and one end command, exactly the commands the ESC/POS command set recognises in it: each with its own kind, operand bytes and data, runs of plain bytes as text, and sequences that match no command as one unknown command. Commands already complete are the same however the stream goes on, and no byte is given to two commands, invented, or moved past another.",
 ["inputs","histories"],"all byte streams: every recognised opener, every operand byte, every place where the stream may end, every order of commands",
 "The tests parse a few hand written sequences and sample files; framing depends on the whole prefix of the stream, on operand values and on where the stream ends.",
 [PAR+"parser.rs",PAR+"command.rs",PAR+"commands/"],[("command recognition by opener, byte at a time",PAR+"parser.rs"),("per command operand acceptance (push)",PAR+"command.rs")],
 "TLC checks that the declarative framing and the byte machine of the specification agree on every stream of up to 7 (thorough 8) bytes over an alphabet that reaches the rules; ConfParser then judges what the real parser makes of ~60k streams (all short streams over six alphabets, every opener with every operand byte, every truncation, random streams). Trusted: TLC, the observer.",
 "TLA+ specification model checked with TLC; real parser output validated against it",["parse_esc_pos(bytes)"])
p("C02","Payload bytes are data, never commands",
 "The bytes of a payload whose length a command declares (bit images, raster images, graphics and two dimensional code functions, length counted barcodes, text effects) or ends with a NUL (NUL terminated barcodes) belong to that command whatever their values, also when they look like commands. The command right after a payload is recognised at exactly the byte that follows it.",
 ["inputs"],"all payload contents and lengths (zero, up to 65535, beyond 65535 for the large form, and shorter than declared)",
 "Tests use printable or constant payloads of a few lengths; a payload that contains ESC, GS, LF or NUL bytes, or whose length crosses a byte boundary, is not tested.",
 [PAR+"parser.rs",CM+"code_2d.rs",CM+"raster_bit_image.rs",CM+"barcode.rs",CM+"bit_image.rs"],[("length counted push of payload bytes",PAR+"commands/")],
 "The specification gives the extent of every payload; ConfParser judges the real parser on payloads made of openers in every command that has one, for all small lengths, lengths around 255/256/512 and 64 KiB, followed by other commands or cut short.",
 "TLA+ specification of framing; real parser output validated against it by TLC",["parse_esc_pos(bytes)"])
p("C05","Text carries exactly the style its commands set",
 "Every piece of printed text carries the style (font, character cell, width and height magnification, bold, italic, underline, strikethrough, upside down, inversion, text and background colour) that results from the last style commands before it in the stream since the last reset. A style command changes only the attributes it is defined to change, never text received before it, and no other command changes the style of text.",
 ["inputs","histories"],"all sequences of style commands with any operand, interleaved with text and with any other command",
 "Tests render one sample file with some styles; the style is a function of the whole history of commands and of all operand values.",
 [PAR+"context.rs",PAR+"text.rs",CM],[("text style part of the context, copied into each span when text is received",PAR+"text.rs")],
 "The specification states the style both as state and as a function of the history (last command wins) and TLC checks they agree on all sequences over 25 commands; the longest are replayed in the real renderer, as are every style command with every operand byte from two base states and random histories; each printed span's style is judged.",
 "TLA+ model checked with TLC; spans recorded from the real renderer validated against it",["OutputRenderer::render_text"])
p("C06","Reset restores the power on state",
 "After ESC @ the printer prints whatever follows exactly as after power on: all text, justification, spacing, tab, unit, barcode, two dimensional code, page mode, character set and volatile graphics settings have their defaults, whatever came before. Only the paper position and the graphics stored in non volatile memory are kept, and text received before the reset is printed with the settings it was received under.",
 ["histories","inputs"],"all histories before the reset and all streams after it",
 "Tests never send a reset after changing settings; every setting of every command has to be covered.",
 [CM+"initialize.rs",PAR+"context.rs"],[("reset of the context from its default",PAR+"context.rs")],
 "TLC checks the reset law over all sequences over an alphabet of 24 commands; in the real renderer, histories that touch every setting are followed by a reset and a probe, with the whole context and all output events from the reset on judged against the specification.",
 "TLA+ model checked with TLC; whole context after reset in the real renderer validated against it",["Context after DeviceCommand::Initialize","OutputRenderer events"])
p("C07","Text is laid out without loss inside the print width",
 "Printed text contains every received character once and in order, broken into lines at line feeds and, when a line is full, between words (a word longer than a line is broken where the line is full), so that nothing passes the right edge of the line unless a single character is wider than it. Every word is placed at the position the preceding text, tabs (each to the next tab stop on its right) and position commands leave, lines do not overlap, and the next line starts below the tallest character of the line or one line spacing further, whichever is more.",
 ["inputs","histories"],"all texts, character sizes, line spacings, tab and position commands, code tables",
 "The tests cover a handful of texts; wrapping depends on word lengths, sizes, positions and tabs in combination.",
 ["thermal_renderer/src/renderer.rs",PAR+"text.rs",PAR+"context.rs"],[("line breaking and placing of words","thermal_renderer/src/renderer.rs"),("print position arithmetic",PAR+"context.rs")],
 "TLC checks conservation of characters, containment, order and line heights over all sequences of 4 (thorough 6) layout commands; the words, positions and heights of the real renderer are judged on those behaviours, on words of all lengths around the line width after all amounts of text, on all sizes, positions and tabs, and on random texts.",
 "TLA+ model checked with TLC; layout recorded from the real renderer validated against it",["OutputRenderer::render_text"])
p("C08","Lines, images and codes are justified within the print width",
 "Under left, centre or right justification every line of text, block image, barcode and two dimensional code is placed so that the free space of the line is respectively after it, equally on both sides (to one dot), or before it; what is wider than the line starts at its left edge. Each line keeps the justification its text was received under.",
 ["inputs","histories"],"all contents, widths (also wider than the line), sizes and sequences of justification changes, in standard and page mode",
 "The tests look at one or two justified lines.",
 ["thermal_renderer/src/renderer.rs",PAR+"context.rs",CM+"set_justification.rs"],[("offset of a line; calculate_justification",PAR+"context.rs")],
 "TLC checks the placement laws over all sequences of 4 (thorough 6) commands of a justification alphabet; the offsets, image positions and bars of the real renderer are judged on them, on lines and images of every width, all barcode widths and random histories.",
 "TLA+ model checked with TLC; positions recorded from the real renderer validated against it",["OutputRenderer::render_text","OutputRenderer::render_image","OutputRenderer::render_graphics"])
p("C09","The paper position advances as the commands say",
 "After every command the print position is the one the commands so far define: a line feed advances by the larger of the line spacing and the line height, ESC d by n lines, ESC J by n dots, a cut by two lines and its feed, images, barcodes and codes by their height, and horizontal positions in motion units (GS P; 0 selects the default). The paper never moves back except for a reverse feed, which goes back its lines and not beyond the top; nothing in standard mode moves it otherwise.",
 ["histories","inputs"],"all sequences of printing, feeding, spacing, unit, position and reset commands with any operand",
 "No test looks at positions after more than a few commands, nor at operand extremes.",
 [PAR+"context.rs","thermal_renderer/src/renderer.rs"],[("position arithmetic of the context",PAR+"context.rs")],
 "TLC checks monotonicity, reverse feeds and no overprinting over all sequences of 3 (thorough 5) commands of a feeding alphabet; the print position at every event of the real renderer is judged on them, on every operand byte of the feeding commands and on random histories.",
 "TLA+ model checked with TLC; positions recorded from the real renderer validated against it",["Context at every OutputRenderer callback"])
p("C10","Page mode composes a page and prints it once where it belongs",
 "Between ESC L and its printing, everything is placed on a page: in the print area and direction last set, in positions relative to it, without moving the paper; the page turns with the direction, always contains its print area and never loses what is on it when it grows. FF prints the page and returns to standard mode, ESC FF prints it and keeps it, ESC S leaves page mode without printing, and printing advances the paper by the height of the page.",
 ["histories","inputs"],"all sequences of page mode commands (areas, directions, positions, content, printing, leaving, re-entering, reset)",
 "The test suite renders page mode in sample files at most; areas, directions and growth interact through the history.",
 [PAR+"context.rs","thermal_renderer/src/renderer.rs",CM+"set_page_mode.rs",CM+"page_mode_print_area.rs",CM+"page_mode_print_direction.rs",CM+"page_mode_print_data.rs",CM+"select_standard_mode.rs"],[("page mode part of the context, apply_logical_area",PAR+"context.rs")],
 "TLC checks rotation bookkeeping, containment, growth, isolation of the paper and printing over all sequences of 4 (thorough 6) commands of a page alphabet; page events, areas and positions of the real renderer are judged on them, on all sequences of three (four) directions and on random histories. That grown and turned pages keep their pixels is C11/C12.",
 "TLA+ model checked with TLC; page events recorded from the real renderer validated against it",["OutputRenderer page callbacks","Context.page_mode"])
p("C13","Bit images print exactly the dots sent",
 "A raster image (GS v 0) or column image (ESC *) prints a dot exactly where its data has a set bit, with the size its header declares, its dots doubled or stretched as its mode asks, and the padding of the last byte of a row or column not printed. An image whose data is not what its header declares is reported as an error and prints nothing.",
 ["inputs"],"all widths, heights, modes, data bytes and truncations",
 "Tests render a few logos; bit order, padding, modes and truncation over all sizes are not covered.",
 [PAR+"graphics.rs",CM+"raster_bit_image.rs",CM+"bit_image.rs"],[("unpacking of raster and column data",PAR+"graphics.rs")],
 "TLC checks that unpacking is undone by packing, scaling and layering for every small picture; the pixels of the real images are judged for every byte value in every mode, all small sizes, every truncation and random streams.",
 "TLA+ model checked with TLC; image pixels recorded from the real renderer validated against it",["OutputRenderer::render_image"])
p("C14","Stored and buffered graphics print what was last defined",
 "Printing a stored graphic prints the picture last defined under its key in its memory (non volatile or volatile), in its colours and at the size the print command asks for, if it was not deleted since, and prints nothing if there is none; defining, deleting one or all, and resetting affect only their own key and memory. The print buffer prints its layers once, one over the other, and is then empty; a picture whose data does not fit its declared size is an error and not another picture.",
 ["histories","inputs"],"all histories of define, delete, clear, print, buffer and reset functions over any keys, sizes, colours and data, in both command forms",
 "Tests define and print at most one graphic.",
 [PAR+"graphics.rs",PAR+"context.rs",PAR+"subcommands/gs_graphics/"],[("stored graphics map and buffer of the context",PAR+"context.rs")],
 "TLC checks the store against a definition over the history for all sequences of 3 (thorough 5) functions; the store, the pixels printed and the errors of the real renderer are judged on them, on all triples (quadruples) of eleven operations, all function codes, sizes, truncations and random histories.",
 "TLA+ model checked with TLC; store and images of the real renderer validated against it",["OutputRenderer::render_image","Context stored and buffered graphics"])
p("C15","Barcodes draw the bars that encode their data",
 "For every supported symbology the bars drawn are those of the standard encoding of the data including start, stop and check symbols, at the set module width and height, with the human readable text above and/or below as set. Data the symbology cannot encode (wrong length, character or check digit; EAN-13 and UPC-A always get the right check digit) is reported as an error and draws nothing; bars that do not fit the line are left out and none passes its right edge.",
 ["inputs","configurations"],"all kinds, data and lengths, widths, heights, text positions, justifications",
 "The tests render one barcode of some kinds and do not check the bars.",
 [CM+"barcode.rs",PAR+"graphics.rs","thermal_renderer/src/renderer.rs"],[("barcode encoding and validation",CM+"barcode.rs"),("process_barcode","thermal_renderer/src/renderer.rs")],
 "The specification builds symbols from the element widths of the standards; TLC checks that a reader gets the data and a balanced check digit back for all of a grid of data, and for all CODE128 data of 4 (thorough 5) tokens over its code sets, shift and function characters; bars, texts and errors of the real renderer are judged for random and boundary data of every kind, every byte in every kind and all settings. Two patterns the barcode library draws wrong (Codabar +, the last symbol of Code 93) are known findings, probed in every run.",
 "TLA+ model checked with TLC; bars recorded from the real renderer validated against it",["OutputRenderer::render_graphics","OutputRenderer::render_text","RenderOutput::errors"])
p("C17","Text bytes decode to the characters of the selected code table",
 "Every text byte prints the character it has in the code table and international character set selected when it was received; code table 255 decodes text as UTF-8 and replaces what is not valid. Selecting a table or set affects no text received before, and an international set replaces only its own characters.",
 ["inputs","histories"],"all 256 code tables, all 256 character sets, all bytes, all UTF-8 sequences valid or not, all orders of selection",
 "Tests decode a few bytes of a few tables.",
 [PAR+"decoder/mod.rs",PAR+"decoder/",CM+"set_international_charset.rs",CM+"set_code_table.rs"],[("decoder rebuilt when a table or set is selected",PAR+"decoder/mod.rs")],
 "The tables of the specification come from the Unicode mapping tables of the code pages (the international sets from the repository); TLC checks their laws for all tables x sets, and judges the text of the real renderer for every byte in every table, every set, malformed UTF-8 of every lead byte and random selections.",
 "TLA+ tables and UTF-8 decoder model checked with TLC; decoded text of the real renderer validated against them",["OutputRenderer::render_text"])
p("C19","Errors are reported exactly for what cannot be printed",
 "Every sequence the parser cannot recognise and every graphic that cannot be made (invalid barcode data, missing image data, no stored two dimensional code) is reported once, in stream order, with its own description. Drawing to an image also reports, once and after these, each thing drawn wholly outside the paper or the page. Nothing else is reported. An error prints nothing and does not affect how the rest of the stream is printed.",
 ["inputs","histories"],"all streams with any number of unknown sequences and impossible graphics among valid commands",
 "Tests do not look at the errors returned.",
 ["thermal_renderer/src/renderer.rs",PAR+"commands/unknown.rs",PAR+"graphics.rs"],[("error buffer of the renderer","thermal_renderer/src/renderer.rs")],
 "The specification says which errors with which text a stream yields; the error list of the real renderer is judged for every unknown lead and byte, all pairs (triples) of 14 faulty commands and random streams with truncated and invalid data; the errors of the image renderer, with those about things outside the paper, for about 2000 streams that print at and over the edges of paper and pages.",
 "TLA+ specification; error lists of the real renderer validated against it by TLC",["RenderOutput::errors"])
p("C20","Every stream renders to an end, and always to the same result",
 "For every byte stream parsing and rendering (to events, to an image and to HTML) end without a panic, an abort or an endless loop. The result is a function of the stream alone: rendering it again, in any order with other streams, gives the same commands, output and errors.",
 ["inputs","histories"],"all byte streams whose declared pictures and pages are at most some thousand dots a side; arithmetic overflow counts as a panic",
 "Tests render well formed samples only, once.",
 [PAR+"parser.rs","thermal_renderer/src/"],[("total handling of operands","thermal_parser/src/commands/"),("context created per render","thermal_renderer/src/renderer.rs")],
 "The real parser and renderers are run with overflow checks on every single byte, every opener with extreme operands, random, mutated and random-command streams, twice in different orders and processes; the events, images, documents and commands of both runs are compared (and the events and errors with those of a run with debugging marks and notes), and begin/end and errors are judged against the specification, which is total; about 2950 streams that print the same text, bars, symbols and pictures under different settings are rendered in four orders.",
 "total TLA+ specification; real runs validated against it by TLC and compared with their repetition",["parse_esc_pos","Renderer::render","ImageRenderer::render","HtmlRenderer::render"])
p("C21","A stream is one job with one result",
 "Rendering a stream begins one print job before anything is printed and ends it after everything has been printed, with all pending text printed before the end; the result is one output. Page mode form feeds, cuts, resets and errors do not end or restart the job.",
 ["inputs","histories"],"all streams without a form feed in standard mode (which ends the job early: a known finding)",
 "Tests only render complete samples.",
 ["thermal_renderer/src/renderer.rs",PAR+"parser.rs",CM+"formfeed.rs"],[("begin and end commands added by the parser",PAR+"parser.rs")],
 "TLC checks one begin and one end over all sequences of 4 (thorough 6) commands of a job alphabet; begin, end and the number of outputs of the real renderers are judged on them, on all sequences of up to 3 (4) of eleven commands and on random streams, also through the image and HTML renderers' own entry points.",
 "TLA+ model checked with TLC; job events and outputs of the real renderers validated against it",["RenderOutput::output","OutputRenderer begin_render/end_render"])
p("C03","A job written as .thermal text reads back as the same job",
 "For every byte stream, the .thermal text written for its commands reads back as bytes that parse to the same commands: same kinds, order, operand bytes and data, for text, unknown sequences and payloads of any content. The text is one that a person can edit: comments name the command and never change what is read back.",
 ["inputs"],"all streams of commands with any operands, payload bytes and text, including quotes, backslashes, control characters, bytes that are not UTF-8 and text that looks like the format's own words",
 "Tests convert two sample files; quoting and splitting depend on the content of every text and payload.",
 [PAR+"thermal_file.rs",PAR+"command.rs",PAR+"commands/",PAR+"subcommands/mod.rs"],[("writer of .thermal text",PAR+"thermal_file.rs"),("get_command_bytes of each handler",PAR+"command.rs")],
 "TLC checks on every stream of up to 4 (thorough 5) bytes over an alphabet of quotes, escapes and commands that what a writer says the reader reads back as the same commands. For ~9k streams (all short streams over five alphabets, every operand byte, payloads around the width of a line, words of the format as text, random and truncated streams) the text the real writer wrote is read by the specification: its comments name the commands and its lines hold their bytes in order, the real reader reads the same, and the commands parsed from that are those of the stream.","TLA+ specification of the format and the parser model checked with TLC; real text, bytes and commands validated against it",["cmds_to_thermal(commands)","parse_str(text)"])
p("C04","A .thermal text reads as the bytes it denotes",
 "Reading a .thermal text yields the bytes its tokens denote, in order: named constants, hex and decimal bytes, the UTF-8 bytes of quoted strings with their escapes resolved, and other words as they are. Comment lines and blank lines yield nothing, white space only separates tokens, a token ends where a quote begins, and an escaped quote or backslash does not end a string.",
 ["inputs"],"all texts: every order of words, quotes, backslashes, spaces, non ASCII characters and line ends, complete or not",
 "Tests tokenize three lines; the tokenizer is a state machine whose behaviour depends on the whole line.",
 [PAR+"thermal_file.rs"],[("tokenizer parse_tokens and reader parse_str",PAR+"thermal_file.rs")],
 "TLC checks that the declarative reader and a tokenizer machine agree and that the laws of quoting, lines, comments and white space hold for every text of up to 4 (thorough 5) characters over 12; the bytes the real reader makes of ~28k texts (all short texts over eight alphabets, pairs of 56 words with all separators, all numerals, Unicode white space, random and long texts) are judged by the specification.","TLA+ model checked with TLC; bytes of the real reader validated against it",["parse_str(text)"])
p("C11","The canvas keeps every dot where it was put",
 "The canvas of the image output keeps its width; drawing changes exactly the dots of the drawn rectangle that lie on the canvas, composing ink over ink, grows the paper downwards when needed and leaves every other dot as it was. Turning the page moves every dot to its turned place and turning back restores it, growing the page keeps every dot at its place in the standard direction, and flipping mirrors only its own rectangle.",
 ["inputs","histories"],"all sequences of drawing, turning, growing, flipping and widening on canvases of any size, at any position, on or off the canvas",
 "The tests compare a few whole receipts; they cannot cover positions at and beyond edges or sequences of turns and growth.",
 ["thermal_renderer/src/image_renderer/thermal_image.rs",PAR+"graphics.rs"],[("put_pixels, crop_pixels, rotations, expand_page, flip_pixels","thermal_renderer/src/image_renderer/thermal_image.rs")],
"TLC checks the laws of the canvas (untouched dots keep their ink, four quarter turns restore, growth keeps places in every direction, a flip is its own inverse) over all sequences of 2 (thorough 3) operations on small canvases. The real canvas's every dot after every operation is judged for ~15k operation sequences: every rectangle at every place of small canvases, all pairs of turns with all growths, ink over ink, and random sequences on small and large canvases.","TLA+ model of the canvas checked with TLC; real canvases after every operation validated against it",["ThermalImage pixels"])
p("C12","The receipt image shows exactly what the job printed",
 "The final image of a stream is as wide as the paper and as long as what was printed and fed, and consists of exactly the images, bars, two dimensional codes, characters' cells and pages that were printed, each at its position, in its colour and orientation, in stream order, over blank paper: nothing is missing, moved, cut off inside the print area, drawn twice or left over from elsewhere.",
 ["inputs","histories"],"all streams of images, graphics, barcodes, codes, text with background, page mode and feeding",
 "Tests compare whole images of samples with images made by the same code.",
 ["thermal_renderer/src/image_renderer/mod.rs","thermal_renderer/src/image_renderer/thermal_image.rs","thermal_renderer/src/renderer.rs"],[("callbacks of ImageRenderer","thermal_renderer/src/image_renderer/mod.rs")],
 "Picture.tla is the canvas as a grid of cells; TLC checks that it is the canvas of Canvas.tla dot for dot over all sequences of 2 (thorough 3) operations. Receipt.tla says what every specified event draws. Every dot of ~4k final images of the real renderer (letters in every style and size, things at and over every edge of paper and page, all pairs and many triples of 27 drawing commands, random jobs) is compared with it, colours to within 2 of 255 per channel. The shapes of letters are taken from the letter printed alone (the font is not specified) and are only asked to be different from each other.","TLA+ specification of the picture as composition of the specified events; final images of the real renderer validated against it by TLC",["ImageRenderer::render"])
p("C16","Two dimensional codes print the symbol of the data last stored",
 "Storing a QR code makes exactly the data stored into a symbol that reads back by the standard: at the model, error correction level and module size set at that moment, in the first version, from the one whose byte capacity holds the data, that holds it at that level. Data with no room is an error when printed, and leaves no earlier symbol to be printed in its place. Printing draws every dark module once, as a square of that size, as often as it is asked for, and advances by the height of the symbol. The settings of every two dimensional code are kept as their commands say, and functions of the codes that are not supported print nothing.",
 ["inputs","histories","configurations"],"all data and lengths, models, levels, module sizes, orders of the set, store and print functions, for every two dimensional code",
 "Tests print one QR code and do not read it back; which version, mask and segments a symbol has depends on the data, its length, and the settings at that moment.",
 [PAR+"subcommands/gs_code2d/",PAR+"graphics.rs",PAR+"context.rs","thermal_renderer/src/renderer.rs"],[("QR store and print",PAR+"subcommands/gs_code2d/"),("Code2D settings",PAR+"context.rs")],
 "A reader of QR codes (normal versions 1 to 40, micro 1 to 4) written in TLA+ reads every symbol the real code stores: patterns, format and version information, Reed Solomon code words, segments, padding, and that the version is the one to expect. TLC checks the reader against a writer of its own: every symbol written reads back, and with any one module turned over it does not. Orders of set, store and print are enumerated over 18 commands and replayed. Not read: the error correction of micro versions 1 and 3. Model 1 is taken to be printed with the layout of model 2, up to version 14.",
 "TLA+ QR reader checked with TLC against a TLA+ writer; symbols stored and drawn by the real renderer validated against it",["OutputRenderer::render_graphics","Context.code2d"])
p("C18","The HTML receipt shows the same job as the image",
 "The HTML of a stream contains, in stream order, one row for each line, image, code and page printed outside page mode, at the same positions as in the image: every character of the text, escaped so that it never becomes markup, with classes for its style, images and pages as pictures with the same dots, codes as rectangles. Everything else in the document is the template.",
 ["inputs","histories"],"all streams, in particular texts with markup characters or template words and pictures of any size",
 "Tests write HTML of samples and compare nothing but that it is produced.",
 ["thermal_renderer/src/html_renderer/mod.rs","thermal_renderer/src/html_renderer/thermal_html.rs","thermal_renderer/resources/templates/thermal.html"],[("rows of the receipt","thermal_renderer/src/html_renderer/mod.rs"),("spans, images and svg","thermal_renderer/src/html_renderer/thermal_html.rs")],
 "Html.tla says what a document shows for every specified event - texts with their place, look and characters, pictures with every dot, rectangles of codes, the length of the paper - and how rows are placed by a browser; TLC checks that rows written one after the other, back up the paper and without height too, are read where they were written. ~4k documents of the real renderer (every style and magnification, every character, markup and template words, things on the same line and above earlier ones, pages, all pairs of 34 drawing commands, random jobs) are read by a small HTML, CSS and PNG reader and compared with it. Not judged: the shapes and widths of a browser's letters.",
 "TLA+ specification of the document; documents of the real renderer, read into rows, validated against it by TLC",["HtmlRenderer::render"])
P.sort(key=lambda q:q["id"])
import os
def fix(f):
    return f
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps({"id":q["id"],"title":q["title"],"statement":q["statement"],
          "quantifier":{"over":q["over"],"text":q["text"]},"why_tests_cant":q["why"],
          "anchors":{"files":q["files"],"mechanism":[{"name":a,"where":b} for a,b in q["mech"]],"observe_at":q["observe"] or [],"hook_needed":None}})+"\n")
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":q["id"],"quick_cmd":"VERIF_TIER=quick ./check "+q["id"],"thorough_cmd":"VERIF_TIER=thorough ./check "+q["id"],
   "evidence_file":"evidence/%s.json"%q["id"],"technique":q["tech"],"level":"model_checking","level_note":q["note"]} for q in P if q["claimed"]],
 "not_applicable":[{"property":q["id"],"reason":q["reason"]} for q in P if not q["claimed"]],
 "notes":"TLA+ with TLC. No hooks in /repo: everything is observed through its public API. ./check ID --replay FILE runs a recorded violation again."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
for q in P:
    for fl in q["files"]:
        if not os.path.exists('/repo/'+fl): print(q["id"],"no file",fl)
    for a,b in q["mech"]:
        if not os.path.exists('/repo/'+b): print(q["id"],"no mech",b)

d=open('/verif/DESIGN.md').read()
i=d.index('## Properties\n'); j=d.index('\n## ',i+5)
d=d[:i]+'## Properties\n\n'+'\n\n'.join('**%s %s.** %s'%(q["id"],q["title"],q["note"] if q["claimed"] else "Not claimed: "+q["reason"]) for q in P)+'\n'+d[j:]
open('/verif/DESIGN.md','w').write(d)
