"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
L = "elsie/boxtree/layout.py"; V = "elsie/boxtree/value.py"; M = "elsie/boxtree/boxmixin.py"
B = "elsie/boxtree/box.py"; Z = "elsie/boxtree/lazy.py"; SH = "elsie/slides/show.py"
SL = "elsie/slides/slide.py"; SD = "elsie/slides/slidedeck.py"; TP = "elsie/text/textparser.py"
TB = "elsie/text/textboxitem.py"; TS = "elsie/text/textstyle.py"; SC = "elsie/text/stylecontainer.py"
HL = "elsie/text/highlight.py"; SX = "elsie/utils/sxml.py"; CA = "elsie/utils/cache.py"
GE = "elsie/utils/geom.py"; AR = "elsie/shapes/arrow.py"; PA = "elsie/shapes/path.py"
SVD = "elsie/render/backends/svg/draw.py"; SVB = "elsie/render/backends/svg/backend.py"
SVU = "elsie/render/backends/svg/utils.py"; SVR = "elsie/render/backends/svg/rcontext.py"
CB = "elsie/render/backends/cairo/backend.py"; CD = "elsie/render/backends/cairo/draw.py"
CR = "elsie/render/backends/cairo/rcontext.py"; CS = "elsie/render/backends/cairo/shapes.py"
CT = "elsie/render/backends/cairo/text.py"; RE = "elsie/render/render.py"; IM = "elsie/render/image.py"
INK = "elsie/render/inkscape.py"; JU = "elsie/render/jupyter.py"; ORA = "elsie/render/ora.py"
PM = "elsie/render/pdfmerge.py"; LI = "elsie/ext/list.py"; MD = "elsie/ext/markdown.py"

p("C01", "Managed children are stacked in order, without gaps, and centred",
  "Children of a vertical (horizontal) box that have no explicit position along the main axis are laid out in order, each starting exactly where the previous one ends, and when none of them is a fill child the stack is centred so that the leftover space is equal before and after it. Across the main axis every child without an explicit position is centred in the parent's content area. Children with an explicit main-axis position never move the others.",
  ["inputs", "programs"], "all real-valued parent rectangles, paddings, child sizes and all mixes of managed/positioned children of both orientations",
  "the layout tests render a few fixed decks and compare SVG text; they cannot cover every combination of sizes, paddings and child kinds",
  [L, M], [("one pass over children with a running main-axis cursor", L+":set_rect"), ("managed children filter", L+":managed_children")], ["rectangle of each box after the slide is prepared"])
p("C02", "Fill children share exactly the leftover space by weight",
  "In every box the main-axis space left after all non-fill managed children is divided among the fill children proportionally to their weights, so that all managed children together cover the content area exactly. A fill size across the main axis equals the full content size of the parent. Weights come from \"fill\" (1) or \"fill(N)\".",
  ["inputs", "programs"], "all real-valued rectangles and child sizes, all fill weights and mixes of fill, percent, fixed and positioned children",
  "tests use a handful of weights and sizes", [L, V],
  [("fill unit computed from leftover", L+":set_rect"), ("fill size", V+":SizeValue.compute")], ["rectangle of each box"])
p("C03", "Box sizes honour the requested size, the content minimum and paddings",
  "A box is as large as its request (number, or percent of the parent's content area) but never smaller than its content: the maximum (across) or sum (along the axis) of its managed children's minimum sizes, its text and image sizes, plus its own paddings; a box without a request gets exactly that minimum. Its content area is the box minus its paddings, where a side padding overrides the per-axis padding, which overrides the common padding. A dynamically computed size is used as is.",
  ["inputs", "programs"], "all real-valued sizes, percents, paddings and nesting of boxes up to the stated depth",
  "size precedence depends on comparisons between real values; tests sample single outcomes", [L, V, M],
  [("size request computed bottom-up", L+":compute_size_request"), ("minimum growing", V+":SizeValue.ensure"), ("padding precedence", L+":_set_padding")], ["rectangle of each box"])
p("C04", "Explicit positions are relative to the parent's content area on both axes",
  "A child positioned with a number N is N from the parent's content origin, with \"P%\" it is at P percent of the parent's content size along that axis, and with \"[P%]\" it is aligned so that P percent of the free space of that axis lies before it (0 = flush at start, 100 = flush at end). This holds for x and y independently, whatever the parent's orientation and aspect ratio.",
  ["inputs", "programs"], "all parent rectangles, child sizes, numbers and percents; both orientations",
  "only a few square-ish or vertical cases are pinned; axis mix-ups are invisible there", [L, V],
  [("position evaluation", V+":PosValue.compute"), ("per-axis placement", L+":set_rect")], ["rectangle of each box"])
p("C05", "Dynamic coordinates resolve against the final layout of their box",
  "A dynamic coordinate or point taken from a box (number, percent, centre point) always resolves to the corresponding point of that box's final content area, no matter when it was created or whether the layout was computed before; adding an offset shifts the resolved value by exactly that offset and never changes the original point. Shapes, boxes and sizes defined through dynamic values use the resolved values, and plain pairs are relative to the box they are drawn in.",
  ["inputs", "programs", "histories"], "all rectangles, offsets, percents and re-layouts with changed geometry",
  "laziness and aliasing are only exercised by one or two fixed decks", [L, Z, M, PA],
  [("lazy closures over the layout", L+":x/y/point"), ("mapping of lazy values", Z+":LazyValue.map")], ["drawn primitives' coordinates"])
p("C06", "Size and position strings follow the documented grammar",
  "A size is accepted exactly when it is a number, a dynamic value, or a string of the form NN, NN%, fill or fill(NN); a position exactly when it is a number, a dynamic value, or NN, NN% or [NN%]; and the accepted string has exactly the documented meaning. Every other string is rejected with an error instead of being interpreted.",
  ["inputs"], "all strings up to the stated length over all Unicode characters", "tests try about ten strings",
  [V], [("size grammar", V+":SizeValue.parse"), ("position grammar", V+":PosValue.parse")])
p("C07", "Fragment selectors accept the documented grammar and mean what it says",
  "A fragment selector (number, \"A\", \"A-B\", \"A+\", comma separated lists with optional spaces, with \"next\"/\"last\" as the start of an element) makes an element visible in exactly the fragments it lists, and an open-ended element in all fragments from its start on; no selector means visible everywhere. Malformed selectors (empty items, reversed ranges, two open ends, stray characters) are rejected.",
  ["inputs"], "all selector strings up to the stated length, all fragment numbers and current maxima within bounds",
  "tests sample some selectors and steps", [SH], [("selector parser", SH+":ShowInfo.parse"), ("visibility", SH+":ShowInfo.is_visible")])
p("C08", "Fragment counting and relative selectors follow the creation history",
  "After any sequence of box creations the slide's current fragment is the highest fragment mentioned so far (at least 1), \"next\" resolves to that number plus one and \"last\" to that number at the moment the box is created, and later boxes never change what earlier ones resolved to. The slide is rendered in exactly as many pages as its highest fragment (counting fragments contributed by images), and each box is visible in exactly the pages its selector says.",
  ["histories", "programs"], "all histories of box/image creations with arbitrary selectors within bounds", "tests run a couple of fixed histories",
  [SH, SL, M, B], [("running maximum", M+":box"), ("page count", SL+":steps"), ("image steps", B+":_ensure_steps")])
p("C09", "Each page paints exactly the visible items in z-order, then tree order",
  "A page paints an item exactly when its box and every enclosing box are visible in that fragment. Items are painted by increasing z-level and, within the same z-level, in depth-first order of the box tree; a box without explicit z-level inherits its parent's. Prepended boxes come first among siblings and boxes created above (below) a sibling come immediately after (before) it, without affecting geometry order of others.",
  ["programs", "configurations"], "all trees within the stated shapes, all z-levels, visibilities and insertion modes",
  "tests pin few trees with few z-levels", [B, M, SVB, CB], [("painter collection", B+":get_painters"), ("stable sort by z-level", SVB+":create_render_unit"), ("sibling insertion", B+":add_child")], ["sequence of draw operations of a page"])
p("C10", "Inline style markup keeps the text and yields well-nested style spans",
  "Parsing styled text either fails or yields well-nested style spans whose text, with newlines, is exactly the input without the style commands and their closing brackets (newlines after the last text are dropped), where each span covers exactly the text between its brackets. A doubled escape character stands for one literal escape character, closing brackets outside any span are ordinary text, unclosed commands are rejected, and a disabled escape character leaves the text untouched. This holds for every choice of escape and bracket characters.",
  ["inputs"], "all strings up to the stated length over the full character set, all escape/bracket choices", "tests parse about a dozen strings",
  [TP, M], [("inline style parser", TP+":parse_text"), ("token normalisation", TP+":normalize_tokens")])
p("C11", "Merging highlighting with inline styles preserves text and both stylings",
  "When syntax highlighting and inline styles of the same text are merged, the result is well nested, spells exactly the same text and line breaks, and every character is covered by exactly the same styles it had in each of the two inputs, whatever their overlap.",
  ["inputs"], "all pairs of well-nested token streams over the same text within bounds", "tests merge five hand-written pairs",
  [TP, M], [("interleaving of two token streams", TP+":tokens_merge")])
p("C12", "Line and inline boxes wrap exactly the requested lines and style spans",
  "A line box starts at the top of the requested line and covers the requested number of lines of the (possibly scaled) vertically centred text; an inline box wraps the n-th span of the requested style on its own line, using the measured offset and width of that span in the context of all styles open on that line, scaled with the text. Requests for a missing span are rejected.",
  ["inputs", "programs"], "all token streams within bounds, all indices, rectangles, measured extents and scales", "tests use a few texts with fixed geometry",
  [TB, TP], [("line extraction", TP+":extract_line"), ("geometry of inline boxes", TB+":_text_box_helper"), ("geometry of line boxes", TB+":line_box")])
p("C13", "Code snippets show exactly the given code, tabs expanded, correctly numbered",
  "A highlighted or plain code snippet spells exactly the given code (tabs replaced by the requested number of spaces, surrounding trailing newlines dropped) with each fragment in the style of its token class, including empty lines and tokens spanning lines, with or without inline styles. With line numbers every line starts with its own 1-based number, zero-padded to a common width, styled as a line number and followed by a space. Common indentation removal shifts all lines by the same amount and loses no character but that indentation.",
  ["inputs"], "all code texts and lexer token partitions within bounds, all tab sizes", "tests highlight a few snippets",
  [M, HL, TP], [("token stream formatter", HL+":MyFormatter.format"), ("line numbers", TP+":add_line_numbers"), ("indent removal", TP+":trim_indent")])
p("C14", "SVG text is well-formed and gives each character its effective style",
  "For every parsed text and style table the SVG text element is well-formed, contains exactly the text line by line with the proper line advance, and each character is drawn with the attributes obtained by applying its enclosing styles from the outside in. A style of lower priority than an enclosing one is ignored, marker styles starting with '#' do not change the appearance, unknown style names are rejected, and none of this depends on where line breaks fall inside the spans.",
  ["inputs"], "all well-nested token streams within bounds, all style tables and priorities", "tests compare a few rendered texts",
  [SVD], [("text drawing", SVD+":draw_text")], ["generated SVG"])
p("C15", "Generated XML is well-formed and carries attributes and text unchanged",
  "Any sequence of element, attribute and text writes yields well-formed XML whose parsed tree has exactly the written structure, attribute values and texts (spaces becoming non-breaking spaces in text), for every string including quotes, ampersands and angle brackets. Unbalanced or misnamed closings are rejected rather than written.",
  ["inputs", "programs"], "all strings within bounds over all XML characters, all write sequences within bounds", "no test writes special characters into attributes",
  [SX], [("escaping writer", SX+":Xml")])
p("C16", "Cairo text attributes match the styles and cover the right bytes",
  "In the Cairo backend every character of a text is given the size, font, colour, weight and slant of its effective style (enclosing styles applied from the outside in, lower priorities ignored, markers without effect), with attribute ranges measured in bytes of the produced text, and empty lines keep their height. The lines of a text in one style advance by its font size times its line spacing (times its scale when scaled to fit), whatever the font's metrics and the slide's view box; the text spans its box, is centred vertically in it and rotated about its centre. A measured inline span covers exactly the bytes of that span's text, also when it is nested in others.",
  ["inputs"], "all well-nested token streams within bounds over 1- to 4-byte characters, all style tables", "Cairo text is only smoke-tested on pictures",
  [CT, CR], [("attribute ranges", CT+":get_text_and_attributes"), ("line distance", CT+":build_layout"), ("span byte range", CT+":get_byte_range")])
p("C17", "Combining text styles overrides exactly the attributes that are set",
  "Composing a style with another yields a new style in which every attribute set by the second has the second's value and every other attribute keeps the first's, leaving both inputs unchanged; updating does the same in place. Priorities are never unset, attribute assignments of a wrong type or an unknown choice are rejected and leave the style unchanged.",
  ["inputs"], "all attribute values and set/unset combinations", "tests compose two or three styles",
  [TS], [("update of set slots", TS+":TextStyle.update"), ("validation", TS+":_check_*")])
p("C18", "Style definitions are scoped to the box and its later descendants",
  "A style set or updated in a box is seen by that box, and by boxes created inside it afterwards, but never by its parent, siblings, other slides, boxes created earlier or the style object the caller passed in; looking a style up never lets the caller modify the stored one. Using a style by name applies it on top of the default style visible in that box, and unknown names are rejected.",
  ["histories"], "all histories of box creation, set, update and lookup within bounds, all attribute values", "aliasing between copied tables shows only in particular histories",
  [SC, TS, M, SD], [("copy on write of the style table", SC+":set_style/update_style"), ("lookup copy", TS+":compose_style")])
p("C19", "Images keep their aspect ratio, fit the box and are centred",
  "An image is drawn with its own aspect ratio, centred in its box; with an explicit scale at exactly that scale, otherwise at the largest size that fits the box's content area (using the one non-zero dimension if the other is zero). An image in a box without requested size makes the box request the (scaled) image size, and with one given dimension the other follows from the aspect ratio.",
  ["inputs"], "all image sizes, scales, rectangles, paddings; bitmap and SVG images", "a few fixed pictures are tested",
  [M, L], [("scale selection", M+":scaler"), ("size request", L+":set_image_size_request")], ["drawn image rectangle"])
p("C20", "Image fragments appear exactly in the slide fragments they select",
  "In an SVG image loaded with fragments, an element is drawn in a slide fragment exactly when its label and those of all its ancestors select the corresponding image fragment; the fragments start at the given first fragment, an explicit selection list maps each slide fragment to the chosen image fragment or to nothing, and the page count grows to show all of them. Without fragments the whole image is shown from its first fragment on. Drawing one fragment never affects another, and other content of the image is kept.",
  ["inputs", "configurations"], "all labelled trees within bounds, all fragment offsets and selection lists", "one test image with fixed labels",
  [IM, M, SH], [("hidden element removal", IM+":create_image_data"), ("fragment count", IM+":get_image_steps"), ("fragment mapping", M+":_image_svg")])
p("C21", "Arrow heads sit at the line end, symmetric, with the line shortened to them",
  "An arrow head has its tip exactly at the line's original end point and two barbs of the given size at the given angle on both sides of the line, symmetric about it, with the optional inner point on the line at the documented fraction. The line itself is shortened along its own direction so that it does not protrude past the tip, and the other end and all other points are unchanged.",
  ["inputs"], "all segment end points, sizes, angles, stroke widths, inner factors", "tests render a few arrows",
  [AR, GE, M], [("head geometry", AR+":Arrow.render"), ("end shift", AR+":Arrow.move_end_point"), ("segment resize", GE+":segment_resize")])
p("C22", "Paths mean the same in the Cairo and in the SVG backend",
  "For every sequence of path commands M, L, C, S, Q and T with any number of repeated arguments, the curve drawn by the Cairo backend is the curve the SVG standard assigns to the path the SVG backend emits, including reflected control points of smooth segments and current points. Invalid commands or argument counts are rejected.",
  ["inputs", "programs"], "all command sequences within bounds, all real coordinates", "one path picture per backend, compared to itself only",
  [CS, PA, SVD], [("Cairo path emission", CS+":draw_path"), ("SVG path emission", SVD+":draw_path"), ("command validation", PA+":check_and_unpack_path_commands")])
p("C23", "Shapes have the box's geometry, paint and rotation in both backends",
  "A rectangle, ellipse or polygon covers exactly its box or points, is filled and stroked exactly when the respective colour is given, with the given stroke width and dash pattern, and is rotated clockwise by the given angle about its own centre, equally in the SVG and the Cairo backend; a slide view box maps the requested region centred and undistorted onto the page. Rounded corners never exceed half of the side, and drawing one shape never changes how later ones are drawn.",
  ["inputs", "programs"], "all rectangles, point lists within bounds, rotations, radii, paints and sequences of shapes", "pictures of a few shapes",
  [SVD, CD, CR, SVU], [("SVG primitives", SVD), ("Cairo primitives", CR), ("view box", CD+":apply_viewbox")])
p("C24", "The file cache returns the right content after any history of use",
  "For every history of lookups, renders, prunings, failures and restarts, a cache lookup returns a path or content that was produced for exactly that input and type by a completed constructor run, running the constructor at most once while the entry is kept; pruning removes exactly the entries not used since the cache was opened, and a removed, failed or half-written entry is never returned as valid but rebuilt. Entries of other versions are never reused.",
  ["histories", "crash_points", "fault_sequences"], "all histories within bounds over symbolic contents, with constructor failures and crashes at any file operation", "tests only cover fresh builds",
  [CA], [("entry bookkeeping", CA+":FsCache.ensure"), ("pruning", CA+":FsCache.remove_unused")])
p("C25", "Concurrent cache users get one finished entry",
  "When several threads request the same cache entry at once under any interleaving, its constructor runs once at a time and never again after success, every waiting requester gets the path only after the entry is finished, nobody waits forever even if a constructor fails, and a non-waiting requester never blocks.",
  ["schedules", "fault_sequences"], "all interleavings of two to three requesters at shared-state accesses, with constructor failures", "no test uses threads",
  [CA], [("lock and in-progress conditions", CA+":FsCache.ensure")])
p("C26", "The text-measurement cache is transparent",
  "Cached text measurements always equal what measuring again would return: distinct texts, styles or measured quantities never share a cached value, zero measurements are values like any other, and saved measurements are reused by a later session only if both the program version and the Inkscape version are the same, and then exactly; a save interrupted at any point leaves the previously saved or the new measurements readable. Pruning keeps exactly the measurements used since the last pruning.",
  ["histories"], "all histories of queries, prunes, saves and reloads within bounds over symbolic data", "no test reloads a cache",
  [SVB], [("query cache", SVB+":process_query"), ("load/save", SVB+":_load_query_cache/_save_query_cache")])
p("C27", "Slide naming policies hold after every history",
  "After any history of slide additions (including inserted PDFs) the unique policy never lets two slides share a name, the replace policy keeps exactly the newest slide of each name at the end in creation order, and the ignore policy keeps everything in creation order. Invalid names and policies are rejected without changing the deck, and looking up a name returns the slide with that name or nothing.",
  ["histories"], "all histories within bounds over symbolic names and policies", "tests try one short history per policy",
  [SD], [("policy application", SD+":_apply_name_policy"), ("lookup", SD+":get_slide_by_name")])
p("C28", "Rendering emits every page once, in order, grouped as requested",
  "Rendering emits the fragments of the selected slides in order, each exactly once, with inserted PDF pages at their place, and hands them to the merger in that order. Grouping several slides per page places slides row by row in the requested grid cells, starts a new page when one is full, keeps the order with inserted PDFs, and drops or repeats nothing. Restricting to selected slides renders only those, in the given order, slide postprocessing gets the root box of each of them, and the PowerPoint export has one slide per page, in the same order, covered by the page.",
  ["programs", "configurations"], "all decks within bounds, all fragment counts, grids and selections", "two grid tests with fixed decks",
  [SD, RE, PM], [("page loop", SD+":render"), ("grid grouping", RE+":per_page_grouping"), ("merging", PM)])
p("C29", "Rendering is repeatable",
  "Rendering the same deck again, or several times in different ways, or after renderings in the middle of its construction, yields identical pages, whatever pages were made before: rendering never changes geometry, text scaling, fragments, caches' answers or slide content in a way visible to a later rendering.",
  ["histories"], "all boxes/texts/images within bounds, symbolic geometry, two renderings", "tests render each deck once",
  [SD, L, TB, M], [("layout recomputation", L+":set_rect"), ("scale-to-fit callback", TB+":TextBoxItem")])
p("C30", "List counters, labels and indentation follow the nesting",
  "In any history of items and sublists an ordered list numbers its items consecutively from its start value, prefixed by the counters its enclosing lists had when it was made (or by the explicitly given prefix), independent of sublists in between; unordered items carry the list's label unless overridden, overrides given to an item affect only that item, and box arguments given to a list apply to all its items and sublists. Label functions are called once per label with the counters of that item, and what they do with that list has no effect on others. Items of lists nested with the same indents are aligned, the box of a sublist is inset in the box of its enclosing list by the accumulated indent (the sum of its own indent and those of the lists around it), and so is each item in the box of its list, contents follow the label after the label padding, and items are placed below each other in the order of their creation; without a show argument they appear together with the fragments made before them.",
  ["histories"], "all histories within bounds, symbolic starts, indents and labels", "a few fixed nestings",
  [LI], [("list builder", LI+":ListBuilder")])
p("C31", "Markdown content is rendered completely and in order",
  "Every supported markdown block is rendered in document order with its complete text in the style of its kind: headings by level, paragraphs, quotes, code with its language, list items with the right numbering or bullet, and bold, italic and link spans styled inside their text. Nothing is dropped or duplicated, user styles for these kinds override the built-in ones, and text containing brackets or the escape character is not corrupted.",
  ["inputs", "programs"], "all documents within the stated block shapes with symbolic inline texts", "fixed documents",
  [MD], [("block builders", MD+":build*"), ("inline conversion", MD+":get_raw_text")])
p("C32", "The Inkscape dialogue stays in step and reports failures",
  "Whatever text Inkscape prints before its prompt, each command gets the answer that belongs to it, queries return exactly the number printed last or raise a clear error, every opened document is closed even when a query fails, exports write the page of the given document to the requested file or are reported, messages on the error stream never block the dialogue, and a terminated Inkscape is reported as an error instead of hanging forever.",
  ["fault_sequences", "inputs"], "all output texts within bounds over a symbolic alphabet, termination at any point", "needs adversarial output of an external process",
  [INK], [("prompt recognition", INK+":InkscapeShell.wait_for_prompt"), ("query", INK+":InkscapeShell.run_query"), ("document scope", INK+":svg_file_input")])
p("C33", "Identifier renaming keeps every reference intact",
  "Renaming the identifiers of an SVG tree with a suffix renames every identifier exactly once and updates every reference to an existing identifier, alone or inside a longer attribute, to the renamed one, leaving all other text alone, also when one identifier is a prefix of another.",
  ["inputs"], "all trees within bounds with symbolic identifiers and references", "one test document",
  [SVU], [("identifier renaming", SVU+":rename_ids")])
p("C34", "ORA layers become SVG with position, order, opacity and visibility kept",
  "Converting an ORA image yields one SVG image per visible, non-empty layer, bottom layer first, at the layer's position plus its cropped offset and within the translations of its groups, with its size, name and opacity; invisible layers and groups produce nothing.",
  ["inputs", "programs"], "all layer trees within bounds, symbolic positions, opacities, crops and visibilities", "one sample file",
  [ORA], [("layer conversion", ORA+":_layer_to_svg/_stack_to_svg")])
p("C35", "SVG lengths convert to pixels by their unit",
  "A length string made of a decimal number and an optional absolute SVG unit (px, mm, cm, in, pt, pc) is converted to the corresponding number of CSS pixels at 96 per inch (to the precision of the documented factors), without unit it is taken as pixels, and a string that is no such length is rejected.",
  ["inputs"], "all numbers, units and malformed strings up to the stated length", "tests use two lengths",
  [SVU], [("unit conversion", SVU+":svg_size_to_pixels")])
p("C36", "Notebook HTML shows every fragment once and navigation stays in range",
  "The notebook representation of a slide contains one numbered entry per fragment in order, with that fragment's content, and navigation controls exactly when there is more than one fragment, bound to the right number of fragments; displaying a slide renders only that slide and never removes cached files.",
  ["inputs", "programs"], "all fragment counts within bounds and symbolic fragment contents", "one fixed slide",
  [JU], [("html assembly", JU+":render_slide_html")])
p("C37", "Text scaled to fit fills its box and keeps its proportions",
  "A text drawn with scale-to-fit is scaled uniformly by the largest factor for which it fits the content area of its box, it is vertically centred and horizontally anchored by its alignment, and it requests space only along dimensions the box leaves unspecified; a text without scale-to-fit makes its box at least as large as the text and is drawn unscaled. Text height is the number of lines times font size times line spacing.",
  ["inputs"], "all text extents, rectangles, paddings, font sizes, spacings and alignments", "one test per option",
  [TB, SVR], [("scale callback", TB+":TextBoxItem.__init__"), ("drawing position", TB+":TextBoxItem.render")], ["text draw operation"])
p("C38", "LaTeX snippets show their own picture, centred at the given scale",
  "A LaTeX snippet is compiled as header, snippet and tail unchanged, once for each distinct document, and a failure of either program is reported with its message and not kept. Its box has room for the picture at the given scale, and both backends draw the picture uniformly scaled and centred in the box. Every snippet on a page shows its own picture, whose identifiers and references are not shared with other snippets.",
  ["inputs", "histories", "faults"], "all snippets, headers, tails, picture sizes, scales, boxes and histories of uses and failures", "no test runs LaTeX, and none draws it with Cairo",
  ["elsie/ext/latex.py", CA, SVU], [("snippet box and drawing", "elsie/ext/latex.py:latex"), ("compilation", "elsie/ext/latex.py:_render_latex")], ["programs run, drawing operations of the page"])
p("C39", "Debugging output shows every box and page and changes nothing else",
  "On a slide with debug_boxes every visible box gets one unfilled frame at its area above its content (at least 0.1 in each direction) and one label with its name and size, in both backends, and everything else on the page is the same as without debug_boxes. A deck in debugging mode additionally writes the SVG of every rendered page to a file of its own, whatever the name policy.",
  ["programs", "inputs"], "all box trees, positions, sizes, names, fragments, z-levels and decks within bounds", "no test uses debug_boxes with fragments or debugging mode",
  [B, SD, RE], [("debug frames", B+":_debug_paint"), ("debug files", RE+":SvgRenderUnit.write_debug")], ["drawing operations of the page, files of the cache directory"])
p("C40", "The background of a slide covers the whole page behind everything",
  "A slide with a bg_color, or else with a bg_color of its deck, is painted in every fragment with that colour filling the whole page below all its other content, in both backends, whether it was made by new_slide or by the decorator. The background adds no page and no other slide's background, and moves and hides nothing.",
  ["programs", "inputs"], "all page sizes, slide contents and combinations of deck and slide colours within bounds", "no test renders a slide with a background colour together with positioned, filled or below-zero z-level content",
  [B, SD], [("background box", SD+":SlideDeck.new_slide"), ("decorator", SD+":SlideDeck.slide")], ["rectangles of every page, in paint order"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80 or x["statement"].count(". ") > 2])
