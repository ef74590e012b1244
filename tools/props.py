#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], na=na))

INP = ["inputs", "configurations"]

prop("C01", "Rendering never panics, whatever the markdown, skin, width and area",
  "For any markdown source (valid or not), any skin (any margins, alignments, chars), any width (0 included) or none, and any area (0 included), building and writing a text, an inline snippet, a fitted composite, or a scrolled or resized view in an area completes without panicking or returning an error. A non empty list of lines never produces an empty output.",
  INP, "every source string x skin x width/area x scroll amount; generated: 0..300 chars, widths and areas from 0, margins up to 100000",
  "Tests render a dozen fixed sources with comfortable widths: the degenerate widths, prefixes wider than the width, tables without room, and huge scrolls are never reached.",
  ["src/fit/wrap.rs", "src/tbl.rs", "src/text.rs", "src/skin.rs", "src/view.rs", "src/composite.rs"],
  [("width arithmetic of wrapping, tables, areas", "src/fit/wrap.rs, src/tbl.rs, src/area.rs, src/view.rs")],
  "property-based testing: generated documents/skins/widths, no-panic oracle",
  "no panic, arithmetic overflow, or error on generated documents, skins, widths, areas, with overflow checks on")

prop("C02", "A rendered line is never wider than the requested width",
  "When a markdown text is rendered for a width (at least 3, and leaving room for the margins, the bullet or quote mark and one char), no displayed row is wider than this width. When rows are completed (as in a view), each one is exactly as wide as requested. Emoji sequences count for their real width: a text in which they replace wide chars has the same layout.",
  INP, "every markdown document x skin x width >= 3 where one char fits beside the prefix",
  "The quantifier is over every document and width; the tests check a few wrapped sentences.",
  ["src/fit/wrap.rs", "src/text.rs", "src/tbl.rs", "src/line.rs", "src/composite.rs", "src/code.rs"],
  [("hard wrapping of composites and tables", "src/fit/wrap.rs, src/tbl.rs"), ("spacing and alignment", "src/spacing.rs, src/skin.rs")],
  "property-based testing: measured width of the terminal-decoded rows",
  "the output is decoded (escapes removed) and measured with unicode-width")

prop("C03", "Wrapping keeps all the text: no char lost, duplicated or reordered",
  "Wrapping a line keeps every non-blank char exactly once, in order, and never puts together two words which were separated. Only the blanks at which a line is cut can disappear, words are only cut in their middle when they wouldn't fit alone on a row, and a row isn't cut earlier than needed by breaking a word. A text rendered raw shows its source verbatim, markdown marks included.",
  INP, "every markdown line (paragraph, header, list item, quote, code) or raw text x skin x width",
  "Tests only check the number of lines or the width of a few sentences.",
  ["src/fit/wrap.rs", "src/fit/composite_wrap.rs", "src/text.rs", "src/tokens.rs", "src/composite.rs"],
  [("hard_wrap_composite: token based cutting", "src/fit/wrap.rs"), ("raw texts", "src/text.rs")],
  "property-based testing: independent model of the displayed chars and of the allowed cuts",
  "the rows are compared with what the parsed source must display")

prop("C04", "Every displayed char has the style its markdown and the skin give it",
  "Each char is displayed with the style obtained by applying, over the style of its kind of line (paragraph, header of its level, code block, quote...), the skin's bold, italic, strikeout and inline code styles according to the markdown around it, and only this, whether or not the line is wrapped; bullets, quote marks and ellipses have their own skin style. An inline text, however it is written, shows exactly its chars with these styles, with the skin's special chars replacements applied exactly on the compounds they're defined for.",
  INP, "every markdown line x skin (colors, attributes, chars) x width",
  "No test looks at styles at all.",
  ["src/skin.rs", "src/compound_style.rs", "src/composite.rs", "src/inline.rs", "src/fit/wrap.rs", "src/styled_char.rs"],
  [("compound_style, line_style, write_fmt_composite", "src/skin.rs"), ("overwrite_style", "src/compound_style.rs")],
  "property-based testing: per-char style model of the skin against the decoded escapes",
  "the SGR sequences are interpreted by a terminal emulator")

prop("C05", "Margins, alignment and prefixes place the content where the skin says",
  "A displayed row is made of the spaces of the left margin and of the alignment (left, centered or right between the margins), then the prefix (bullet with its indentation, quote mark, or the continuation of an item) and the text; continuation rows of list items follow the skin's indentation mode. When it's completed for a width, only paragraph-styled spaces are added on the right, up to exactly this width.",
  INP, "every markdown line x skin (margins, alignments, list indentation modes) x width or none",
  "Alignment and margin combinations depend on the available width: tests don't check them.",
  ["src/skin.rs", "src/line_style.rs", "src/composite.rs", "src/displayable_line.rs", "src/fit/wrap.rs", "src/list_indentation.rs"],
  [("completions and margins", "src/composite.rs, src/line_style.rs, src/skin.rs")],
  "property-based testing: layout model against the decoded rows",
  "same model as C04, with the pads checked")

prop("C06", "Tables are rectangular, aligned, and fit the available width",
  "All the rows of a displayed table have the same width and their vertical borders and rules' junctions are in the same columns; the borders use the skin's chars according to their position. A table which fits the width has its natural column widths; otherwise columns are reduced (never under 3) by just what is needed or, if even this isn't enough, the last ones are removed, so that the table is no wider than the available width.",
  INP, "every table (1..n columns, ragged rows, rules anywhere) x skin x width",
  "Tests render one table with one width.",
  ["src/tbl.rs", "src/fit/tbl_fit.rs", "src/text.rs", "src/table_border_chars.rs"],
  [("Table::fix_columns, TblFit", "src/tbl.rs, src/fit/tbl_fit.rs")],
  "property-based testing: table geometry oracle on the decoded rows",
  "columns removal and widths are checked against an independent computation")

prop("C07", "A table cell's text is all in its own column, and aligned as specified",
  "The text of a table cell is displayed, wrapped if needed, in the column and in the rows of this cell only, none of it being lost unless its column is removed for lack of room. It's aligned in its column according to the alignment row which precedes it (or starts the table), with the cell's styles.",
  INP, "every table x skin x width",
  "Tests don't check the content of wrapped cells.",
  ["src/tbl.rs", "src/text.rs", "src/skin.rs"],
  [("Table::fix_columns, spacing in write_fmt_line", "src/tbl.rs, src/skin.rs")],
  "property-based testing: per-cell content, style and alignment model",
  "each cell is checked with the line model of C03-C05 in its column")

prop("C08", "Code blocks are displayed verbatim, as a rectangle in the code style",
  "The lines of a code block (fenced or indented) are displayed without any markdown interpretation, in the code block style, one row per line and with all spaces kept when the block fits. All the rows of the block are completed to the same width, the whole block being placed by the margins and alignment of the skin.",
  INP, "every code block x skin x width",
  "One test has a code block; no test with code looking like markdown, or wider than the width.",
  ["src/code.rs", "src/text.rs", "src/skin.rs", "src/fit/wrap.rs"],
  [("code::justify_blocks", "src/code.rs")],
  "property-based testing: verbatim rectangle oracle",
  "rows compared with the source lines")

prop("C09", "A text in an area shows exactly its lines, and nothing out of the area",
  "Writing a text (or a view) in an area fills every cell of the area and no other cell of the terminal: row j shows the line scroll+j of the text, or is blank after the end. The last column shows the scrollbar when the text is higher than the area, and the terminal style is reset at the end.",
  INP, "every document x skin x area x scroll",
  "No test writes in an area.",
  ["src/view.rs", "src/text_view.rs", "src/mad_view.rs", "src/skin.rs", "src/area.rs", "src/displayable_line.rs"],
  [("TextView::write_on", "src/text_view.rs"), ("write_in_area_on", "src/skin.rs")],
  "property-based testing: terminal emulator, cell by cell comparison",
  "an ANSI emulator records which cells are written, with which style")

prop("C10", "Scrolling stays in the bounds of the content and moves by what's asked",
  "After any sequence of scroll requests (by lines, pages, keys) and resizes, the scroll of a view is the previous one moved by the requested amount, clamped so that it's never negative nor past the last page of the content. Key handlers tell whether the scroll changed.",
  ["histories", "inputs"], "every sequence of scroll operations and resizes x content height x area height",
  "No test scrolls; the property is about histories, up to i32 extremes.",
  ["src/view.rs", "src/text_view.rs", "src/mad_view.rs"],
  [("set_scroll, try_scroll_lines, try_scroll_pages", "src/text_view.rs, src/mad_view.rs")],
  "stateful property-based testing against an integer reference model",
  "exact model for text views; width changes of a MadView may reset the scroll")

prop("C11", "The scrollbar tells the truth about the position in the content",
  "A scrollbar is there if and only if the content is higher than the area. Its thumb is inside the track, proportional to the visible part, at the very top if and only if nothing is above, at the bottom when the end is visible, and never goes up when scrolling down, whatever the size of the content.",
  ["inputs"], "every scroll x content height (up to a million lines) x area",
  "No test for the scrollbar.",
  ["src/scrollbar.rs", "src/area.rs", "src/text_view.rs"],
  [("compute_scrollbar", "src/area.rs")],
  "property-based testing: geometric and monotonicity oracle",
  "")

prop("C12", "Fitting a text in a width keeps as much as possible and marks what's cut",
  "Fitting a composite in a width leaves it unchanged when it fits; otherwise the result is not wider than the width and is the source, with styles, in which the removed parts are replaced by an ellipsis: at the end if left aligned, at the start if right aligned, on the sides if centered. Filling adds to this the spaces, on the sides the alignment tells, needed to have exactly the width.",
  ["inputs", "configurations"], "every composite (styles, wide and zero width chars, empty parts) x width x alignment",
  "Tests have a handful of fixed strings and widths.",
  ["src/fit/composite_fit.rs", "src/composite.rs", "src/skin.rs", "src/spacing.rs"],
  [("Fitter", "src/fit/composite_fit.rs"), ("fill_width", "src/composite.rs")],
  "property-based testing: ellision relation and maximality oracle",
  "")

prop("C13", "Cropped strings have the longest prefix that fits, and exact column counts",
  "Fitting a string in a number of columns gives its longest prefix not going past them (tabs being two spaces), with the exact number of columns used (each char counting for its own width). A cropping writer writes exactly what fits in its limit (a char which fits is written), never a raw tabulation (but the replacement it's been given), and always knows how many columns are left, whatever the sequence of strings, chars and fillings written; spacing a string crops or completes it to exactly the width.",
  ["inputs", "histories"], "every string x limit, and every sequence of writings x limit",
  "Tests have a few strings; not the sequences of writes nor the long fillings.",
  ["src/fit/str_fit.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs", "src/spacing.rs"],
  [("StrFit, CropWriter, Filling", "src/fit/")],
  "property-based testing: reference prefix model, stateful model of the writer",
  "")

prop("C27", "A progress bar's length is proportional to the progress",
  "The bar for a part p of a length n is never longer than n chars and is made of full blocks and at most one final partial block, for a total equal to 8*p*n eighths, rounded. It grows with the progress, and padding follows the standard formatting rules.",
  ["inputs"], "every part in [0,1] x length x padding",
  "Tests don't cover it except for one doc example.",
  ["src/progress.rs"], [("ProgressBar Display", "src/progress.rs")],
  "property-based testing: exact eighths model", "")

prop("C28", "Rects draw exactly their border (and inside), areas compute right bounds",
  "Drawing a rect writes the border chars of the chosen border style on its edges, fills the inside with spaces only if asked, in the rect's style, and touches no other cell. The bounds of an area, the test of whether it contains a point, and its padding, or centered reduction to a max width, are consistent.",
  ["inputs", "configurations"], "every rect (at least 2x2) x border style x filling x style; every area, point, padding",
  "No test draws a rect.",
  ["src/rect.rs", "src/area.rs"], [("Rect::draw", "src/rect.rs")],
  "property-based testing: terminal emulator cell oracle", "")

prop("C29", "The content width of a text is the real width of its widest line",
  "The content width told for a text without margins is the width of its widest displayed row (borders, spaces and prefixes included). The visible lengths told for its lines, and for the parts in which they're wrapped, are the widths they're displayed with. Rendering the text again for a width not smaller than this one changes no content, and keeps every row in this width.",
  ["inputs", "configurations"], "every document x skin without margins x width",
  "Only one doc comment describes it.",
  ["src/text.rs", "src/line.rs", "src/composite.rs"], [("content_width, set_rendering_width", "src/text.rs")],
  "property-based testing: metamorphic relation between renderings", "")

prop("C30", "Blocks are rendered independently, and rendering is deterministic",
  "The rendering of a document made of several blocks (paragraphs, lists, quotes, code blocks, tables...) is the concatenation of the renderings of its blocks: what comes before or after has no influence on a block. Rendering twice gives the same result.",
  ["inputs", "configurations"], "every sequence of complete blocks x skin x width",
  "Tests render single documents.",
  ["src/text.rs", "src/tbl.rs", "src/code.rs"], [("FmtText::from_text, fix_all_tables, justify_blocks", "src/text.rs")],
  "property-based testing: metamorphic concatenation relation", "")

prop("C14", "Editing an input field's content works like editing a sequence of chars",
  "Whatever the sequence of edits, moves, selections, and events (keys, pastes, mouse), an input field's content is the one got by applying the same operations to a sequence of chars with a cursor: insertions and deletions change exactly the chars they're said to, lines included, the cursor and selection always being at a valid position of the text. Operations return true exactly when they do something, as told by the documentation.",
  ["inputs", "histories"], "every initial text x sequence of content edits and events (keys, mouse, paste, direct calls), newline keys set or not",
  "Tests check some calls on small contents: the state space is that of all edit histories.",
  ["src/views/input_field_content.rs", "src/views/input_field.rs"],
  [("edition primitives of InputFieldContent", "src/views/input_field_content.rs"), ("apply_event, apply_keycode_event, mouse", "src/views/input_field.rs")],
  "stateful property-based testing: model (a vec of chars with a cursor) against the real content after each operation",
  "the model is written from the documentation")

prop("C15", "The selection, the copied, cut and deleted text are the same chars",
  "In an input field, the selected text is the chars between the tail of the selection and the cursor, both included (the end of a line being its newline). Copying gives these chars, cutting gives them and removes exactly them, deleting or typing or pasting over the selection removes exactly them, and pasting back what was cut restores the content.",
  ["inputs", "histories"], "every content x selection (any ends, in both directions, any line) x operation",
  "There's no test of a selection on several lines.",
  ["src/views/input_field_content.rs", "src/views/input_field.rs"],
  [("selection, selected_str, del_selection", "src/views/input_field_content.rs")],
  "property-based testing: round trips and char sequence model", "")

prop("C16", "An input field displays its content, cursor and selection, in its area",
  "After any edit, an input field shows, in exactly its area, a contiguous window of its content in which every displayed cell is the char at this position with the right style (normal, selected, cursor, unfocused, or password mask), with a cropped wide char or a tab displayed as spaces or marks of the same width. The cursor is visible after an edit or a move, its position is told where it's drawn, and a click puts the cursor at the clicked char (the next one on the right half of a wide char). Scrolling it (mouse wheel, scroll_up, scroll_down) moves this window by one line when there's content hidden on this side, does nothing otherwise, and tells which.",
  ["inputs", "configurations", "histories"], "every content (wide chars, tabs, many lines) x area x cursor and selection x focus, password mode",
  "No test displays an input field.",
  ["src/views/input_field.rs", "src/fit/crop_writer.rs"],
  [("display_on, scroll, fix_scroll", "src/views/input_field.rs")],
  "stateful property-based testing: terminal emulator cells against the content model", "")

prop("C17", "A ListView shows the right rows, selection and scrollbar, in its area",
  "Whatever the history of additions, filters, scrolls, selections and resizes, a ListView shows, in its area only, a contiguous part of its sorted and filtered rows (at most one blank line being left after them when scrolled; the area has at least three rows and room for the minimal widths), with aligned columns of allowed widths and cropped cells, a scrollbar exactly when there are too many rows, and the selected row highlighted. The selection stays on its datum, moving it goes to the next displayed row and makes it visible, and a list showing its bottom keeps showing it on additions when not sorted.",
  ["inputs", "histories", "configurations"], "every columns x area x sort x history of rows additions, filter changes, scrolls, selections, resizes",
  "There's no test at all on ListView.",
  ["src/views/list_view.rs", "src/spacing.rs"],
  [("scroll, selection and filter bookkeeping; write_on", "src/views/list_view.rs")],
  "stateful property-based testing: model of the list against its API and its terminal-decoded display", "")


prop("C18", "Style strings are read as documented, and what's written reads back the same",
  "A style string made of colors (named, rgb(), #hex, gray(), ansi(), none), attributes, a char, an alignment and margins, in any letter case and with any blanks, is read as documented for skin entries: the first color is the foreground, the second one the background. Writing a compound style, a line style or a styled char then reading the result gives the same colors (the default color of the terminal being `none`), attributes, char, alignment and margins. An invalid token is rejected with an error, and no string, whatever it contains, makes the parser panic.",
  ["inputs"], "every style (colors, attributes, alignment, margins, char) and every string",
  "The tests parse a dozen of strings; the space of colors, attributes, cases and orders is never covered, and writing is hardly tested.",
  ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs"],
  [("style tokens parsing and writing", "src/parse")],
  "property-based testing: round trip, grammar-directed generation with its meaning as the oracle, and random strings", "")

prop("C19", "A skin which is serialized then deserialized gives the same rendering",
  "A skin (any styles, colors, attributes, chars, alignments and margins for its parts) which is serialized, for example in JSON, then deserialized, has the same styles for all its parts; a skin described by some entries only is the default skin with exactly these entries changed (the default color of the terminal being the same as no color). A description with an entry which can't be read is rejected with an error, not partially taken.",
  ["inputs", "configurations"], "every skin (line styles, inline styles, chars, scrollbar, table borders) and set of entries",
  "Tests read one or two skins; which of the many parts and their components survive is never checked.",
  ["src/serde/serde_skin.rs", "src/serde/mod.rs", "src/skin.rs", "src/scrollbar_style.rs", "src/parse/mod.rs"],
  [("Serialize and Deserialize for MadSkin and its parts", "src/serde, src/parse")],
  "property-based testing: round trip of generated skins, and comparison with the default skin with changed entries", "")

prop("C21", "Skins without style or limited to ASCII chars show the same text",
  "With a skin without style, a text is rendered with no escape sequence at all, and shows exactly the chars, at the same positions, that the styled skin shows. Limiting a skin to ASCII chars changes no style nor text: only the bullets, quote marks, horizontal rules, and table borders are replaced, one for one, by ASCII chars.",
  ["inputs", "configurations"], "every markdown document x skin x width",
  "No test looks at these skins.",
  ["src/skin.rs", "src/table_border_chars.rs", "src/tbl.rs", "src/inline.rs", "src/composite.rs"],
  [("no_style, limit_to_ascii", "src/skin.rs")],
  "property-based testing: metamorphic comparison of renderings of the same document by two skins", "")

prop("C22", "Recoloring a skin changes the colors of all its parts, and nothing else",
  "Setting the foreground or background of a skin or of its headers, its global background, or blending its colors with another one (with a weight from 0, no change, to 1, the other color) changes the intended colors of all the intended parts the documented way, and changes no text, attribute, alignment nor margin.",
  ["inputs", "configurations"], "every skin x color x weight x recoloring function",
  "No test checks the colors set on the parts of a skin.",
  ["src/skin.rs", "src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/scrollbar_style.rs", "src/color.rs"],
  [("set_fg, set_bg, set_headers_fg, blend_with...", "src/skin.rs, src/compound_style.rs, src/styled_char.rs")],
  "property-based testing: model of the colors of all the parts before and after", "")


prop("C20", "Everything printed is the rendering of the value, placeholders filled as is",
  "Whatever the skin, the values and the terminal's size, the inline template macros print exactly the template's composite with each value in place of its placeholder, in the placeholder's style and with no interpretation of the markdown or dollars in it. Printing a text template or expander prints the rendering of its expansion. All the print and write functions and Display implementations (standard output, writer, term, area, views) output the same thing for the same text, rendered for the current width of the terminal or area; what's written in an area of the standard output is flushed.",
  ["inputs", "configurations"], "every values (with markdown, dollars, blanks, wide chars) x template x skin x terminal size",
  "Tests call the macros on one value; what's really printed on a terminal of a given size isn't tested.",
  ["src/macros.rs", "src/skin.rs", "src/lib.rs", "src/inline.rs", "src/text.rs", "src/area.rs"],
  [("mad_write_inline, mad_print_inline", "src/macros.rs"), ("print_*, write_*, print_expander", "src/skin.rs")],
  "property-based testing: differential comparison of the outputs captured on a pseudo terminal with a model",
  "inline templates are a fixed set of literals (macros), filled with generated values")

prop("C23", "A question returns an accepted answer, or the default, or an error",
  "A question shows its text and possible answers (the default one being bold), then reads lines, telling about the ones which aren't an answer, until one is the key of an answer (the trailing blanks being ignored), which is returned, or is empty while there's a default, which is returned. At the end of the input there's either the default or an error, never an endless loop. The ask! macro runs exactly the block of the answer. No more input is read than needed.",
  ["inputs", "histories"], "every question, answers, default, and sequence of input lines, up to the end of the input",
  "Nothing is tested: it needs a standard input.",
  ["src/ask.rs"], [("Question::ask, ask!", "src/ask.rs")],
  "property-based testing: model of the conversation, run on real standard streams in a child process", "")

prop("C24", "A ticker gives exactly the ticks asked, in time, until stopped",
  "Whatever the sequence of beams started, stopped, or ended, a ticker gives its payload the asked number of times (no limit for infinite beams) for each beam which isn't stopped, never before the period passed, with no effect of the other beams; a stopped beam gives no more tick (but one already being sent), and when the ticker is dropped all beams end and the channel is disconnected.",
  ["schedules", "histories"], "every sequence of beams (period, number of ticks), stops, waits",
  "No test runs a ticker.",
  ["src/events/tick_beam.rs"], [("TickBeam thread, Ticker", "src/events")],
  "stateful property-based testing: invariants over the history of ticks received from real threads",
  "schedules are those of the operating system")

prop("C25", "An event source gives all events, in order, one at a time, and escape sequences",
  "Every event of the terminal (keys, mouse, paste, focus, resize) is received exactly once and in order, apart from the discarded mouse moves or drags; an event is only given after the previous one was unblocked, the shared count being the number of events given; complete escape sequences (from ESC _ to ESC \\) go to their own receiver (as long as it isn't full) and display as their chars, and the keys of an incomplete one are all given as events. A key event comes with its combination, made of several keys if asked and if the terminal allows it, and the raw key events which end no combination are discarded unless asked otherwise. Unblocking with true ends the source, and dropping it restores the terminal's mode and keyboard flags.",
  ["inputs", "histories", "schedules"], "every sequence of terminal inputs x options x moments of the unblocking x end",
  "No test creates an event source, which needs a terminal.",
  ["src/events/event_source.rs", "src/events/escape_sequence.rs", "src/events/timed_event.rs"],
  [("EventSource::with_options thread", "src/events/event_source.rs"), ("EscapeSequence", "src/events/escape_sequence.rs")],
  "stateful property-based testing: bytes sent on a pseudo terminal, events received compared to a model",
  "the combinations are computed by crokey, a dependency, which is also used by the model")

prop("C26", "A double click is two left clicks at the same place in a short time",
  "The double_click flag of an event is set exactly when it's a left button event occurring at the place of the previous left button release, less than 700 ms after it. An event is a click exactly when it's an unmodified release of the left button, not a double click, and its position is the one of the mouse.",
  ["histories", "inputs"], "every sequence of mouse and other events with their times",
  "No test creates an event source nor checks this flag.",
  ["src/events/event_source.rs", "src/events/timed_event.rs"],
  [("double click detection", "src/events/event_source.rs"), ("as_click", "src/events/timed_event.rs")],
  "stateful property-based testing: mouse events sent on a pseudo terminal, flags compared to a model of the history", "")

prop("C31", "What is drawn with a style has exactly the colors and attributes which were set",
  "After any sequence of builders and setters (colors, attributes added or removed, a style laid over another one, the style of a line, of a char or of a scrollbar), a style has exactly the colors and attributes which were set: an overlay keeps what the other style doesn't define. Everything written with it - a value, a repeated string, char or spaces, a styled char whose char or style was changed, a filling of any length, a cleared line - shows the given text, all of it, in this style, and leaves the style reset after it.",
  ["inputs", "histories"], "every sequence of changes of a style x text, char, number of repetitions (fillings of more than 1000 chars included)",
  "No test builds a style by steps, nor draws with it.",
  ["src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/fit/filling.rs", "src/scrollbar_style.rs", "src/fit/mod.rs"],
  [("CompoundStyle, StyledChar setters and writers", "src/compound_style.rs, src/styled_char.rs"), ("Filling", "src/fit/filling.rs")],
  "stateful property-based testing: model of the style, and terminal-decoded output of all the primitives", "")

prop("C32", "A failure of the output is told, and nothing is lost nor repeated before it",
  "When the output on which a text, a composite, a view, a list, an input field, a rectangle, or any string or filling is written fails, whenever it fails and even if only once, the writing function returns the error of this output, without panicking, and what was written is exactly the start of what would have been written without failure. An output which accepts only some of the bytes at each call, or is interrupted, receives exactly the same bytes as another one. Nothing is remembered of a failure: writing again on a sane output gives the whole display.",
  ["fault_sequences", "inputs"], "every writing function x content x position and kind of the failure (permanent, only once, nothing accepted), sizes of the accepted parts, interruptions",
  "The tests only write on memory buffers and strings, which never fail.",
  ["src/skin.rs", "src/views/text_view.rs", "src/views/mad_view.rs", "src/views/list_view.rs", "src/views/input_field.rs", "src/rect.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs", "src/spacing.rs", "src/compound_style.rs", "src/styled_char.rs", "src/parse/mod.rs", "src/text.rs", "src/tbl.rs", "src/code.rs"],
  [("propagation of errors from the writer", "all functions taking a writer or a formatter")],
  "fault injection driven by property-based testing: generated failures of the output, compared with the bytes written on a sane one", "")

prop("C33", "Without its optional feature, the crate renders everything the same way",
  "Compiled without its default feature (special-renders), the crate compiles and does exactly the same thing, for skins which have no special chars: the same skins (standard ones, read ones, and recolored, blended or limited to ASCII ones), and byte for byte the same texts, inline snippets, fitted composites, and views.",
  ["configurations", "inputs"], "every skin without special chars x document x width x area",
  "The tests are only compiled and run with the default features.",
  ["src/skin.rs"],
  [("special-renders feature", "cfg in src/skin.rs")],
  "differential property-based testing: the same generated requests given to programs compiled with and without the feature", "")

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "checks": [], "not_applicable": [],
    "notes": "one Rust harness (harness/), rebuilt against /repo's working tree by check.sh; see DESIGN.md",
}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": (p["note"] + "; " if p["note"] else "") + "generated cases only: no exhaustiveness; domain and assumptions in the evidence file and DESIGN.md",
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
