#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, text, tests, files, mechanism, over=("inputs",), observe=("yamd::deserialize",), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
      anchors=dict(files=list(files),
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=None)))

LEX = "src/lexer/mod.rs"; TOK = "src/lexer/token.rs"; PAR = "src/op/parser.rs"; OPM = "src/op/mod.rs"; TY = "src/op/to_yamd.rs"; DOC = "src/op/document.rs"

prop("C01", "No text can crash or hang the library",
 "For every Unicode text, splitting it into tokens, parsing it into events, building the document tree and printing that tree all finish and return a result: no panic, no arithmetic overflow, no out-of-range access, no loop that stops making progress. Parsing the printed text again finishes as well.",
 "every valid UTF-8 text of any length and content, including unclosed, nested, interleaved and multi-byte constructs",
 "The fuzz target only runs when someone starts it, and the unit tests call each construct on a few dozen hand-written texts; a crash needs one particular combination of constructs, stop conditions and character widths.",
 [LEX, PAR, DOC, "src/op/highlight.rs", TY, "src/nodes/yamd.rs"],
 [("progress assertions of the block and callout loops", "src/op/document.rs, src/op/highlight.rs"), ("backtracking restores position and output", "src/op/*.rs"), ("byte ranges taken from char indices", LEX)],
 observe=("yamd::lexer::Lexer", "yamd::parse", "yamd::deserialize", "Display of Yamd"))

prop("C02", "The event stream covers the whole source once, in order",
 "For every text, reading the contents of all events in stream order gives exactly the source text with only its escaping backslashes (and a lone one at the very end) removed; the one thing that may also be missing is the single line break directly in front of a collapsible's closing marker. No piece of source text is lost, repeated or moved, and every range an event borrows lies inside the source on character boundaries.",
 "every text; every way constructs fail half way and are taken back",
 "Unit tests compare hand-picked event vectors; lost or duplicated text appears when a construct is abandoned after it already produced events, which needs a particular failing suffix in a particular context.",
 [PAR, "src/op/paragraph.rs", "src/op/bold.rs", "src/op/heading.rs", "src/op/code.rs", "src/op/collapsible.rs", "src/op/highlight.rs"],
 [("text runs are flushed before each matched construct", "src/op/paragraph.rs, bold.rs, heading.rs"), ("snapshot and truncate on failure", "src/op/*.rs"), ("span()", PAR)],
 observe=("yamd::parse",))

prop("C03", "Parsed events nest properly and follow the containment grammar",
 "For every text, the event stream is one optional metadata block followed by one document; every start is closed by the matching end in last-in first-out order, and every node appears only inside the kinds of node documented to contain it, with exactly the parts that kind has. Building the tree from the stream of a parse therefore never fails.",
 "every text",
 "Tests look at complete event vectors of small documents; imbalance arises from taken-back constructs inside nested blocks.",
 [OPM, DOC, "src/op/list.rs", "src/op/highlight.rs", "src/op/collapsible.rs", "src/op/images.rs", TY],
 [("each construct pushes its start and end itself", "src/op/*.rs"), ("list and image-group starts are inserted afterwards", "src/op/list.rs, src/op/images.rs")],
 observe=("yamd::parse", "yamd::try_to_yamd"))

prop("C04", "The document tree says exactly what the event stream says",
 "For every event stream that follows the containment grammar, the tree built from it has one node per start/end pair, in the same order and nesting, and each field holds exactly the text of the corresponding events (titles, languages, icons, link parts, embed parts, metadata, raw bodies). Heading levels count the marker characters, list levels count the enclosing lists, and only the CR and LF characters that end a list item's text, a callout paragraph or a code body or that surround metadata are trimmed.",
 "every text, and every grammatical hand-built event stream with borrowed or owned contents",
 "The promotion has about thirty cases with parent-dependent behaviour; tests exercise each once with one parent and one shape.",
 [TY, "src/nodes/code.rs", "src/nodes/yamd.rs", "src/nodes/list.rs"],
 [("frame stack promotion", "src/op/to_yamd.rs: try_to_yamd"), ("trimming", "src/op/to_yamd.rs: trim_trailing_newline_from_text; Code::new; Yamd::new")],
 over=("inputs", "histories"), observe=("yamd::parse", "yamd::to_yamd"))

prop("C05", "Hand-built event streams are accepted exactly when well-formed",
 "For every finite event stream, the fallible tree builder returns an error exactly when the starts and ends are not balanced or some end does not match the node it closes, and it never panics on contents that are valid for the source. The infallible builder returns the same tree on every accepted stream and panics on exactly the rejected ones.",
 "every sequence of start, end and value events over all node kinds, in any order",
 "Tests try a handful of unbalanced streams; the property quantifies over all orders of about fifty event kinds.",
 [TY], [("frame stack and the (node, frame) match", "src/op/to_yamd.rs: try_to_yamd")],
 over=("histories",), observe=("yamd::try_to_yamd", "yamd::to_yamd"))

prop("C06", "Tokens tile the source text",
 "For every text, the tokens come out in source order, are never empty, never overlap, start and end on character boundaries, and together cover every byte except the backslashes that escape the next character and a lone backslash at the very end. After the last token the token iterator keeps returning nothing.",
 "every text",
 "Tests fix a few token vectors; gaps come from interactions of escapes, multi-byte characters and pending tokens at the end of input.",
 [LEX], [("literal start bookkeeping", "src/lexer/mod.rs: emit_literal_if_started"), ("queue and pending token", "src/lexer/mod.rs: advance, emit, eol")],
 observe=("yamd::lexer::Lexer",))

prop("C07", "Every token has the right kind and is as long as it can be",
 "For every text, runs of the same repeatable mark form one token covering the whole run, the one-character marks and the two-character collapsible markers form tokens of exactly that length, a line break is LF or CR LF, and two directly consecutive line breaks pair up, from the left, into one block separator. Everything else, including spaces inside running text and a carriage return on its own, belongs to one literal token that extends to the next mark or backslash.",
 "every text over marks, line breaks, spaces, backslashes and ordinary characters",
 "A finite set of token vectors samples pairs of adjacent marks; maximality and pairing are about every neighbourhood.",
 [LEX, TOK], [("take_while / next_is", LEX), ("pairing of line breaks", "src/lexer/mod.rs: eol")],
 observe=("yamd::lexer::Lexer",))

prop("C08", "Token positions are exact",
 "For every text, each token reports the byte offset it starts at, the row counted in line breaks before it (LF or CR LF, escaped ones not counted) and the column counted in characters since the last such line break, escaping backslashes not counted.",
 "every text, including multi-byte characters, CR LF, escapes and long lines",
 "Tests check positions on short ASCII lines; columns drive all start-of-line rules, so an error after an unusual prefix changes the parse.",
 [LEX, TOK], [("row/column update", "src/lexer/mod.rs: next_char, eol")],
 state=[("position", "byte offset, column, row of the next character", LEX)], observe=("yamd::lexer::Lexer",))

prop("C09", "A backslash makes the next character plain text in every context",
 "For every text and every place in it, a character that follows an unescaped backslash never acts as markup, a line end, or a delimiter: replacing it by a letter leaves the structure of the result as it is. It stays in the text of the events, only the backslash itself disappears, and the token that begins with it is marked as escaped. In particular a text in which every character is escaped parses to one plain paragraph holding exactly the original characters.",
 "every text and every choice of escaped characters, at block starts, inside every inline and block construct and next to multi-byte characters",
 "Tests escape a handful of marks in a handful of places; the promise is context-independent.",
 [LEX, PAR, OPM], [("escaped literals", "src/lexer/mod.rs: parse, '\\\\' arm"), ("materialised text", "src/op/mod.rs: Content::from_tokens; src/op/parser.rs: span")],
 observe=("yamd::lexer::Lexer", "yamd::parse", "yamd::deserialize"))

prop("C10", "Inline markup pairs each opener with the nearest valid closer",
 "For every text, scanning running text from the left, a double tilde, underscore, double star, single backtick or single star that has a later mark of exactly the same kind and length before the end of the enclosing block opens strikethrough, italic, bold, code span or emphasis up to the nearest such mark (for bold, the nearest that is not inside an italic or strikethrough in it); otherwise it is plain text. The bodies of strikethrough, italic, code span and emphasis are kept as raw text, bold contains only text, italic and strikethrough, and inline markup never extends across a blank line or the end of its block.",
 "every sequence of marks and text, in paragraphs, list items, callouts and collapsibles",
 "Pairing depends on the whole rest of the block; tests sample a few nestings.",
 ["src/op/paragraph.rs", "src/op/bold.rs", "src/op/italic.rs", "src/op/strikethrough.rs", "src/op/code_span.rs", "src/op/emphasis.rs", PAR],
 [("ordered alternatives with fallback to text", "src/op/paragraph.rs"), ("eat_until under stop conditions", PAR)], observe=("yamd::parse", "yamd::deserialize"))

prop("C11", "Links and images end at the parenthesis that balances the target",
 "For every text, a link is a bracketed label, which ends at the first closing bracket, directly followed by a parenthesised target, which ends at the parenthesis that balances the opening one or, if none does before the end of the block, at the last closing parenthesis seen; label and target are kept as raw text and anything else stays plain text. A block consisting only of images, one per line, becomes an image (one) or an image group (several); otherwise its exclamation marks are plain text.",
 "every text over brackets, parentheses, exclamation marks, line breaks and other marks, in paragraphs and headings",
 "Tests try a few nested and unclosed targets; the rule is about every nesting of parentheses and every block context.",
 ["src/op/anchor.rs", "src/op/title.rs", "src/op/destination.rs", "src/op/image.rs", "src/op/images.rs"],
 [("parenthesis counter with last-seen fallback", "src/op/destination.rs"), ("all-or-nothing image block", "src/op/images.rs")], observe=("yamd::parse", "yamd::deserialize"))

prop("C12", "Headings, breaks and embeds are recognised exactly at line starts",
 "For every text, at the start of a block one to six hash marks at the start of a line followed by exactly one space make a heading of that level up to the end of the block, exactly five dashes at the start of a line make a thematic break, and double braces with a bar between them that close before the next blank line and directly before a line end or the end of the block make an embed with the text before the first bar as kind and the text up to the first closing double brace as arguments. With any other count, spacing or place the same characters are ordinary text.",
 "every text over hash marks, dashes, braces, bars, spaces and line breaks in every block context",
 "Tests cover a few counts and contexts; the property is about all counts, all neighbours and all places.",
 ["src/op/heading.rs", "src/op/thematic_break.rs", "src/op/embed.rs", DOC],
 [("column and length tests", "src/op/heading.rs, thematic_break.rs, embed.rs"), ("ordered alternatives of the block loop", DOC)], observe=("yamd::parse", "yamd::deserialize"))

prop("C13", "Fenced code keeps its body verbatim",
 "For every text, three backticks at the start of a line at a block start open a code block that ends at the next three backticks at a line start, provided a line end or the end of the enclosing block follows them; the rest of the opening line is its language and the body is kept as written (only escaping backslashes and the line breaks before the closing fence are removed), with blank lines and any markup in it, including block closers of enclosing blocks. Without such a closing fence nothing is code.",
 "every text with fences, in documents and collapsibles, with any body",
 "Tests have a few bodies; the property is about every body, including ones that look like the end of an enclosing block.",
 ["src/op/code.rs", "src/op/modifier.rs", "src/nodes/code.rs", PAR],
 [("scan with stop conditions cleared", "src/op/code.rs"), ("with_no_stops", PAR)], observe=("yamd::parse", "yamd::deserialize"))

prop("C14", "List structure follows markers and indentation",
 "For every text, a list starts at a line-start dash or plus followed by one space; each further item of the list begins at a line start with exactly as many spaces as its nesting level, the same marker and one space; a marker one level deeper right after an item opens one nested list inside that item. Unordered and ordered items never share a list, an item's text runs up to the next line that begins a sibling, a deeper or an enclosing item or to the end of the block, and levels increase by exactly one per nesting.",
 "every sequence of list lines of any depth, marker and spacing, with inline markup across lines",
 "Tests show a few two- and three-level lists; item boundaries depend on the level and marker of every enclosing item.",
 ["src/op/list.rs", PAR, TY, "src/nodes/list.rs"],
 [("list boundary stop condition", "src/op/parser.rs: at_list_boundary"), ("list_inner / list_item", "src/op/list.rs")], observe=("yamd::parse", "yamd::deserialize"))

prop("C15", "Callouts have the documented title, icon and paragraphs",
 "For every text, a line-start double exclamation mark followed by one space or a line end opens a callout that needs a later closing double exclamation mark at a line start; a title is the rest of an opening line that has one, an icon is the rest of a directly following line that starts with one exclamation mark and a space, and blank lines separate the body into paragraphs, which contain inline markup only. Without its closing mark, or when the enclosing collapsible ends first, nothing is a callout.",
 "every text with callout marks, titles, icons, blank lines and inline markup, in documents and collapsibles",
 "Tests cover single-feature callouts; presence and absence of title, icon, closer and blank lines combine.",
 ["src/op/highlight.rs", "src/op/modifier.rs", TY, "src/nodes/highlight.rs"],
 [("highlight loop", "src/op/highlight.rs"), ("stop conditions HighlightEnd and Terminator", PAR)], observe=("yamd::parse", "yamd::deserialize"))

prop("C16", "A collapsible's body is a document of its own",
 "For every text, a line-start collapsible opener followed by a space or line end and a title line, with a matching line-start closer, becomes a collapsible, to any depth, each closer closing the innermost open collapsible; if every collapsible mark in its body opens or closes a collapsible or is code, the body is parsed exactly as a document. An opener without closer is plain text, and no construct inside a body reaches past the closer (except a code fence, which is verbatim).",
 "every nesting of openers, closers and other blocks, closed or not",
 "Tests go to small depth; failure handling re-parses the whole rest of the document after demoting the opener.",
 ["src/op/collapsible.rs", DOC, PAR],
 [("stop condition CollapsibleEnd", PAR), ("backtrack and flip the opener to literal", "src/op/collapsible.rs: flip_to_literal")], observe=("yamd::parse", "yamd::deserialize"))

prop("C17", "Metadata is only the leading fenced block and is kept as written",
 "For every text, metadata exists exactly when the text begins with three dashes and a later line starts with exactly three dashes; it is everything between those two marks with surrounding line breaks trimmed (escaping backslashes removed), and the document follows it. Anywhere else three dashes are ordinary text.",
 "every text over dashes, line breaks and anything else",
 "Tests have a handful of metadata blocks.",
 ["src/op/metadata.rs", TY, "src/nodes/yamd.rs"], [("metadata()", "src/op/metadata.rs"), ("trim_matches", "src/op/to_yamd.rs, src/nodes/yamd.rs")], observe=("yamd::parse", "yamd::deserialize"))

prop("C18", "Printing a parsed document and parsing it again gives the same document",
 "For every text, parsing it, printing the resulting tree and parsing the printed text yields an equal tree; a second print is then identical to the first.",
 "every text",
 "The property tests sample constructed trees of one block with text from a small alphabet, never parsed texts; escaping has to be right for every construct in every context.",
 ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/bold.rs", "src/nodes/heading.rs", "src/nodes/list.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/code.rs", "src/nodes/embed.rs", "src/nodes/anchor.rs", "src/nodes/image.rs"],
 [("escaping in each Display", "src/nodes/*.rs"), ("escape_leading_block_marker", "src/nodes/paragraph.rs")], observe=("yamd::deserialize", "Display of Yamd"))

prop("C19", "Documents built through the API survive printing and parsing",
 "For every tree built from the public node types whose texts are non-empty, do not begin or end with white space or contain blank lines, and whose structure is one the parser can produce (heading levels one to six, list levels equal to depth, image groups of two or more, no two adjacent plain texts, no neighbours whose marks would merge into one run), printing it and parsing the result gives an equal tree. Marks and backslashes inside any text are preserved.",
 "every such tree over all node kinds, nestings and special characters",
 "proptest generates single-construct trees with up to five fragments each; lists are never nested, callouts and list items hold only plain text and constructs are not combined.",
 ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/list.rs", "src/nodes/list_item.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/bold.rs"],
 [("escaping in each Display", "src/nodes/*.rs")], observe=("Display of Yamd", "yamd::deserialize"))

prop("C20", "The serialised form is lossless and keeps its documented shape",
 "With serialisation enabled, every tree and every event stream written to JSON and read back (by a reader that does not limit depth) is equal to the original. The JSON names every field, tags each node, event and content variant with its type under one key and puts its payload under one other key, writes absent titles, icons, metadata and nested lists as null, and never depends on anything but the value.",
 "every tree and event stream, over all node kinds and texts",
 "There are almost no tests with serialisation enabled; a renamed, skipped or flattened field in any of the twenty node types breaks readers.",
 ["src/nodes/*.rs", OPM], [("serde derives with tag and content attributes", "src/nodes/*.rs, src/op/mod.rs")], observe=("serde_json::to_value / from_value of Yamd and Op",))

prop("C21", "All entry points agree and results depend on the text alone",
 "For every text, the one-step parse equals the event parse followed by the fallible or the infallible tree builder, repeated calls give equal tokens, events, trees and printed text, also from several threads at once and whatever was parsed before, and printing does not change the tree. An event borrows a range of the source exactly when its text is one contiguous piece of it, and owned contents are used only otherwise; resolving it gives the same text either way.",
 "every text, every order and interleaving of calls",
 "Tests call one entry point once per text.",
 ["src/lib.rs", OPM, TY, PAR], [("deserialize = to_yamd after parse", "src/lib.rs"), ("Content::from_tokens / span", "src/op/mod.rs, src/op/parser.rs")], over=("inputs", "histories", "schedules"),
 observe=("yamd::deserialize", "yamd::parse", "yamd::to_yamd", "yamd::try_to_yamd", "yamd::op::Content"))

prop("C22", "Blocks separated by a blank line do not influence each other",
 "For any two texts made of complete blocks (nothing left open that could reach across a blank line, no metadata in the second, no trailing line break or backslash in the first), parsing them joined by one blank line gives the blocks of the first followed by the blocks of the second. The same holds when both, the second as complete as the first, are together the body of a collapsible and the body does not begin with a line break.",
 "every pair of such texts",
 "Tests parse fixed multi-block documents; state leaking from one block to the next needs a particular pair.",
 [DOC, PAR, "src/op/collapsible.rs", "src/op/list.rs"], [("stop condition Terminator per block", DOC), ("stop stack push/pop", "src/op/parser.rs: with_eof, with_eofs, with_no_stops")], observe=("yamd::deserialize",))

prop("C23", "LF and CR LF line ends give the same document",
 "For every text without carriage returns and without an escaped line break, writing every line end as CR LF instead of LF changes nothing in the resulting tree except that the line breaks kept inside texts are CR LF as well.",
 "every such text",
 "Only a couple of tests contain CR LF; every rule that looks at line ends or trims them has to treat both alike.",
 [LEX, TY, "src/nodes/code.rs", "src/nodes/yamd.rs"], [("CR LF line break token", LEX), ("trimming of trailing line breaks", "src/op/to_yamd.rs, src/nodes/code.rs, src/nodes/yamd.rs")], observe=("yamd::deserialize",))

prop("C24", "Parsed trees respect the structural rules of the format",
 "For every text: heading levels are one to six, image groups hold at least two images, every list has at least one item, a list's level equals the number of lists around it, plain texts are non-empty and never adjacent to another plain text, paragraphs outside callouts are non-empty, code bodies do not end in a line break, metadata neither begins nor ends in one, and titles of collapsibles, callouts and code languages contain no unescaped line end.",
 "every text",
 "The types rule out bad nesting but none of these; tests check them only implicitly on fixed documents.",
 ["src/op/*.rs", TY, "src/nodes/*.rs"], [("grammar of each construct", "src/op/*.rs"), ("promotion and trimming", TY)], observe=("yamd::deserialize",))

prop("C25", "Contents assembled from tokens resolve to the text of those tokens",
 "For every text and every sequence of its tokens, in any order and with repetitions, the content assembled from them resolves to the texts of the tokens one after the other; it borrows the range from the first token's start to the last token's end exactly when every token begins where the one before it ends, and owns its text otherwise; without tokens it is empty and borrows nothing. Converting tokens without their source gives the range from the first one's start to the last one's end. Borrowing, copying and asking whether it is empty agree with each other.",
 "every text and every sequence of its tokens",
 "Tests assemble a handful of contents from two or three neighbouring tokens; what matters is gaps, disorder, repetition and multi-byte characters anywhere in the sequence.",
 [OPM], [("Content::from_tokens", OPM), ("From<&[Token]> for Content", OPM), ("Op::new_value, new_start, new_end", OPM)], observe=("yamd::op::Content", "yamd::op::Op", "yamd::lexer::Token"))

prop("C26", "Trees hold what they were built with and print with marks and escapes only",
 "Every tree built with the public constructors and conversions holds exactly the texts, levels, children and options it was given, in order, except that code bodies lose trailing line feeds and metadata loses leading and trailing ones. Printing it, as a whole or block by block, gives the texts within the documented marks of their nodes and separators between them, complete and in order, with nothing added but backslashes that escape the character after them.",
 "every tree of public nodes, with arbitrary texts, levels and nesting",
 "Unit tests print one small tree per node type; texts with marks at their ends, empty texts and children, large levels and counts, and one node in another are not covered.",
 ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/bold.rs", "src/nodes/heading.rs", "src/nodes/list.rs", "src/nodes/list_item.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/code.rs", "src/nodes/embed.rs", "src/nodes/anchor.rs", "src/nodes/image.rs", "src/nodes/mod.rs"],
 [("constructors and From conversions", "src/nodes/*.rs"), ("Display of each node", "src/nodes/*.rs"), ("Escape", "src/nodes/mod.rs")], observe=("constructors of yamd::nodes", "Display of every node"))

prop("C27", "Tokens do not depend on what stands before or after them",
 "For every text and every token of it, tokenising only the text up to the end of that token gives the tokens up to and including it, and tokenising only the rest gives the remaining tokens, with the same kinds and lengths and with positions and escapes as they were, counted from the start of the rest.",
 "every text and every place between two of its tokens",
 "Tests tokenise fixed texts as a whole; a lexeme recognised differently because of what was read before, or of what comes later, needs a particular combination.",
 [LEX, TOK], [("Lexer::next and its queue", LEX), ("lexing of runs, pairs and escapes", LEX)], observe=("yamd::lexer::Lexer",))

prop("C28", "Events of blocks separated by a blank line are the events of each, moved",
 "For any two texts made of complete blocks as in C22 (nothing left open that could reach across a blank line, no metadata in the second, no trailing line break or backslash in the first), the events of the two joined by one blank line are those of the first, a value that is the blank line, and those of the second with every borrowed range moved by the length of what precedes it; owned texts stay owned and borrowed ones borrowed.",
 "every pair of such texts",
 "Tests compare trees or the events of fixed texts; offsets that go wrong, or a text that becomes owned, only in a later block never show in a tree.",
 [DOC, PAR, OPM], [("Parser cursor and spans", PAR), ("separator between blocks", DOC)], observe=("yamd::parse",))

prop("C29", "A line of running text means the same wherever it stands",
 "For every single line that alone is one paragraph, and that neither begins with a space or one of the marks !, %, { nor ends in a backslash: as the text of a list item of either kind, first or later, at any depth, as a paragraph of a callout, first or later, as a paragraph of a collapsible, as the first or second line of a paragraph, and after a letter on the same line, it gives exactly the inline nodes it gives alone (joined with the plain text beside it).",
 "every such line, in each of these places",
 "Tests put simple words into list items, callouts and collapsibles; an inline construct that is treated differently in one of them needs that construct in that place.",
 ["src/op/parser.rs", "src/op/list.rs", "src/op/highlight.rs", "src/op/paragraph.rs", TY], [("inline dispatch and stops", PAR), ("paragraph in a callout, text of a list item", "src/op/highlight.rs, src/op/list.rs")], observe=("yamd::deserialize",))

prop("C30", "Characters that are no marks are interchangeable",
 "Only the characters ~ * { } % - # > ! ` + [ ] ( ) _ | \\, the space, the line feed and the carriage return have a meaning. For every text, replacing every other character by some other such character (the same one each time it occurs, whether letter, digit, tab, control character, other white space, combining or wide character) changes nothing in the tokens, the events, the tree and the printed text but these characters and the byte offsets they move.",
 "every text, and every replacement of characters without meaning by others",
 "Tests use letters, an accent or an emoji here and there; a character that is white space, a digit, a control character or a line break elsewhere and gets treated specially in one construct has to be put exactly there.",
 [LEX, PAR, TY, "src/nodes/mod.rs", "src/nodes/paragraph.rs", "src/nodes/list_item.rs"], [("kinds of characters", LEX), ("trimming of line breaks only", TY), ("Escape", "src/nodes/mod.rs")], observe=("yamd::lexer::Lexer", "yamd::parse", "yamd::deserialize", "Display of Yamd"))

prop("C31", "Blocks of a parsed document can be taken out and rearranged",
 "For every text and every block of the tree parsed from it, also those in collapsibles: a document of that block alone, and one with a collapsible that holds only it, printed and parsed give the same documents again; so does the document with its blocks in reverse order and without its metadata.",
 "every text, every block of its tree",
 "Tests print trees as they were parsed; what a block needs in its new place (at the very start of a text, before or after another block, in a collapsible) shows only when particular texts move there.",
 ["src/nodes/yamd.rs", "src/nodes/collapsible.rs", "src/nodes/paragraph.rs", "src/nodes/mod.rs", "src/nodes/heading.rs", "src/nodes/list_item.rs"], [("escape_leading_block_marker", "src/nodes/paragraph.rs"), ("escape_trailing_line_break", "src/nodes/mod.rs"), ("Display of Yamd and Collapsible", "src/nodes/yamd.rs, src/nodes/collapsible.rs")], observe=("yamd::deserialize", "Display of Yamd"))

prop("C32", "A backslash before an ordinary character changes nothing",
 "For every text, putting a backslash in front of any of its characters that are no marks, spaces, line feeds or carriage returns (and have none yet), be it one, some or all of them, leaves the resulting tree as it is.",
 "every text and every set of such characters in it",
 "Tests escape marks in a few places; a construct that compares, splits or trims text by token sees other tokens when an ordinary character in it is escaped.",
 [LEX, PAR, OPM, TY], [("escaped literals", LEX), ("owned contents", OPM), ("text of fields", TY)], observe=("yamd::deserialize",))

prop("C33", "Ordered and unordered lists follow the same rules",
 "For every text in which no run of dashes or pluses has three or five of them, exchanging all dashes and pluses exchanges the kinds of the lists and these characters in the texts, and changes nothing else in tokens, events and tree.",
 "every text without runs of three or five dashes or pluses",
 "Tests exercise unordered lists at length and ordered ones with a few examples; a rule that holds for one kind only, or for one kind inside the other, is not compared.",
 ["src/op/list.rs", PAR, TY, LEX], [("is_list_marker", PAR), ("ListKind", PAR), ("list()", "src/op/list.rs")], observe=("yamd::lexer::Lexer", "yamd::parse", "yamd::deserialize"))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
