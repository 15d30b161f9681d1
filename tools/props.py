MODEL_T = "runtime monitoring: reference-model oracle over generated documents (DOM comparison)"
MODEL_N = ("Every generated document is converted by the real parser, evaluator and Asciidoctor-style backend; an independent reference converter that never sees AsciiDoc text prescribes the DOM, "
  "and any difference in structure, attributes or text, any diagnostic and any panic is reported. Assurance is that of the sampled documents (counts and distinct inputs in the evidence); trusts the reference model and the strict HTML reader in harness/src.")
MODEL_W = "The suite's fixed snippets each show one construct in one place; the guarantee is over every combination of constructs, nesting, neighbours and positions, which grows combinatorially."

prop("C01", "Conversion is total: any input and configuration ends without a crash",
 "For any text offered as a document, any set of included files and any combination of conversion settings, conversion finishes with HTML or with a list of diagnostics. It never panics, overflows its stack, exhausts memory or runs without bound.",
 ["inputs", "configurations"], "every character sequence (well-formed or not) with every strictness, doctype, backend, safe mode, source kind, include set and attribute setting",
 "Tests only feed documents somebody thought of; the crashes that remain need token sequences nobody writes on purpose, combined with particular settings.",
 ["parser/src/parser.rs", INL, "parser/src/lexer/root_lexer.rs", "parser/src/line.rs", "parser/src/contiguous_lines.rs", "eval/src/eval.rs", DR, "backend-html5s/src/html5s.rs"],
 [("recursive-descent block and inline parsing with bounded recursion", "parser/src/tasks"), ("token and line queues consumed left to right", "parser/src/line.rs"), ("AST walk", "eval/src/eval.rs")],
 ["return value, panic hook, worker exit status, allocation counter and CPU time of each conversion"],
 "runtime monitoring: crash/hang/allocation monitor over grammar soup and mutated corpora",
 "Workers convert token soup, line soup and mutations of realistic documents under random settings, watched by a panic hook, a 1 GiB allocation cap, an 8 MiB stack, a per-case CPU budget and the exit status. Assurance is that of the sampled inputs.")
prop("C02", "Inline formatting renders as nested elements around exactly the marked text",
 "Text marked bold, italic, monospace, highlighted, subscript or superscript, constrained or unconstrained, nested, adjacent or carrying ids and roles, is rendered as the corresponding element around exactly that text, with its id and classes. Everything outside the marks is unchanged, wherever the text stands (paragraphs, lists, tables, titles, quotes).",
 ["inputs"], "every composition of formatting marks over words, in every block that holds text", MODEL_W,
 [INL, "parser/src/line.rs", DR], [("stop-token driven inline recursion", INL), ("constrained boundary checks", "parser/src/line.rs"), ("element emission", DR)],
 ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C03", "Special characters, typographic replacements and escapes are rendered faithfully",
 "Characters special to HTML are shown as themselves, never interpreted; symbol shorthands, dashes, ellipses, apostrophes and curly quotes become exactly their documented characters; a backslash keeps markup or a shorthand literal; literal and passthrough spans keep their content as the syntax says. This holds at every position and beside any other text.",
 ["inputs"], "every mix of special characters, shorthands, escapes and literal spans with ordinary (also non-ASCII) text", MODEL_W,
 [INL, "parser/src/tasks/parse_inlines/inline_preproc.rs", "backend/src/html/htmlbuf.rs", DR],
 [("symbol and quote recognition", INL), ("escaping on output", "backend/src/html/htmlbuf.rs")], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C04", "Links: every URL, link macro and e-mail address becomes the right anchor",
 "Bare URLs, URLs with bracketed text, link macros and e-mail addresses (bare or by macro) become anchors with exactly the written target, the written or default text, and the documented classes, roles and window attributes. Surrounding text and punctuation stay outside the anchor.",
 ["inputs"], "every form, target and text of a link, beside any text and in every block that holds text", MODEL_W,
 [INL, "parser/src/line.rs", DR], [("uri scheme and mail token handling", INL), ("url extent", "parser/src/line.rs"), ("anchor emission", DR)],
 ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C05", "Cross references resolve to the right target with the right text",
 "A cross reference in either form, before or after its target, links to the id it names; its text is the one written, or else the reference text or title of the target, or else the bracketed id. Anchors (block, inline, section; automatic or explicit) appear in the output exactly once with the id references use.",
 ["inputs"], "every mix of references and targets in any order and position", MODEL_W,
 [INL, "parser/src/tasks/parse_section.rs", "parser/src/parser.rs", DR, "backend/src/html/backend.rs"], [("anchor table collected while parsing", "parser/src/parser.rs"), ("reference text rendering", "backend/src/html/backend.rs")],
 ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C06", "Footnotes are numbered in reading order and listed once with their text",
 "Footnotes are numbered 1, 2, 3 in the order they are written, wherever they stand; each reference links to its entry and each entry back to it, a repeated named footnote reuses its number, and the list at the end holds each footnote exactly once with its full inline content.",
 ["inputs"], "every number, naming, repetition and placement of footnotes (paragraphs, lists, tables, nested cells, quotes)", MODEL_W,
 [INL, DR, "backend/src/html/backend.rs", "parser/src/tasks/table"], [("footnote collection", DR), ("footnote parsing", INL)], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C07", "Image, UI, index-term, line-break and passthrough macros render exactly",
 "Inline and block images, keyboard, button and menu macros, visible and concealed index terms, hard line breaks and passthroughs produce their documented elements with exactly the written targets, sizes, alternative text, roles, keys and items, and leave the neighbouring text untouched.",
 ["inputs"], "every macro with every attribute combination, beside any text and in every block that holds text", MODEL_W,
 [INL, "parser/src/tasks/parse_inlines/inline_preproc.rs", "parser/src/tasks/parse_inlines/index_term.rs", "parser/src/tasks/parse_attr_list.rs", DR],
 [("inline macros", INL), ("macro attribute lists", "parser/src/tasks/parse_attr_list.rs")], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C09", "Ids, roles, reference text and titles attach to the block they precede",
 "An id, roles, reference text and title written above a block, in shorthand, bracket or named form and in any order, appear on exactly that block's element and nowhere else, for every kind of block; block titles carry their inline formatting.",
 ["inputs"], "every kind of block with every combination and spelling of metadata, in sequences and nested", MODEL_W,
 ["parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_attr_list.rs", "ast/src/chunk_meta.rs", DR, "backend/src/html/open_tag.rs"],
 [("metadata lines collected before a block", "parser/src/tasks"), ("opening tags with id and classes", "backend/src/html")], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C10", "Verbatim content reaches the output character for character",
 "Listing, literal, source, passthrough and verse blocks, in delimited, paragraph or indented form, show every line and space of their content exactly (escaped, or raw for passthroughs), with no markup interpreted except where the style says so. Callout numbers stand exactly at their lines and pair up with their callout list.",
 ["inputs"], "every content and spelling of verbatim blocks, alone or inside lists and containers", MODEL_W,
 ["parser/src/tasks/parse_block.rs", "parser/src/contiguous_lines.rs", INL, DR], [("verbatim substitution sets", "core/src"), ("callout scanning", INL)], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C11", "Delimited blocks nest exactly as their delimiters say",
 "Example, sidebar, quote, open, collapsible and admonition blocks contain exactly the blocks between their delimiters, in order, at every nesting depth; their kind, title, attribution and icon label appear in the documented structure and what follows the closing delimiter is outside.",
 ["inputs"], "every nesting and sequence of containers around any blocks", MODEL_W,
 ["parser/src/tasks/parse_block.rs", "parser/src/lexer/root_lexer.rs", DR], [("delimiter stack", "parser/src/tasks")], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C12", "Lists nest by their markers, with every item, term and attached block in place",
 "Unordered, ordered, check and description lists nest as their markers say, to any depth and in any mix; every item, term, description, checkbox and attached block appears once, in order, in the item it belongs to, with the documented classes, numbering style and start.",
 ["inputs"], "every nesting and mix of lists, spacing and attached blocks", MODEL_W,
 ["parser/src/tasks/parse_list.rs", "parser/src/line.rs", DR, "backend/src/html/list.rs"], [("list marker stack", "parser/src/tasks/parse_list.rs"), ("numbering style", "backend/src/html/list.rs")], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C13", "Tables: every cell lands in its row and column with its style and alignment",
 "A table shows every cell once, in its row and column, with its spans, alignment, style, and content rendered as the style says (including complete AsciiDoc documents); header, footer, column widths, frame, grid, stripes and width settings take their documented form.",
 ["inputs"], "every shape, specification, layout and content of tables", MODEL_W,
 ["parser/src/tasks/table/mod.rs", DR, "backend/src/html"], [("cell scanning and specs", "parser/src/tasks/table"), ("row assembly", "parser/src/tasks/table"), ("table emission", DR)], ["HTML of whole documents"], MODEL_T, MODEL_N)
prop("C14", "Whole documents keep every block, once, in order, with the right structure",
 "For a document freely combining sections, paragraphs, lists, tables, containers, verbatim blocks, metadata, references and footnotes, the output is exactly the Asciidoctor-compatible HTML of its parts assembled in source order: nothing lost, duplicated, reordered or rendered differently because of its neighbours.",
 ["inputs"], "every combination of constructs in a document", MODEL_W,
 ["parser/src/parser.rs", "parser/src/tasks/parse_section.rs", "eval/src/eval.rs", DR], [("document and section assembly", "parser/src/parser.rs"), ("AST walk", "eval/src/eval.rs")], ["HTML of whole documents"], MODEL_T, MODEL_N)

prop("C16", "Sections, their ids and numbers, and the table of contents follow the outline",
 "Sections, parts and chapters nest as their heading levels say, each with its heading, roles and blocks; explicit ids are kept, automatic ids are derived from the title by the configured prefix and separator and never repeat; sections, chapters, parts and appendices are numbered and captioned as sectnums (also when switched on and off between sections), sectnumlevels, partnums and the signifier and caption attributes say, special sections only on request; discrete headings take no part. The table of contents, wherever it is placed, lists exactly the sections down to toclevels, nested and in order, with the same numbers, titles and ids as the headings.",
 ["inputs", "configurations"], "every outline of an article, book or multi-part book under every setting of numbering, ids and contents list",
 "Tests show one outline per setting; numbering, ids and contents list are computed from shared counters that only go wrong for particular sequences of sections and settings.",
 ["parser/src/tasks/parse_section.rs", "parser/src/tasks/parse_book.rs", "parser/src/tasks/parse_book_part.rs", "parser/src/tasks/section_id.rs", "backend/src/html/backend.rs", DR, "eval/src/eval.rs"],
 [("section and part assembly, contents nodes", "parser/src/tasks/parse_section.rs"), ("id generation", "parser/src/tasks/section_id.rs"), ("numbering state", "backend/src/html/backend.rs")], ["HTML of whole documents"],
 "runtime monitoring: outline oracle over generated documents (DOM comparison)",
 "Outlines are generated as data; source text and the expected DOM (numbers, ids, captions, contents list) are computed from them separately, and the real output is compared node by node, with no diagnostics allowed. Assurance is that of the sampled outlines and settings (see evidence).")

prop("C08", "Attribute references give the value in effect at their place",
 "An attribute reference, wherever references are replaced (text, titles, list items, table cells, link, image and include targets, ids and roles, listings with that substitution, ifdef, ifndef and ifeval conditions, attribute values), gives the value the attribute has at that point: the last entry above it in header, body or enclosing AsciiDoc cell (whose entries stay in it), or the value given by the caller, which no entry overrides unless it was given as a default. Names ignore case, values may be wrapped over lines and refer to other attributes as they were when defined, escaped references and replaced values are not replaced again, and references to missing attributes are kept, kept with one warning each, dropped, or dropped with their line, as attribute-missing says at that point.",
 ["inputs", "configurations"], "every sequence of entries, unsettings and references over every syntactic place and every set of caller attributes",
 "Tests use one or two attributes at a time; the value seen depends on the history of entries, on re-reading of lines after entries, on locks and on scopes of cells.",
 ["parser/src/tasks/attr_refs.rs", "parser/src/tasks/parse_doc_attrs.rs", "parser/src/tasks/parse_block.rs", "parser/src/parser.rs", "core/src/document_meta.rs", "core/src/job_attrs.rs", "parser/src/tasks/table/parse_table.rs"],
 [("replacement while reading lines", "parser/src/tasks/attr_refs.rs"), ("entries", "parser/src/tasks/parse_doc_attrs.rs"), ("precedence and scopes", "core/src/document_meta.rs")], ["HTML of whole documents", "warnings"],
 "runtime monitoring: attribute-state oracle over generated histories (DOM comparison)",
 "Histories of entries and references are generated together with the state they lead to; the real output is compared node by node with the DOM that state prescribes, and the warnings with the expected number. Assurance is that of the sampled histories (see evidence).")
prop("C17", "Captions are numbered per kind in document order and labelled as configured",
 "Titled tables, figures, example and listing blocks carry the caption their kind's caption attribute has at that point followed by the next number of that kind and the title, no caption when the attribute is unset, and their own caption= text without taking a number when they give one; untitled blocks and other kinds of blocks take no part. Numbers run through the document in order, through any nesting, list items and AsciiDoc table cells; attributes set in a cell stay in the cell. Admonitions are labelled by their own caption or their kind's caption attribute.",
 ["inputs", "configurations"], "every tree of blocks and every sequence of settings of the caption attributes in header, body and cells",
 "Tests number one or two blocks; the numbers are counters shared by render passes of nested documents and the labels are attributes replayed in document order.",
 [DR, "backend/src/html/backend.rs", "eval/src/eval.rs", "core/src/document_meta.rs", "parser/src/tasks/parse_attr_list.rs"],
 [("caption rendering and counters", DR), ("attribute replay and cells", "core/src/document_meta.rs")], ["HTML of whole documents"],
 "runtime monitoring: caption and number oracle over generated trees (DOM comparison)",
 "Trees of blocks with attribute entries between them are generated as data; source text and the expected DOM, labels and numbers are computed separately, and the real output is compared node by node, with no diagnostics allowed. Assurance is that of the sampled trees (see evidence).")

prop("C28", "Both HTML backends show the same document",
 "The Asciidoctor-style and the semantic HTML5 backend render every document with the same text in the same order, the same links, images, media, ids, inline formatting and hard line breaks, the same sections and headings with their levels, list numbering, table cells with their spans and alignment, and the same verbatim text; only markup, the placement of titles, footnote marks and dashes, language-dependent quotes and icons as pictures differ by design.",
 ["inputs", "configurations"], "every document (well-formed or not) rendered by both backends",
 "Each backend has its own hand-written rendering of every node kind; tests of one do not look at the other, and most node combinations are tested in neither.",
 [DR, "backend-html5s/src/html5s.rs", "backend/src/html/backend.rs", "backend/src/html/htmlbuf.rs", "eval/src/eval.rs"],
 [("Asciidoctor-style rendering", DR), ("semantic rendering", "backend-html5s/src/html5s.rs")], ["HTML of both backends, reduced to what a reader gets"],
 "runtime monitoring: differential oracle (projections of both backends' output must be equal)",
 "Every case converts one document (generated, mutated from the test corpus, or token soup) with both real backends, parses both outputs and compares their projections: text without blanks, link targets, image sources and alternative texts, formatting elements, line breaks, sections and headings by level, numbering of ordered lists, cells (header or not, spans, alignment) and the exact text of verbatim blocks in order, and ids as a multiset. Deliberate differences are normalised by name. Assurance is that of the sampled documents.")

prop("C25", "Diagnostics name the place they are about",
"Every diagnostic names an existing file and line, shows that line (or the table cell's part of it) and underlines a part of it; and a problem in an otherwise clean document - an unclosed block, a missing reference, target, include or attribute, a duplicate anchor, a misnumbered list item or callout, an unmatched directive, a heading out of sequence - gives exactly one diagnostic, with its message, at its line of its file, also within lists, blocks and cells and when the document is cut into include files.",
["inputs"], "every diagnostic of every document, whole or cut into files; every kind of planted problem at every place",
"Tests look at one problem per construct in a document of its own; here lines are counted across attribute entries, directives, comments, includes, tag selections and nested cell parsers, each with its own offsets.",
["parser/src/diagnostic.rs", "parser/src/lexer/root_lexer.rs", "parser/src/lexer/source_lexer.rs", "parser/src/tasks/diagnose_document.rs", "parser/src/tasks/anchors.rs", "parser/src/tasks/table/parse_table.rs"],
[("mapping of offsets to lines and files", "parser/src/lexer/root_lexer.rs"), ("diagnostics of table cells", "parser/src/tasks/table/parse_table.rs"), ("references diagnosed at the end", "parser/src/tasks/diagnose_document.rs")],
["diagnostics (message, file, line number, line, underline)"],
"runtime monitoring: invariant checks on every diagnostic, and an oracle of planted problems",
"Half of the cases check each diagnostic of a wild document against the sources; the other half plant one known problem in a clean document, whole and cut into files, and require that exactly that one is reported at its place. Assurance is that of the sampled documents.")

prop("C27", "The page around the content says what the header says",
"For every document header - title, author lines or entries, revision line or entries, attribute entries anywhere in it, values given by the caller, with or without docinfo files - a standalone conversion gives exactly the head (language, meta elements, icon, authors, page title), body attributes, header, footer and docinfo contents at their places that the header states, an embedded one gives none of them but a requested title, the page's content is the embedded conversion, the doctype set by the caller prevails, and the author and revision attributes have the stated values in the document; docinfo files are never read in secure mode.",
["inputs"], "every header of titles, authors, revisions and page attributes, in either backend, standalone or embedded, with every docinfo setting and safe mode",
"Tests check one attribute at a time for one backend; names, revision forms, precedence and placement combine, and each part of the page is emitted on its own condition.",
["parser/src/tasks/parse_doc_header.rs", "parser/src/tasks/parse_author_line.rs", "parser/src/tasks/parse_revision_line.rs", "parser/src/docinfo.rs", "core/src/document_meta.rs", "backend/src/html/backend.rs", DR, "backend-html5s/src/html5s.rs"],
[("author and revision lines", "parser/src/tasks/parse_author_line.rs"), ("precedence of attributes", "core/src/document_meta.rs"), ("docinfo files", "parser/src/docinfo.rs"), ("head and body elements", "backend/src/html/backend.rs")],
["HTML of the page without its content", "text of references to header attributes"],
"runtime monitoring: reference oracle of generated headers compared with the page", "Headers and docinfo files are generated with the page they have to give; the DOM of the real output, less content, contents list and style sheets, must equal it. Authors' names, values and dates are drawn from fixed sets. Assurance is that of the sampled headers.")

prop("C23", "Conversion reads no file the safe mode forbids, and every file it permits",
"Includes (also nested, in cells, lists and verbatim blocks, or with attribute references in the target), inline and data-URI images, docinfo files and style sheets: in secure mode none is read; in the other safe modes except unsafe exactly those are read that lie in the base directory (style sheets: the working directory) after all links and dots are resolved, and in unsafe mode all that exist; a file read is the one that the target names relative to the document, the including file or the image directory, and its contents appear once for every use.",
["inputs", "configurations"], "every spelling of a target (dots, absolute, through links into and out of the base directory), every placement of document, base and working directory, every safe mode",
"Tests use a resolver of their own that reads no files; whether the command line tool stays in the base directory depends on the file system, and each kind of resource has its own path to a read.",
["cli/src/resolver.rs", "cli/src/css.rs", "cli/src/main.rs", "parser/src/tasks/directives/includes/target.rs", "parser/src/docinfo.rs", "core/src/path.rs", "parser/src/tasks/parse_inlines/mod.rs"],
[("resolver of the command line tool", "cli/src/resolver.rs"), ("targets", "parser/src/tasks/directives/includes/target.rs"), ("style sheets", "cli/src/css.rs")],
["marks of files in the output, as text or encoded"],
"runtime monitoring: information-flow marks (every file holds a unique mark; the marks in the output are compared with the permitted reads)",
"The command line tool built from the working tree is run in a scratch tree of files and links, every file with a mark of its own; the oracle computes with the file system which files each document may use and compares with the marks in the output. URIs are not read (there is no network). Assurance is that of the sampled documents and trees.")

prop("C29", "The command line tool and the wasm module give what the library gives",
"For every document and every combination of options the command line tool writes exactly the library's HTML for these settings to stdout or the output file and nothing else; on a rejection it exits with 1, writes no output, leaves an output file as it was and reports every diagnostic with file, line, column and marked part, as text or as JSON; the wasm module always returns valid JSON that holds exactly the library's HTML.",
["inputs", "configurations"], "every document with every combination of format, embedding, doctype, safe mode, attribute forms, strictness, error form, input and output",
"Tests call the tool's run function on one document; option parsing, encodings and exit paths are otherwise untested, the wasm module is not tested at all.",
["cli/src/main.rs", "cli/src/args.rs", "cli/src/error.rs", "dr-html-wasm/src/lib.rs", "parser/src/diagnostic.rs", "core/src/job_settings.rs"],
[("options", "cli/src/args.rs"), ("conversion and reports", "cli/src/main.rs"), ("wasm module", "dr-html-wasm/src/lib.rs"), ("text of diagnostics", "parser/src/diagnostic.rs")],
["stdout, stderr, exit code and files of the tool", "JSON of the wasm module"],
"runtime monitoring: differential oracle between the front ends and the library", "Documents (generated, wild, with problems) are converted by a process of the command line tool, or by the wasm crate's function called natively, and the result is compared with the library's for the same settings. The prettier formats and timings are not covered. Assurance is that of the sampled documents and options.")

META_N = ("Every case runs the real converter twice, on the document and on its rewriting, and compares HTML and diagnostic messages exactly; the oracle needs no model of AsciiDoc beyond the rewriting's own rule. "
  "Assurance is that of the sampled documents and rewritings (counts in the evidence).")
META_T = "runtime monitoring: metamorphic oracle (original and rewritten document must convert alike)"
prop("C21", "Line ends, byte-order marks and trailing blanks do not change the output",
 "A document converts to the same HTML and diagnostics whether its lines end in LF, CRLF or a mix, whether it starts with a byte-order mark, whether its last line is terminated, followed by empty lines or not, and whether its lines carry trailing blanks.",
 ["inputs"], "every document (well-formed or soup) with every such rewriting",
 "Tests are written with one line-end convention; the lexer has a separate path for each of these forms, reached from every construct.",
 ["parser/src/lexer/source_lexer.rs", "parser/src/lexer/root_lexer.rs", "parser/src/tasks/directives/includes/normalize_includes.rs"],
 [("line and token scanning", "parser/src/lexer/source_lexer.rs"), ("end of source", "parser/src/lexer/root_lexer.rs")], ["HTML and diagnostics of both forms"], META_T, META_N)
prop("C22", "Includes splice exactly the selected lines of the file in place",
 "A document cut at any lines into include files, nested to any depth, in any supported encoding and line-end convention, whole or selected by line ranges or tags, with headings shifted by level offsets (which add up), converts exactly as the uncut document, with no line lost, doubled, merged or reordered and relative targets resolved against the including file.",
 ["inputs"], "every document, every way to cut it into nested files, every selection form (lines=, tag=, tags=), encoding and target spelling",
 "Tests include a few files in ordinary places; here an include boundary falls in every construct (tables, lists, verbatim blocks, metadata, headers, paragraphs).",
 ["parser/src/tasks/directives/includes/mod.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/directives/includes/normalize_includes.rs", "parser/src/tasks/directives/includes/tags.rs", "parser/src/tasks/directives/includes/target.rs", "parser/src/lexer/root_lexer.rs"],
 [("include stack of source lexers", "parser/src/lexer/root_lexer.rs"), ("line and tag selection", "parser/src/tasks/directives/includes/process_includes.rs"), ("decoding and normalizing", "parser/src/tasks/directives/includes/normalize_includes.rs")],
 ["HTML and diagnostics of both forms", "targets asked of the resolver"], META_T, META_N)
prop("C24", "Conditional directives keep or drop exactly the lines they enclose",
 "Lines between ifdef, ifndef or ifeval and the matching endif are processed as if written without the directives when the condition holds, and are as if absent when it does not; conditions nest, combine attributes by comma (any) and plus (all), compare numbers as numbers and strings as strings, and work at any line of any construct, also within verbatim blocks and tables.",
 ["inputs"], "every document with every nesting of conditions of either outcome around any of its lines, and any foreign lines within false ones",
 "Tests wrap a few paragraphs; here the directives fall between any two lines of any construct, and dropped regions hold arbitrary lines, including other directives.",
 ["parser/src/tasks/directives/mod.rs", "parser/src/tasks/directives/ifdef.rs", "parser/src/tasks/directives/ifeval.rs"],
 [("directive handling while reading lines", "parser/src/tasks/directives/mod.rs"), ("condition evaluation", "parser/src/tasks/directives/ifeval.rs")], ["HTML and diagnostics of both forms"], META_T, META_N)

prop("C15", "Comments leave no trace",
 "Line comments and comment blocks, whatever they contain, do not change the output or the diagnostics of the document they stand in: they are not content, do not split or join the blocks, paragraphs, list items or table cells around them, and nothing within them (attribute entries, directives, delimiters, references, macros) takes effect.",
 ["inputs"], "every document, every place where a line comment or comment block may stand, every content of the comment",
 "Tests put a comment at a few places; each construct reads its lines on its own path, and each has to skip comments there.",
 ["parser/src/parser.rs", "parser/src/contiguous_lines.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_list.rs", "parser/src/tasks/table/parse_table.rs", "parser/src/tasks/parse_doc_header.rs"],
 [("comment lines of paragraphs", "parser/src/contiguous_lines.rs"), ("comments and list continuity", "parser/src/tasks/parse_list.rs"), ("comment blocks", "parser/src/parser.rs")], ["HTML and diagnostics of both forms"], META_T, META_N)
prop("C18", "The output is well-formed HTML and document text cannot inject markup",
 "For every document without passthroughs, in every backend, doctype and safe mode, the output is syntactically well-formed (every element closed in order, attributes quoted and unique, no bare `<`, `>` or `&`), uses only elements and attributes of the backend's vocabulary in places HTML allows, and text of the document - in any macro target, attribute, title, author line or attribute entry - never becomes markup.",
 ["inputs"], "every document without passthroughs, in particular markup-breaking text in every syntactic place",
 "Tests compare exact HTML of benign text; escaping is decided separately at each of a hundred output sites in two backends.",
 ["backend/src/html/htmlbuf.rs", "backend/src/html/backend.rs", "backend/src/html/open_tag.rs", DR, "backend-html5s/src/html5s.rs", "parser/src/tasks/parse_inlines/mod.rs"],
 [("escaping helpers", "backend/src/html/htmlbuf.rs"), ("emission of attributes", "backend/src/html/open_tag.rs"), ("fallbacks of invalid macros", "parser/src/tasks/parse_inlines/inline_utils.rs")], ["HTML of whole documents, embedded and standalone"],
 "runtime monitoring: strict HTML reader with vocabulary and nesting rules as output monitor", "The monitor judges the output alone: a strict reader (no error recovery) parses it, and elements, attributes and nesting are checked against the backends' vocabulary. Inputs are soup, mutated fixtures and documents with markup-breaking text in about 200 syntactic places. Links of scripting schemes are not judged.")
prop("C19", "Conversion is deterministic and independent of other conversions",
 "Converting the same document with the same settings always gives the same HTML, diagnostics and include requests, whatever was converted before in the process and whatever is converted at the same time in other threads.",
 ["inputs", "schedules"], "every document, every sequence and interleaving of conversions in one process",
 "Tests convert each document once, alone; shared state (lazy statics, counters, hash iteration order) shows only across conversions.",
 ["parser/src/parser.rs", "eval/src/eval.rs", "core/src/regx.rs", "backend/src/html/backend.rs"],
 [("conversion state", "backend/src/html/backend.rs"), ("attribute maps", "core/src/regx.rs")], ["HTML, diagnostics and include requests of repeated and concurrent conversions"],
 "runtime monitoring: repeated and concurrent executions compared exactly", "Each job runs six times: alone, again in another order, and four times concurrently with other jobs. Hash maps are seeded anew in every instance, so dependence on iteration order shows as a difference.")
prop("C20", "Strict parsing rejects exactly what lenient parsing warns about",
 "Strict mode accepts a document exactly if lenient mode has no diagnostic for it, with the same output; a rejection always carries a diagnostic, and it is one lenient mode reports too. Lenient mode always produces output.",
 ["inputs"], "every document", "Tests check single diagnostics in one of the modes; every error site has both a reporting and a recovery path.",
 ["parser/src/diagnostic.rs", "parser/src/parser.rs", "parser/src/tasks/diagnose_document.rs"], [("error or recovery", "parser/src/diagnostic.rs")], ["HTML and diagnostics in both modes"],
 "runtime monitoring: differential oracle between the strict and lenient mode", "Both modes run on every document (soup, mutated fixtures, generated) and their results are compared.")

prop("C26", "subs chooses the substitutions that apply",
"Exactly the substitution steps that a block's `subs` attribute leaves - names in order, `+`, `-` and trailing `+` changing the default of the block's kind, groups standing for their steps - or that a pass macro names, apply to its text: special characters, quotes, attributes, replacements, macros, line breaks and callouts that are on take effect, those that are off leave their text as written; the same holds for every kind of block (paragraph, verse, listing, literal, pass), the blocks around and after it keep theirs.",
["inputs"], "every list of steps, groups and modifiers on every kind of block, and in pass macros, over text sensitive to every step",
"Tests check a few lists on a paragraph; each step is tested at another place of the inline parser, with verbatim and other lines read on different paths.",
["parser/src/tasks/customize_subs.rs", "parser/src/tasks/parse_block.rs", INL, "parser/src/tasks/parse_inlines/inline_preproc.rs", "parser/src/contiguous_lines.rs"],
[("steps of a block", "parser/src/tasks/customize_subs.rs"), ("inline parsing under steps", INL)], ["HTML of whole documents"],
"runtime monitoring: reference-model oracle (independent resolution of steps prescribes the DOM)",
"Documents of blocks with generated lists of steps and pass macros with generated steps are converted, the DOM has to equal the one an independent resolver of the steps prescribes. Only lists are used whose steps come in the usual order; the order of substitutions is not judged. Assurance is that of the sampled documents.")

prop("C30", "Partial includes select the lines they ask for",
"An include with `lines`, `tag` or `tags` (negated, with wildcards, comma or semicolon separated, ranges open or closed) takes exactly the lines of the file that the selection means - the innermost region decides, lines of tag directives are never shown -, in order, with the indentation `indent` asks for, independent of other includes of the same file; a tag asked for but missing is reported, nothing else.",
["inputs"], "every file with nested and repeated tagged regions in any comment style, with every selection",
"Tests list a dozen selections on two files; nesting, negation, wildcards and directives' spellings multiply.",
["parser/src/tasks/directives/includes/tags.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/lexer/root_lexer.rs"],
[("tag selection", "parser/src/tasks/directives/includes/tags.rs"), ("lines and indentation", "parser/src/tasks/directives/includes/process_includes.rs")], ["text of including blocks", "diagnostics"],
"runtime monitoring: reference oracle (independent selector of lines)",
"Every generated file is included with generated selections and the text of the including blocks compared with the lines an independent selector picks. Assurance is that of the sampled files and selections.")

prop("C31", "Media macros become the element they describe",
"Block and inline images, audio, video files, YouTube, Vimeo and Wistia videos, icons and admonition icons become, in both HTML backends, the element, attributes and link that target, attributes (named or positional, of the macro or of the line above) and imagesdir, iconsdir, icontype and icons prescribe: path, alternative text, size, playback and player parameters, link with window and rel, float, alignment, id and roles, caption; nothing given is lost or doubled.",
["inputs"], "every combination of attributes, targets and document attributes, in both backends",
"Tests hold some hundred fixed macros; what goes wrong are combinations (a link window with nofollow, a list given twice, a folder with a trailing slash).",
["backend/src/html/video.rs", "backend/src/html/backend.rs", "backend/src/html/htmlbuf.rs", "parser/src/tasks/parse_image_block.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
[("video and players", "backend/src/html/video.rs"), ("images, audio, paths", "backend/src/html/backend.rs"), ("attributes", "backend/src/html/htmlbuf.rs")], ["DOM of each macro"],
"runtime monitoring: reference oracle (independent reading of the attributes)",
"Documents of generated macros are converted and their DOM compared with the one an independent reading of the attributes prescribes. data-uri embedding and inline SVG contents are not covered (they read files). Assurance is that of the sampled macros.")
prop("C32", "Intrinsic attributes say what is so",
"Without being set, the attributes of a document tell where it was read from (docname, docfile, docdir, docfilesuffix, as far as the safe mode lets them), when (docdate, doctime, docdatetime, docyear and the local ones, from the document's and the job's clock), how it is converted (backend, basebackend, doctype, outfilesuffix, filetype, safe-mode-name and -level, and the flags made of these), which characters have names and what the default labels are - wherever they are used: in text, attribute values, conditions, comparisons, table cells and included files.",
["inputs", "configuration"], "every path, clock, safe mode, backend and doctype, at every place of use",
"Tests check a few attributes at one fixed path and time in text; what differs is the place of use, leap years and month ends, odd paths, the safe modes.",
["core/src/document_meta.rs", "core/src/attrs.rs", "backend/src/time.rs", "backend/src/utils.rs", "parser/src/tasks/attr_refs.rs", "parser/src/tasks/directives"],
[("named characters and labels", "core/src/attrs.rs"), ("dates", "backend/src/time.rs"), ("source file", "parser/src/tasks/attr_refs.rs")], ["text of paragraphs"],
"runtime monitoring: reference oracle (independent calendar, path and mode tables)",
"Generated documents use the attributes at generated places, under generated paths, clocks, safe modes, backends and doctypes, and every paragraph's text is compared with an independent computation. Assurance is that of the samples.")

prop("C33", "References between documents lead where the text is",
"A reference by path and id (`<<path#id>>`, `xref:path#id[]`), wherever it stands, leads to `#id` of the page when the path - with or without extension, from the base directory - is the document's own or that of a file included into it (at any depth, also in a table cell), and otherwise to the other document's page: the path with the extension replaced by relfilesuffix or outfilesuffix, as the syntax prescribes, and relfileprefix in front, as in force at that place. Its text is the one given, else that of the target if it is in the document, else the path of the page; nothing found in the document is reported as missing.",
["inputs", "configuration"], "every layout of included files, every path and extension, every place of the entries",
"Tests hold one included file next to the document; what goes wrong are nested includes, equal ids in both documents, the document's own name, other extensions, table cells.",
["backend/src/utils.rs", "backend/src/html/backend.rs", "eval/src/eval.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/diagnose_document.rs"],
[("path and suffix", "backend/src/utils.rs"), ("included files", "parser/src/tasks/directives/includes/process_includes.rs"), ("text", "eval/src/eval.rs")], ["href and text of links", "diagnostics"],
"runtime monitoring: reference oracle (independent resolution of paths)",
"Generated trees of files refer to each other, to themselves and to other documents; every link's target and text is compared with an independent resolution, and diagnostics may only name targets that are not where they are said to be. Assurance is that of the samples.")

# commit subject -> property whose check reported it
CLASS = [
 (r"bibliography references", "C05"), (r"newline after inline spans in markdown|recognize quoted paragraphs|markdown blockquotes end where", "C11"),
 (r"callouts numbered in a table cell", "C10"), (r"ampersands in image and media paths", "C18"),
 (r"references by path lead into|references to included files are not reported|references to the top from a cell", "C33"),
 (r"outfilesuffix is known", "C32"), (r"plus signs from an attribute|formatting marks from an attribute", "C08"), (r"whose last cell goes on", "C13"),
 (r"nofollow out|audio, video and poster|block image linked|alternative text|audio and video macros|hosted video|^icons are|links, keys and menus|brackets within a block's", "C31"),
 (r"level offsets of nested", "C22"),
 (r"hard breaks apply", "C28"), (r"included file with a byte order", "C22"),
 (r"tags select the lines", "C30"), (r"subs steps|verbatim text are no comments", "C26"),
 (r"(?!.*panic)(wasm|JSON of|columns of text|command line)", "C29"), (r"^verse with", "C18"), (r"safe mode reads|strict includes", "C23"), (r"docinfo of cells|documents of table cells|documents of table cells and inline|doctype set by", "C27"),
 (r"^(?!.*(no panic;|overflow|trailing|depth, prop|inline doctype)).*(diagnos|duplicate anchors)", "C25"),
 (r"docinfo|author|revision line", "C27"), (r"contents list|part title", "C16"), (r"html5s keeps ids", "C28"), (r"missing references", "C08"), (r"own captions|cells start from|attribute values with special", "C17"),
 (r"^(?!.*(panic|inner|boundary|unused|mixed)).*\binclude", "C22"), (r"^(?!.*(panic|mailto)).*(directive|conditional|ifdef|ifeval)", "C24"), (r"trailing blank|byte order|line end|final newline", "C21"),
 (r"^(?!.*panic).*(comment|attribute entries in paragraphs)", "C15"), (r"well-formed|is escaped", "C18"),
 (r"panic|recurse|bounded stack|infinite|overflow|corrupt|no longer wrong", "C01"),
 (r"list|callout", "C12"), (r"column width|table", "C13"), (r"url|mailto|email|link", "C04"), (r"xref|cross ref|anchor", "C05"),
 (r"footnote", "C06"), (r"passthr|index term|line break|menu|macro", "C07"), (r"escap|angle", "C03"), (r"verse|listing|literal|verbatim|source style", "C10"),
 (r"caption", "C14"), (r"metadata|title", "C09"), (r"section|appendix|toc|heading", "C14"), (r"delimited|preamble|paragraph", "C11"),
]
