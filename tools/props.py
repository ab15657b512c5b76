def A(files, mechanism, state, observe, hook="none: public API only"):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": state, "observe_at": observe, "hook_needed": hook}

PROPS = [
 dict(id="C01", title="Conditional directives keep exactly the lines their conditions select",
  statement="For every sequence of ifdef/ifndef/ifeval/endif lines and content lines, the rendered document contains exactly the content lines whose enclosing conditionals are all true at that point, in order, whatever the nesting, single-line or block form, enclosing block, header or body position, and line ending at end of input. Each endif closes the innermost open block conditional; an endif with nothing open, an endif naming another target, and a false conditional never closed are rejected in strict mode at that directive's line.",
  quantifier=dict(over="programs", text="all sequences of directive/content/attribute-toggle lines up to the bound, in five enclosing contexts and in the header; all any/all target lists; all typed ifeval operand pairs"),
  why_tests_cant="The existing tests sample a handful of nestings; correctness depends on the stack discipline over every interleaving of opening, skipping, single-line and closing directives.",
  anchors=A(["parser/src/tasks/directives/ifdef.rs", "parser/src/tasks/directives/ifeval.rs", "parser/src/tasks/directives/mod.rs", "parser/src/parser.rs", "core/src/regx.rs"],
    [("evaluate_ifdef", "parser/src/tasks/directives/ifdef.rs"), ("skip_lines_until_endif", "parser/src/tasks/directives/ifdef.rs"), ("try_process_endif_directive", "parser/src/tasks/directives/mod.rs"), ("eval", "parser/src/tasks/directives/ifeval.rs")],
    "ParseContext.ifdef_stack, document attribute map", "rendered HTML text and returned diagnostics"),
  level="model_checking",
  technique="explicit-state reference model (stack machine) enumerated over all operation sequences up to depth; every model trace replayed against the real parser+backend",
  level_note="all sequences up to length 4 over 15 operations in 5 contexts, length 6 over 8 operations, header sequences to length 6; thorough one deeper"),
 dict(id="C02", title="Every input is parsed and converted to the end, without a panic",
  statement="For every input text up to the bound - any sequence of document lines, block pieces, inline tokens, characters, attribute-list tokens, block attributes, table-cell tokens or header lines (numerals of up to five digits), with or without a final newline, parsed strict or non-strict - parsing returns a document or diagnostics and converting the document with either backend returns HTML: never a panic, arithmetic overflow, stack overflow, endless loop or exhaustion of memory.",
  quantifier=dict(over="programs", text="all token sequences up to the bound over alphabets of lines (206), inline tokens (66), characters (40), attribute-list tokens (28), table tokens (31), header lines (35)"),
  why_tests_cant="Tests try inputs someone thought of; a panic hides in the combination nobody did. The enumeration found over 15 of them.",
  anchors=A(["parser/src/parser.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/parse_attr_list.rs", "parser/src/tasks/table/parse_psv_table.rs", "parser/src/tasks/parse_doc_header.rs", "dr-html-backend/src/asciidoctor_html.rs"],
    [("parse_block", "parser/src/tasks/parse_block.rs"), ("parse_inlines_until", "parser/src/tasks/parse_inlines/mod.rs"), ("parse_table", "parser/src/tasks/table/parse_table.rs"), ("eval", "eval/src/eval.rs")],
    "lexer position, ParseContext, table context", "return of Parser::parse and of both backends' convert"),
  level="exploration",
  technique="exhaustive enumeration of all token sequences up to a depth, executed on the real parser and both backends with overflow checks, CPU and memory limits",
  level_note="depth 2 for lines/blocks (3 thorough), 3 for the other alphabets (4 thorough): 0.59M / 13.3M inputs, each parsed strict and non-strict"),
 dict(id="C03", title="Tag selection of an include keeps exactly the lines the tag filter selects",
  statement="For every included file made of text lines and tag::/end:: directives and every tag= or tags= list of names, negated names and wildcards, a listing that includes it contains exactly the lines that the documented tag filter selects (the innermost relevant region decides; tag directive lines never appear), independent of the comment style of the directives. A strict parse is rejected exactly when an end directive is mismatched for a selected tag, a selected tag is never closed, or a selected tag is absent from the file, at the offending line of the file or at the include directive.",
  quantifier=dict(over="programs", text="all well-nested region arrangements (<=3 regions over 3 names, 4 thorough) x all selection lists of up to 3 entries out of 10; all sequences of up to 6 (7) tag directives incl. malformed ones x 8 selections; all directive line syntaxes"),
  why_tests_cant="The result is a function of the whole nesting of regions and the whole list; the existing tests pin the lists from the documentation only.",
  anchors=A(["parser/src/tasks/directives/includes/tags.rs", "parser/src/tasks/directives/includes/normalize_includes.rs", "parser/src/parser.rs"],
    [("parse_selection", "parser/src/tasks/directives/includes/tags.rs"), ("_select_tagged_lines", "parser/src/tasks/directives/includes/tags.rs"), ("tag_directive", "parser/src/tasks/directives/includes/tags.rs"), ("read_lines", "parser/src/parser.rs")],
    "TagStack, selection list", "lines of the rendered listing and returned diagnostics"),
  level="model_checking",
  technique="explicit-state reference model (tag-filter stack machine) enumerated over all region arrangements and selection lists; every model trace replayed against the real parser+backend",
  level_note="lists mixing ** with a positive tag, and !** with a negated tag plus another wildcard or positive tag, are excluded: Asciidoctor marks them as unspecified (FIXME)"),
 dict(id="C04", title="Line ranges, reindentation and encodings yield exactly the expected lines",
  statement="For every included file and every lines= list of single lines, closed and open ranges (either separator, spaces allowed, entries that make no sense ignored), a listing that includes it contains exactly the selected lines of the file in order, leading and trailing blank lines trimmed as for any verbatim block; lines= takes precedence over tags. For every indent= value, on an include or on a verbatim block, the common indentation of the non-blank lines is replaced by that many spaces, blank lines stay blank, and no line is lost. A file in UTF-8 (with or without BOM) or UTF-16 (either BOM, or declared) yields the text it encodes; one that is not valid UTF-8 is reported.",
  quantifier=dict(over="programs", text="all blank/text shapes of files of up to 4 (6) lines x all lists of up to 3 of 14 range items x 4 list spellings; all indentation shapes of up to 4 (6) lines x 5 indents x includes/6 block forms; all texts of up to 3 (5) of 6 tokens x 6 encodings"),
  why_tests_cant="Off-by-one, blank-line and block-boundary errors depend on where blanks and excluded lines fall; tests pin a few layouts.",
  anchors=A(["parser/src/tasks/directives/includes/normalize_includes.rs", "parser/src/parser.rs", "parser/src/contiguous_lines.rs", "parser/src/tasks/parse_block.rs"],
    [("select_line_ranges", "parser/src/tasks/directives/includes/normalize_includes.rs"), ("normalize_encoding", "parser/src/tasks/directives/includes/normalize_includes.rs"), ("set_indentation", "parser/src/contiguous_lines.rs"), ("read_lines_until", "parser/src/parser.rs")],
    "range list, line buffer of the verbatim block", "lines of the rendered listing and returned diagnostics"),
  level="model_checking",
  technique="explicit-state reference model (line filter + reindenter) enumerated over all file shapes and selections; every model trace replayed against the real parser+backend",
  level_note="indentation by spaces only; files with CRLF only where the parser normalizes them (.txt/.adoc)"),
 dict(id="C05", title="Including a file is equivalent to pasting its lines in place",
  statement="For every document and every set of included files (files including further files, line ranges, files without a final newline, empty files, files starting or ending with blank lines, attribute entries, delimiters, list items, table rows), both backends render the document exactly as they render the text with every include line replaced by the lines of its file. A relative target is resolved against the directory of the file holding the include line (against the base directory in the primary document), also after returning from nested includes. An include nested deeper than max-include-depth or the depth= of an enclosing include is refused with an error and its line stays as text; the limit counts nesting, not the number of files. leveloffset= shifts the section titles of the file, and of the files it includes, relative to the offset in effect or absolutely, and ends with the file.",
  quantifier=dict(over="programs", text="all documents of up to 3 lines over 11 (13) x all included files of up to 2 lines over 7 (9), of 2 lines over 12 (16) x 3 lines over 9 (12), x 6 nested files x 2 file endings; all chains of 9 relative targets through 5 directories; all combinations of 5 depth= values on 4 includes x 6 limits after 0/2/66 sibling includes; all triples of 7 leveloffsets x 16 title shapes"),
  why_tests_cant="The reader switches sources in the middle of chunks; what goes wrong depends on what precedes and follows the switch. The enumeration found an endless loop, lost blank lines and split paragraphs.",
  anchors=A(["parser/src/lexer/root_lexer.rs", "parser/src/parser.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/directives/includes/target.rs", "parser/src/tasks/heading_level.rs", "parser/src/tasks/parse_doc_attrs.rs"],
    [("push_source/peek/next_token", "parser/src/lexer/root_lexer.rs"), ("try_process_include_directive", "parser/src/tasks/directives/includes/process_includes.rs"), ("exceeded_max_include_depth", "parser/src/tasks/directives/includes/process_includes.rs"), ("prepare", "parser/src/tasks/directives/includes/target.rs")],
    "source stack, level offsets, include depth", "HTML of both backends vs HTML of the pasted text; paths requested from the resolver; diagnostics"),
  level="model_checking",
  technique="explicit-state reference model (recursive pasting with paths, depth limits and offsets) enumerated over all documents and files; every expansion replayed against the real parser+backends",
  level_note="trailing blank lines of included files are kept (literal pasting); titles deeper than level 5 are excluded"),
 dict(id="C06", title="An attribute reference yields the value in force at its position",
  statement="At every point of a document an attribute has the value of the last assignment that is in force there: an attribute locked by the job, else the last attribute entry before that point (header entries, body entries, entries of included files, inline sets), else the job's soft value, else the built-in default. A reference is replaced by exactly that value wherever attributes are substituted - text, titles, headings, table cells, list terms, targets, ids, roles, macro and block attributes, verbatim blocks that ask for it - and left as text where they are not; unset attributes follow attribute-missing (skip, drop, drop-line, warn) and escaped references stay text. Entries that try to change a locked attribute, or one that only the job or the header may set, have no effect and are diagnosed. Captions of blocks follow the caption attributes in force at the block.",
  quantifier=dict(over="histories", text="all sequences of attribute entries (set, unset, set by reference, set again, in included files, in a block, in a skipped conditional, in a comment) in header and body, under every job setting, probed after each step; every place for a reference x every value x every way of assigning"),
  why_tests_cant="The value is a function of the whole history of assignments and of who made them; tests check single assignments. The enumeration found an endless loop, references kept next to their value, and references ignored in macro attributes.",
  anchors=A(["core/src/document_meta.rs", "core/src/job_attrs.rs", "parser/src/tasks/parse_doc_attrs.rs", "parser/src/lexer/source_lexer.rs", "parser/src/parser.rs", "backend/src/html/htmlbuf.rs"],
    [("get/insert_doc_attr/insert_header_attr", "core/src/document_meta.rs"), ("try_parse_attr_def", "parser/src/tasks/parse_doc_attrs.rs"), ("is_valid", "core/src/validate.rs"), ("attribute reference replacement", "parser/src/tasks/parse_inlines/mod.rs")],
    "document attribute maps", "text, attributes and diagnostics of the rendered HTML"),
  level="model_checking",
  technique="explicit-state reference model of the attribute environment enumerated over all sequences of assignments up to a depth; every model trace replayed against the real parser and both backends",
  level_note="excluded: an AsciiDoc cell under drop-line or warn, a list item or paragraph line whose text vanishes, a value that opens a passthrough, reassignment of an outer attribute inside an AsciiDoc cell; missing references in attribute entry values are not diagnosed"),
 dict(id="C08", title="Safe modes and the base directory confine what a document can read and learn",
  statement="Whatever a document contains, in whatever block, cell, list or included file: in secure mode nothing is read at all (an include becomes a link). A URI - also one that results from attribute references, or from imagesdir - is read only if the API (not the document) enabled allow-uri-read; a document can neither set nor unset allow-uri-read. Except in unsafe mode, the command line tool reads files only if they lie, after resolving .. and symbolic links, below the base directory: includes, inline SVGs and stylesheets; readable files are read, and their content shows, also in strict mode. In server and secure mode docdir, docfile and user-home reveal no path; the intrinsic attributes of the safe mode and of the document cannot be changed by a document. Exactly the docinfo files that docinfo selects are read, in no mode but safe, server and unsafe.",
  quantifier=dict(over="programs", text="17 ways to name something to read x 8 targets x 10 ways to allow uris x 4 modes x 4 imagesdirs; docinfo settings x directories x modes; 10 intrinsic attributes x 8 attempts x 4 modes x in/outside a cell; all paths of up to 3 (4) of 12 segments (links, files, directories, .., .) relative and absolute x 6 base directories x 4 modes x 3 ways to read, on the real command line tool and a real directory tree; strict: up to 2 (3) segments; all stylesheet paths of up to 2 (3) segments"),
  why_tests_cant="An escape takes one spelling of a path or one carrier that skips the gate; the tests check one or two of each.",
  anchors=A(["parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/directives/includes/target.rs", "cli/src/resolver.rs", "core/src/document_meta.rs", "parser/src/tasks/attr_refs.rs", "core/src/path.rs"],
    [("try_process_include_directive", "parser/src/tasks/directives/includes/process_includes.rs"), ("resolve_filepath", "cli/src/resolver.rs"), ("insert_doc_attr/insert_job_attr", "core/src/document_meta.rs"), ("set_source_file_attrs", "parser/src/tasks/attr_refs.rs")],
    "safe mode, job attributes, source stack", "requests that reach the resolver; output of the command line tool on a scratch directory tree"),
  level="model_checking",
  technique="reference model of the gates (mode x origin x permission, and path containment by the file system itself) enumerated over all combinations; every one replayed on the real parser+backends and on the real command line tool",
  level_note="images whose target begins with an attribute reference, and what linkcss would do (not implemented), are excluded"),
 dict(id="C09", title="Output is well-formed HTML, and source text is never turned into markup",
  statement="For every document that uses no raw passthrough (+++, pass macro/block, subs=), the HTML of both backends is well-formed: every element is closed in order, every attribute value is quoted and properly terminated, every & begins a character reference. No element or attribute stems from the source text, wherever it lands (titles, attribution, author lines, attribute values, alt texts, ids, macro targets, table cells, verbatim blocks): <, &, > and quotes of the text come out as the characters they are. Verbatim content is escaped completely, character references included.",
  quantifier=dict(over="programs", text="all strings of up to 3 (4) of 16 special tokens in each of 40 text positions and 12 named-attribute positions (bare and quoted); all strings of up to 3 (4) of 9 in 30 positions compared with the decoded text of the output; and the line, block, inline, char, table, attribute and header alphabets of C02"),
  why_tests_cant="Escaping is decided separately in every place that prints source text; tests look at a few of them. The enumeration found two dozen places that printed raw text.",
  anchors=A(["backend/src/html/backend.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs", "parser/src/tasks/parse_inlines/mod.rs"],
    [("visit_* of both backends", "dr-html-backend/src/asciidoctor_html.rs"), ("visit_* of both backends", "backend-html5s/src/html5s.rs"), ("special character substitution", "parser/src/tasks/parse_inlines/mod.rs")],
    "substitutions in effect, open elements", "strict parse of the rendered HTML, closed vocabulary of elements and attributes, decoded text"),
  level="model_checking",
  technique="bounded exhaustive exploration of the real parser+backends, every output decided by a strict HTML parser and an element/attribute vocabulary",
  level_note="the arrows \\<- and \\<= are excluded: an existing test pins their raw output"),
 dict(id="C10", title="Links: what is recognized, where it points, where it ends",
  statement="For every line built from urls, link macros, urls in angle brackets and email addresses, the rendered links are exactly those the AsciiDoc rules (Asciidoctor) recognize, in both backends. A url starts a link only at the start of the line, after a blank or one of <>()[]; - not inside a word. A bare url runs up to the next blank, bracket or <, and leaves trailing , . ? ! ) (and ; or :) to the text. A target followed by [..] is a macro: an empty label (or one of only a caret) shows the target (without the scheme under hide-uri-scheme) with class bare; a label shows as formatted text, escaped closing brackets included; ^ and window=_blank open a new window with rel noopener; nofollow, roles and window appear where stated. An escaped link or address, or a link macro without a target, stays text. No character of the surrounding text is lost or moved into the link.",
  quantifier=dict(over="programs", text="all sequences of up to 4 (5) of 22 url tokens in 7 contexts; all link/url macros with targets of up to 2 (3) of 13 and labels of up to 2 (3) of 12 tokens x 10 attribute forms x hide-uri-scheme; all angle-bracket urls of up to 4 (5) of 12 tokens; all addresses of up to 2 (4) + 3 (4) tokens x 11 x 8 neighbours"),
  why_tests_cant="Where a link starts and ends depends on every neighbouring character; tests show the common ones. The enumeration found a panic and eight rules that were wrong.",
  anchors=A(["parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/line.rs", "parser/src/lexer/source_lexer.rs", "parser/src/tasks/parse_attr_list.rs", "backend/src/html/htmlbuf.rs"],
    [("link arms of parse_inlines_until", "parser/src/tasks/parse_inlines/mod.rs"), ("consume_url", "parser/src/line.rs"), ("finalize_email", "parser/src/line.rs"), ("_parse_link_macro_attr_list", "parser/src/tasks/parse_attr_list.rs"), ("append_link_constraint_attrs", "backend/src/html/htmlbuf.rs")],
    "token stream of the line", "a elements (href, text, class, target, rel) and visible text of the rendered HTML"),
  level="model_checking",
  technique="reference model of the link rules (scanner over the line) enumerated over all token sequences up to depth; every model result replayed against the real parser+backends",
  level_note="excluded: lines with other syntax (replacements, index terms, entities, description list markers), a url after a quote, labels that begin with a line break, an escaped string that is no address"),
 dict(id="C11", title="Line ends do not matter",
  statement="A document renders the same with LF or CRLF line ends, with or without a newline at the end of the last line, with blank lines following the last line (unless a block is still open there), with blanks and tabs in its blank lines, and with spaces at the ends of its lines; CRLF line ends leave the diagnostics unchanged.",
  quantifier=dict(over="programs", text="all documents of up to 2 (3) of 206 lines, of up to 3 (4) of 48 directive lines, of 3..4 (5) of 15 structural lines, and of the inline, character, attribute, table and header alphabets, in up to six variants each"),
  why_tests_cant="Each construct scans for its own end; one that forgets \\r or the end of input shows only in that construct, in that position.",
  anchors=A(["parser/src/lexer/source_lexer.rs", "parser/src/parser.rs", "parser/src/tasks/parse_doc_attrs.rs", "parser/src/tasks/parse_doc_header.rs", "parser/src/tasks/table/parse_csv_table.rs"],
    [("next_token/at_delimiter_line", "parser/src/lexer/source_lexer.rs"), ("read_lines", "parser/src/parser.rs"), ("try_parse_attr_def", "parser/src/tasks/parse_doc_attrs.rs")],
    "lexer position", "HTML and diagnostics of the variants"),
  level="model_checking",
  technique="exhaustive exploration of the real parser+backend over all documents up to a depth, decided by the metamorphic relation between the line end variants",
  level_note="excluded: a wrapped attribute value at the very end of the document, a blank line continuing one, whitespace at the end of a last line without newline"),
 dict(id="C12", title="Strict parsing rejects exactly what lenient parsing warns about",
  statement="Parsing that is not strict never rejects a document. A strict parse succeeds exactly if the lenient parse of the same text reports no diagnostic, and then yields the same output; otherwise it is rejected with the first diagnostic that the lenient parse reports.",
  quantifier=dict(over="programs", text="the documents of C11"),
  why_tests_cant="Every diagnostic takes its own path through the parser, table cells and included files; tests see either mode of a few.",
  anchors=A(["parser/src/diagnostic.rs", "parser/src/parser.rs", "parser/src/tasks/diagnose_document.rs", "parser/src/tasks/table/parse_table.rs"],
    [("handle_err", "parser/src/diagnostic.rs"), ("parse", "parser/src/parser.rs"), ("diagnose_document", "parser/src/tasks/diagnose_document.rs")],
    "strict flag, collected diagnostics", "result and diagnostics of a strict and a lenient parse"),
  level="model_checking",
  technique="exhaustive exploration of the real parser over all documents up to a depth, decided by comparing the strict with the lenient run",
  level_note="same bounds as C11"),
 dict(id="C13", title="Diagnostics point at the source",
  statement="Every diagnostic names an existing file (the document or an included one) and an existing line of it, quotes exactly that line (up to trailing blanks; of the first line of an AsciiDoc cell, the part in the cell), and marks a nonempty range that lies within the line. Where lines stand, after other content or in an included file, does not change what is reported of them but for the file and the line number.",
  quantifier=dict(over="programs", text="the documents of C11"),
  why_tests_cant="Positions are carried through included files, nested cells, replaced attributes and substituted lines; each combination may lose the offset.",
  anchors=A(["parser/src/diagnostic.rs", "parser/src/lexer/root_lexer.rs", "parser/src/lexer/source_lexer.rs", "parser/src/tasks/table/parse_table.rs"],
    [("err_at/err_line", "parser/src/diagnostic.rs"), ("line_number_with_offset/line_of", "parser/src/lexer/source_lexer.rs"), ("reline_diagnostics", "parser/src/lexer/root_lexer.rs")],
    "source locations", "file, line number, quoted line and range of every diagnostic"),
  level="model_checking",
  technique="exhaustive exploration of the real parser over all documents up to a depth, every diagnostic decided against the lines of the file it names, and against the same lines at ten other places",
  level_note="columns are counted in bytes; AsciiDoc cells that contain comment lines, directives or included text and quoted CSV fields are excluded: their lines are not counted"),
 dict(id="C16", title="Every cross reference reaches its anchor with the right text",
  statement="Every id given in a document - to a section, discrete heading, block, list, table, inline anchor, formatted text, bibliography entry, in cells, list items and included files - appears exactly once in the output, and every generated section id is the prefix and the title's words joined by the separator in force there, numbered until it differs from all ids before it. A cross reference in any form, before or after its target, links to exactly that id; its text is the one given, else the target's reference text, else its title, else the bracketed id. The table of contents lists exactly the sections, in order, each with a link to its id. An unknown target and a repeated id are diagnosed, and nothing else is.",
  quantifier=dict(over="programs", text="all sequences of up to 3 of 52 constructs that define ids or change their generation, between two lists of 14 references each, with and without a table of contents; all sequences of up to 4 (6) of those that determine generated ids"),
  why_tests_cant="Whether a reference resolves depends on every construct before and after it: duplicates, generated ids that collide with explicit ones, titles with markup. Tests refer to one section at a time. The enumeration found that references to blocks never resolved.",
  anchors=A(["parser/src/tasks/parse_section.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/diagnose_document.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
    [("section_id", "parser/src/tasks/parse_section.rs"), ("register anchors", "parser/src/tasks/parse_block.rs"), ("diagnose_document", "parser/src/tasks/diagnose_document.rs"), ("enter_xref/exit_xref", "dr-html-backend/src/asciidoctor_html.rs")],
    "document anchors map", "ids, links, table of contents and diagnostics of the rendered HTML"),
  level="model_checking",
  technique="explicit-state reference model of the anchor registry enumerated over all sequences of defining constructs up to a depth; every model trace replayed against the real parser and both backends",
  level_note="excluded: references by title, ids of image macros"),
 dict(id="C17", title="Lists nest by their markers, and everything in a list belongs to one item",
  statement="For every sequence of list item lines (bullets of any depth, hyphens, dots of any depth, numbers, description terms of any delimiter), text lines, blank lines, comment lines, indented lines, list continuations and example blocks: an item joins the list whose marker it repeats, whatever was nested in between, and starts a list nested in the current item otherwise; adjoining text lines continue the item's text; a list continuation attaches the block after it to the item, or, for each blank line before it, to one item further out; indented lines after a blank line attach to the item; anything else after a blank line, and a comment line after a blank line, ends all lists. Lists within a block know nothing of the lists around it. No line is lost, repeated or moved.",
  quantifier=dict(over="programs", text="all sequences of up to 6 (7) of 8 item lines, of up to 5 (6) of 10 mixed lines, of up to 6 (8) of 6 ordered item lines, of up to 5 (6) of 8 lines of description lists, of up to 6 (8) of 7 lines with attached blocks"),
  why_tests_cant="Where an item ends depends on all markers open and on every line since; tests show a handful of nestings. The enumeration found that description texts swallowed lists, continuations after nested lists became paragraphs, literal paragraphs left the list.",
  anchors=A(["parser/src/tasks/parse_list.rs", "parser/src/list_context.rs", "parser/src/line.rs", "parser/src/contiguous_lines.rs", "parser/src/tasks/parse_inlines/mod.rs", "eval/src/eval.rs"],
    [("parse_list/parse_list_item/parse_list_continuation_blocks", "parser/src/tasks/parse_list.rs"), ("starts_nested_list/continues_current_list", "parser/src/list_context.rs"), ("list_marker", "parser/src/line.rs")],
    "stack of list markers", "structure of lists, items and blocks in the rendered HTML"),
  level="model_checking",
  technique="explicit-state reference model (stack of open markers over lines) enumerated over all sequences of lines up to a depth; every model trace replayed against the real parser and backend",
  level_note="excluded: continuations with nothing to attach or directly after another, block attribute lines between items, alphabetic and roman item markers (not implemented)"),
 dict(id="C19", title="Every table cell is in its place, with its span, alignment and style",
  statement="The cells of a table fill its rows from left to right in source order, none lost, repeated or moved: a cell starts at each separator that is not escaped, with the specification in front of it only if that is set off from the text before; a cell spanning columns or rows takes those places, a duplicated cell fills as many. The number of columns is that of the cols attribute, else of the cells on the first line. Each cell has the style and alignment of its own specification, else of its column. The first row is the header exactly if declared, or if the first line is followed by a blank line, and its cells have no style; the last row is the footer exactly if declared. The same data gives the same table in every format (prefix-separated, CSV, TSV, DSV, with any separator, nested). Column widths, frame, grid, stripes, width and alignment of the table are those of its attributes, else of the document's.",
  quantifier=dict(over="programs", text="all sequences of up to 4 (5) of 14 table tokens under each set of header/footer options and column specs, all sequences of up to 5 (6) of 12 spanning cells, all pairs (triples) of 16 column specs with 12 cell specs, every alignment and style of a column against every one of a cell, every 1x2, 2x1, 2x2, 1x3 table of 9 texts in 13 formats and 6 layouts, all table attributes"),
  why_tests_cant="Where a cell lands depends on all spans and duplications before it, and what is a cell on the characters around each separator; tests show single tables. The enumeration found over ten ways in which cells, headers and rows were misplaced or lost.",
  anchors=A(["parser/src/tasks/table/parse_table.rs", "parser/src/tasks/table/parse_psv_table.rs", "parser/src/tasks/table/parse_csv_table.rs", "parser/src/tasks/table/parse_dsv_table.rs", "parser/src/tasks/table/context.rs", "backend/src/html/table.rs"],
    [("parse_table/has_implicit_header/finish_cell", "parser/src/tasks/table/parse_table.rs"), ("parse_psv_table_row/parse_psv_table_cell", "parser/src/tasks/table/parse_psv_table.rs"), ("add_phantom_cells", "parser/src/tasks/table/context.rs"), ("open_cell/push_colgroup", "backend/src/html/table.rs")],
    "places taken by spans, pending duplicates, header state", "rows, cells, spans, classes, widths of the rendered table in both backends"),
  level="model_checking",
  technique="explicit-state reference model (cursor over a grid with taken places) enumerated over all sequences of table tokens up to a depth; every model table replayed against the real parser and both backends",
  level_note="excluded: spans beyond the table, columns of differing style after a spanning or duplicated cell, AsciiDoc cells starting with a block title, a CSV header whose first line ends within a quoted field"),
]

NOT_APPLICABLE = []
