#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Memory safety and freedom from undefined behaviour",
  "Whatever bytes are on standard input, whatever options are on the command line and whatever is in the configuration "
  "file, boxes never reads or writes outside live memory, never dereferences a null pointer and never executes C "
  "undefined behaviour. This covers drawing, removing, mending, listing, querying, and the error paths.",
  ["inputs", "configurations"],
  "all byte strings as text (including control characters, NUL, invalid UTF-8, escape sequences, wide and combining "
  "characters, over-long lines), all option combinations, all configuration files",
  "The tests run a few hundred well-formed texts without a sanitizer build; a one-byte over-read or an off-by-one in a "
  "column/character map passes them silently.",
  ["src/bxstring.c", "src/input.c", "src/tools.c", "src/generate.c", "src/remove.c", "src/detect.c", "src/unicode.c",
   "src/regulex.c", "src/boxes.c", "src/parsecode.c", "src/lexer.l"],
  [("multi-map string type keeping characters, columns and escape sequences apart", "src/bxstring.c bxs_from_unicode"),
   ("bounded line reads and tab expansion", "src/input.c read_all_input, src/tools.c expand_tabs_into"),
   ("index arithmetic on detected box parts", "src/remove.c")],
  ["ASan/UBSan reports of a run of the instrumented program"])

p("C02", "Every run terminates; status and diagnostics agree",
  "Every invocation on finite input terminates by itself with exit status 0 or 1, never by a signal and never "
  "in an endless loop (run time is bounded by the size of text, configuration and requested box), whatever the "
  "terminal and locale. Status 1 comes with an explanatory message on standard error and without drawing a box "
  "on standard output; a run that is given valid options, a valid configuration and valid text ends with status "
  "0, and a run without any input lines ends with status 0 and prints nothing.",
  ["inputs", "configurations"],
  "all texts, option lists, environments and configuration files, valid or not",
  "Tests fix about 300 invocations, most of them successful; they cannot show that no other invocation hangs, dies "
  "silently, or reports success while failing.",
  ["src/boxes.c", "src/cmdline.c", "src/generate.c", "src/parsing.c", "src/input.c", "src/remove.c"],
  [("each stage exits with failure after printing", "src/boxes.c handle_*"),
   ("side assembly loops that must reach a common multiple of the shape widths", "src/generate.c horiz_precalc, vert_precalc"),
   ("recursive matching of horizontal box lines", "src/remove.c hmm")],
  ["exit status, signal, stdout and stderr of the process"])

p("C03", "Drawing preserves the text",
  "When a box is drawn, the body of the box contains every input line exactly once, in the original order, with all of "
  "its characters in the original order; only trailing white space, tabs (which become the equivalent spaces), the "
  "leading indentation that the chosen indentation/justification mode discards, and what the design's own replacement "
  "rules change may differ. No line or character is lost, duplicated, reordered, invented or clipped, whatever the box "
  "size, padding or alignment.",
  ["inputs", "configurations"],
  "all texts (any number of lines, blank lines, Unicode, escape sequences, long lines up to the documented line length), all designs, sizes, paddings and alignments",
  "Tests compare a few hundred fixed outputs; text of other lengths, line counts and scripts is never drawn.",
  ["src/input.c", "src/generate.c", "src/bxstring.c"],
  [("line collection", "src/input.c read_all_input"), ("body assembly", "src/generate.c output_box"),
   ("unindent / cut front in characters, not bytes", "src/bxstring.c bxs_cut_front")],
  ["stdout of a drawing run compared with the input"])

p("C04", "Boxes are straight: every edge is aligned in display columns",
  "Every line of a drawn box has the same display width before trailing white space is trimmed: the left side begins at "
  "the same column on every line, the right side begins at the same column on every line, and no line extends beyond "
  "the box width. Display width counts double-width characters as two columns and combining characters and escape "
  "sequences as zero.",
  ["inputs", "configurations"],
  "all texts mixing narrow, wide, combining and escape-coded characters, all designs (multi-line, multi-shape, wide), sizes, paddings, alignments",
  "Fixed expected outputs sample only a few widths and a few non-ASCII strings; the invariant is over all mixtures of "
  "line widths and design widths.",
  ["src/generate.c", "src/bxstring.c", "src/tools.c"],
  [("column counting", "src/bxstring.c bxs_from_unicode"), ("fill strings", "src/generate.c output_box"),
   ("both horizontal sides are grown to the same length", "src/generate.c horiz_precalc")],
  ["stdout of a drawing run, measured with a column-width oracle"])

p("C05", "A box is composed exactly of the design's shapes, and no bigger than needed",
  "The border of a drawn box consists of the design's shapes only: each corner exactly once in its place, each "
  "non-elastic side shape exactly once, each elastic shape repeated contiguously, in clockwise design order, "
  "shape lines in order; where a side has two elastic shapes, they grow in turn, beginning with the first one "
  "in clockwise order. Undefined shapes are blank. Unless a size or padding asks for more, the box is the "
  "smallest one that the design can form around the text.",
  ["inputs", "configurations"],
  "all valid designs (1-3 shapes per side, one or two elastic, any shape width/height, blank sides) and all text dimensions",
  "The shipped designs are drawn once each around one text; the arithmetic that balances opposite sides depends on the "
  "text dimensions and on shape widths modulo each other.",
  ["src/generate.c", "src/shape.c", "src/parsecode.c", "src/boxes.c"],
  [("balancing of opposite sides", "src/generate.c horiz_precalc / vert_precalc"),
   ("assembly", "src/generate.c vert_assemble / horiz_assemble"),
   ("generation of undefined shapes", "src/parsecode.c action_finalize_shapes")],
  ["stdout of a drawing run compared with an executable model of the drawing rules"])

p("C06", "Requested box size is honoured",
  "With a requested width and/or height the drawn box has exactly that size whenever the text (with padding given up "
  "as needed, sides sharing the loss) fits and the design's shapes can tile it; it is never smaller than requested and never smaller than "
  "the text plus the sides. Blank sides, which are not printed, do not count towards the requested size.",
  ["inputs", "configurations"],
  "all requested sizes (width, height, both), designs, paddings and text dimensions",
  "A handful of fixed sizes are tested; the interplay of size, padding, blank sides and shape multiples is not.",
  ["src/boxes.c", "src/generate.c", "src/cmdline.c"],
  [("size adjustment", "src/boxes.c apply_expected_size"), ("padding reduction", "src/boxes.c adjust_size_and_padding")],
  ["dimensions of the box on stdout"])

p("C07", "Padding, alignment and justification place the text as specified",
  "The text block is placed in the box as documented: at least the requested (or the design's default) number of blank "
  "columns and lines on each side when no size forbids it, surplus space distributed according to horizontal (left, "
  "center, right) and vertical (top, center, bottom) alignment, and each line justified left, centered or right within "
  "the text block. Within the block, lines keep their relative indentation unless justification is requested.",
  ["inputs", "configurations"],
  "all padding values, alignment strings, justifications, sizes, designs and text shapes",
  "Tests cover individual option values with one text; off-by-one errors show only for particular parities of surplus "
  "space and line lengths.",
  ["src/generate.c", "src/boxes.c", "src/cmdline.c"],
  [("hfill/vfill split", "src/generate.c output_box"), ("justification", "src/generate.c justify_line"),
   ("padding", "src/boxes.c adjust_size_and_padding")],
  ["position of the text in the box on stdout"])

p("C08", "Removing a box restores the boxed text",
  "Drawing a box around a text with some design and then removing it with the same design and options gives "
  "back the original text, including its indentation, interior blank lines and characters, apart from trailing "
  "white space and from leading/trailing blank lines that blank-line removal drops. This holds regardless of "
  "the box's size, padding and position, for left-aligned text that does not itself look like part of the box "
  "(it has no characters of the border in it), when the box was not forced to a size that makes it give up "
  "padding.",
  ["inputs", "configurations"],
  "all texts that do not themselves look like the design's border, all round-trippable designs, sizes, paddings, indentation, colours",
  "The sunny-day tests remove one box per design; other text widths, heights, scripts and sizes are never removed.",
  ["src/remove.c", "src/detect.c", "src/bxstring.c"],
  [("search for top/bottom lines", "src/remove.c match_horiz_line"), ("search for vertical shapes", "src/remove.c match_vertical_side"),
   ("cutting and re-indenting", "src/remove.c apply_results_to_input")],
  ["stdout of draw piped into remove"])

p("C09", "Mending a box equals removing it and drawing it again",
  "Mending an intact box with the options it was drawn with (a requested size leaving room for the padding) "
  "reproduces it unchanged, and mending is idempotent. After the text inside a box has been edited so that its "
  "right edge is no longer straight, mending gives exactly the box that would have been drawn around the edited "
  "text.",
  ["inputs", "configurations", "histories"],
  "all texts, all round-trippable designs, sizes, paddings, and sequences of edits of body lines",
  "Tests mend one damaged box per design; size, padding and indentation interplay across the two passes is not sampled.",
  ["src/boxes.c", "src/remove.c", "src/generate.c"],
  [("two-pass loop", "src/boxes.c main"), ("padding kept between passes", "src/boxes.c adjust_size_and_padding"),
   ("blank line handling", "src/remove.c killblank")],
  ["stdout of mend runs"])

p("C10", "Removal without a design detects the box's design",
  "When a box is removed or mended without naming a design, and exactly one design in the configuration matches the box "
  "(no other design shares its shapes), boxes removes it exactly as if that design had been named, independent of the "
  "order of the designs in the configuration; if no design matches at all, boxes fails with a diagnostic and prints no text.",
  ["inputs", "configurations"],
  "all texts and all configurations whose designs have pairwise distinct shapes, in any order",
  "Tests autodetect a few fixed boxes against the stock configuration.",
  ["src/detect.c", "src/remove.c", "src/parsecode.c"],
  [("hit counting", "src/detect.c match_design"), ("best design wins", "src/detect.c autodetect_design"),
   ("full parse when removing without -d", "src/parsecode.c full_parse_required")],
  ["stdout of remove with and without naming the design"])

p("C11", "Replacement and reversion rules rewrite exactly the text they match",
  "When a box is drawn, the design's replacement rules are applied to each line of text, in the order in which they are defined, each "
  "either to all matches or only to the first one as specified, and on removal the reversion rules are applied "
  "likewise; the box is sized for the rewritten text. Results agree with a standard "
  "regular-expression substitution, for any length of the result, and nothing but the matched text changes.",
  ["inputs", "configurations"],
  "all texts and rule lists (several rules, groups, empty matches, growing and shrinking replacements, global and once)",
  "The tests use the few rules of the stock configuration on short lines.",
  ["src/input.c", "src/regulex.c", "src/parsecode.c"],
  [("rule loop", "src/input.c apply_substitutions"), ("substitution with growing buffer", "src/regulex.c u32_regex_replace")],
  ["stdout of draw and remove, compared with an independent regex engine"])

p("C12", "Indentation goes where the indentation mode says",
  "The common leading indentation of the text is put in front of the whole box (mode box), kept inside of the box (mode "
  "text) or dropped (mode none), and relative indentation between lines is kept in every mode. Blank lines do not "
  "count towards the common indentation; on removal, the box's own indentation is restored in mode box and dropped in the other modes.",
  ["inputs", "configurations"],
  "all indentation patterns of lines, including blank lines and tabs, for all designs and modes, for drawing and removal",
  "A handful of fixed texts with one indentation each.",
  ["src/input.c", "src/generate.c", "src/remove.c"],
  [("common indent", "src/input.c get_indent"), ("unindent", "src/input.c analyze_input"),
   ("prefix", "src/generate.c output_box")],
  ["stdout of draw and remove"])

p("C13", "Tab handling never shifts text",
  "Tabs in the input are expanded to the configured tab stops, so that text with tabs is drawn exactly like the "
  "same text with the tabs expanded. Whatever the tab mode (expand, keep, unexpand), the output rendered at the "
  "same tab stops looks the same; with 'unexpand' the indentation put in front of the box, or restored by a "
  "removal, is made of as many tabs as possible, and with 'keep' leading tabs of the input reappear where they "
  "were.",
  ["inputs", "configurations"],
  "all placements of tabs and spaces in lines, tab distances 1..16, modes e/k/u, drawing and removal, all indentation modes",
  "Tests have a few fixed texts at distance 4 and 8.",
  ["src/tools.c", "src/generate.c", "src/remove.c", "src/cmdline.c"],
  [("expansion", "src/tools.c expand_tabs_into"), ("tab reconstruction", "src/tools.c tabbify_indent")],
  ["stdout rendered at the tab stops"])

p("C14", "Line endings",
  "Every output line ends in the line terminator that was requested (default LF) and no other terminator appears, "
  "whether the input uses LF or CRLF; the last line ends in one if and only if the last input line did. CRLF input is "
  "drawn and removed exactly like LF input.",
  ["inputs", "configurations"],
  "all texts, both input conventions, mixed conventions, with and without final newline, all -e values, draw/remove/mend/list/query",
  "Tests check a single short text per terminator.",
  ["src/input.c", "src/generate.c", "src/remove.c", "src/list.c", "src/cmdline.c"],
  [("final newline flag", "src/input.c has_linebreak"), ("trailing newline stripping", "src/input.c trim_trailing_ws_carefully"),
   ("eol option", "src/cmdline.c eol_override")],
  ["bytes of stdout"])

p("C15", "Character encodings are honoured end to end",
  "Text given in the selected character encoding is interpreted, measured and written back in that encoding: "
  "running boxes in encoding E on text encoded in E gives the E-encoding of what a UTF-8 run gives on the same "
  "text. Characters that the encoding cannot represent appear as question marks (or as a replacement character "
  "of the same width) without disturbing the alignment, and so do bytes of the input that are not valid in the "
  "encoding; an unknown encoding name is diagnosed and replaced by the system encoding.",
  ["inputs", "configurations"],
  "all stateless encodings known to iconv, all texts representable in them, draw and remove",
  "Tests use three encodings with one string each.",
  ["src/unicode.c", "src/input.c", "src/boxes.c"],
  [("conversion", "src/unicode.c u32_strconv_from_input / u32_strconv_to_output"), ("fallback", "src/unicode.c check_encoding")],
  ["stdout under different encodings, converted by an independent iconv"])

p("C16", "Colour affects only escape sequences",
  "With colour output on, the text's and the design's ANSI escape sequences are passed through; with colour "
  "off, the output is exactly the colour output with all ANSI escape sequences left out. (Sequences that belong "
  "to trailing blanks or to indentation that is discarded go away with them.) Escape sequences never influence "
  "size or layout: colouring the text gives the same box as the plain text, and a colour-drawn box can be "
  "removed like a monochrome one.",
  ["inputs", "configurations"],
  "all texts with escape sequences at any position (CSI, two-byte, consecutive, at line start/end), mono and coloured designs, draw/remove/mend",
  "Tests contain a few dozen fixed coloured samples.",
  ["src/bxstring.c", "src/unicode.c", "src/generate.c", "src/remove.c", "src/tools.c", "src/boxes.c"],
  [("escape sequence scanner", "src/unicode.c advance_next32"), ("filtering", "src/bxstring.c bxs_filter_visible"),
   ("four comparison modes", "src/detect.c comp_type_is_viable")],
  ["stdout with --color and --no-color"])

p("C17", "Configuration files: valid designs are taken as written, bad ones are reported",
  "Every well-formed design in a configuration file is available with exactly the name, aliases, tags, shapes, elastic "
  "shapes, padding, indentation, rules, sample and credits it was written with, whatever the layout, comments, key order, letter case or string delimiters. An ill-formed "
  "design is reported on standard error with file name and line and skipped, without affecting the designs before and "
  "after it.",
  ["inputs", "configurations"],
  "all configuration files generated from the documented syntax, with any single documented rule violated in any design at any position",
  "The tests contain some thirty fixed broken configurations; combinations of position, layout and kind of error are not covered.",
  ["src/lexer.l", "src/parser.y", "src/parsecode.c", "src/parsing.c"],
  [("grammar with error recovery", "src/parser.y"), ("semantic checks", "src/parsecode.c"), ("string delimiters", "src/lexer.l")],
  ["design details (-l -d), lists, drawn boxes and diagnostics"])

p("C18", "Parent configurations are inherited, children win, cycles are harmless",
  "A configuration file that names parent configurations offers the union of its own designs and those of all "
  "its ancestors. If a design name occurs several times, the definition closest to the child is used (of "
  "several parents on the same level, the last one named wins), and an alias already taken by a child is "
  "dropped from the ancestor's design; parent graphs with duplicates or cycles load each file once and "
  "terminate, and a missing parent is diagnosed.",
  ["configurations"],
  "all finite parent graphs (chains, diamonds, cycles, several parents per file) and all assignments of designs and aliases to files",
  "Tests cover a handful of two- and three-file setups.",
  ["src/parsing.c", "src/parsecode.c"],
  [("worklist of parents", "src/parsing.c parse_config_files"), ("precedence", "src/parsing.c copy_designs"),
   ("alias dropping", "src/parsecode.c action_add_alias")],
  ["lists, design details and drawn boxes"])

p("C19", "The configuration file is found by the documented precedence",
  "The configuration that is used is the first hit of the documented search order: the -f option, the BOXES environment "
  "variable, then the user's and the system's locations; in directories, the documented file names are tried in order. "
  "A location given by -f or BOXES that does not exist or holds no configuration is an error, never a silent fallback; "
  "unreadable or missing automatic locations are skipped.",
  ["configurations"],
  "all combinations of presence/absence of every candidate location and file name, and values of -f, BOXES, HOME, XDG_CONFIG_HOME",
  "Tests cover a few locations in isolation; the precedence between locations is a property of all subsets.",
  ["src/discovery.c"],
  [("ordered locations", "src/discovery.c discover_config_file"), ("directory probing", "src/discovery.c")],
  ["which marker design is drawn/listed"])

p("C20", "Tag queries select exactly the matching designs",
  "A tag query lists a design exactly if the design has all tags marked '+', none of the tags marked '-', and, "
  "if no tag is marked '+', at least one of the unmarked tags (a query of only '-' tags, and the special tag "
  "'(all)', start from all designs). Tags are compared without regard to case. Names are printed in "
  "alphabetical order, each once and followed by its aliases; malformed queries are rejected.",
  ["inputs", "configurations"],
  "all queries over all tag sets of all configurations",
  "A dozen fixed queries on a fixed configuration.",
  ["src/query.c", "src/list.c", "src/tools.c"],
  [("query parser", "src/query.c parse_query"), ("filter", "src/query.c filter_by_tag")],
  ["stdout of -q"])

p("C21", "Listings are complete, sorted and agree with the configuration",
  "The list of designs shows every available design exactly once, in alphabetical order regardless of case, with all its "
  "aliases, its credits and its sample verbatim, together with the correct number of designs, the configuration files "
  "used, and for every tag the number of designs carrying it. The details of a design show what "
  "its definition says.",
  ["inputs", "configurations"],
  "all configurations with any number of designs, aliases, tags, credits and samples",
  "Tests list a few fixed configurations.",
  ["src/list.c", "src/parsing.c"],
  [("sorting", "src/list.c sort_designs_by_name"), ("tag statistics", "src/list.c count_tag"), ("details", "src/list.c print_design_details")],
  ["stdout of -l"])

p("C22", "Command line: valid options are accepted in any form, invalid ones are rejected",
  "Short and long forms of an option are equivalent, options may come in any order, repeated settings behave as "
  "documented (the last one wins; for blank-line handling with -k and --no-kill-blank the first one), and "
  "argument formats are accepted exactly as documented. Every other argument is rejected with a message and "
  "status 1 before any output is produced.",
  ["inputs"],
  "all option lists made of documented options with valid and invalid arguments, in all orders",
  "Unit tests check individual argument strings; equivalence over orders and forms is not covered.",
  ["src/cmdline.c", "src/query.c"],
  [("option loop", "src/cmdline.c process_commandline"), ("argument parsers", "src/cmdline.c")],
  ["stdout, stderr and status of equivalent invocations"])

p("C23", "Files and pipes are equivalent, and I/O failures are reported",
  "Reading from a named input file and writing to a named output file gives the same bytes as using standard input and "
  "output, whatever the chunking of the input. The output file holds exactly the new result, and the input file is never modified. "
  "If input cannot be read or output cannot be written completely, boxes reports it and exits with status 1.",
  ["inputs", "fault_sequences"],
  "all texts, all placements of '-', pipes delivering any chunk sizes, read errors at any point and write errors (full device, closed pipe) at any point",
  "No test injects an I/O error; each file variant is tested with one text.",
  ["src/cmdline.c", "src/input.c", "src/generate.c", "src/remove.c", "src/boxes.c"],
  [("stream selection", "src/cmdline.c input_output_files"), ("read error check", "src/input.c read_all_input")],
  ["output bytes, input file bytes, status, stderr under injected faults"])

p("C24", "Debug logging never changes the result",
  "Turning on debug logging for any set of log areas changes neither standard output nor the exit status of any run, "
  "nor does it cause a crash; log output goes to standard error only. With logging off, a successful run of a valid "
  "configuration and text prints nothing on standard error.",
  ["inputs", "configurations"],
  "all subsets of log areas, all operations (draw, remove, mend, autodetect, list, query), all texts and configurations",
  "Few tests enable logging, on fixed text.",
  ["src/logging.c", "src/cmdline.c", "src/generate.c", "src/remove.c", "src/detect.c", "src/tools.c"],
  [("guarded log statements", "src/logging.c log_debug")],
  ["stdout, status and stderr with and without -x debug"])

p("C25", "Output is a function of text, options and configuration only",
  "Two runs with the same text, options and configuration produce identical output bytes and status, regardless of "
  "memory layout, contents of uninitialised or freed memory, unrelated environment variables, the current directory, or the time. Nothing but "
  "the designated output is written.",
  ["inputs", "configurations", "schedules"],
  "all inputs and operations, under perturbed allocator contents, randomised address space, different environment and input chunking",
  "Each test runs once in one environment; reads of uninitialised memory usually see zeros there.",
  ["src/boxes.c", "src/parsing.c", "src/parsecode.c", "src/bxstring.c", "src/remove.c"],
  [("explicit initialisation of all records", "calloc/memset throughout src")],
  ["stdout and status across perturbed runs; valgrind memcheck"])

p("C26", "The string type's measurements are always consistent",
  "For every string, the library's counts of characters, visible characters, invisible characters, display columns, "
  "indentation and trailing blanks, and its maps from visible positions to characters, agree with the text itself, and they stay so "
  "after every string operation (copy, concatenate, cut, trim, pad, substring, filter). Each operation returns the text "
  "that its documentation promises, for every argument in its domain, and leaves its arguments unchanged unless documented otherwise.",
  ["inputs", "histories"],
  "all strings over ASCII, blanks, tabs, wide, combining characters and escape sequences; all sequences of operations on them",
  "Unit tests cover a few hand-picked strings per function; consistency after chains of operations is not checked.",
  ["src/bxstring.c", "src/bxstring.h", "src/unicode.c", "src/tools.c"],
  [("construction", "src/bxstring.c bxs_from_unicode"), ("in-place padding", "src/bxstring.c bxs_append_spaces"),
   ("map-preserving prepend", "src/bxstring.c bxs_prepend_spaces")],
  ["fields of the string record after each operation, in-process"],
  state=[("string record", "text plus counts and index maps", "src/bxstring.h")])

p("C27", "A design given on the command line draws that string in front of each line",
  "Drawing with a design created on the command line puts the given string, unchanged, at the left of every text line, "
  "separated by one blank column by default, and adds nothing else: no line above, below or to the right. Any non-empty string of visible "
  "text can be used, including multi-byte characters, and the design can be removed or mended like any other.",
  ["inputs"],
  "all strings of displayable characters as the design, all texts, with padding, alignment and size options",
  "Tests use a few short ASCII strings.",
  ["src/boxes.c"],
  [("one-shape design", "src/boxes.c build_design")],
  ["stdout of runs with -c"])

p("C28", "Removal takes away only box parts, never text",
  "Removing a box from any text, whether it contains a complete, damaged or no box of that design, never "
  "changes, reorders or invents text: every output line is an input line from which only border shapes of the "
  "design (whole or in part), blanks and padding have been cut at its ends, and every dropped line is a border "
  "line or blank. Blank lines at the top and bottom of the body are kept if blank-line removal is off, except "
  "for as many as the design's padding accounts for.",
  ["inputs", "configurations"],
  "all texts including boxes with missing sides, shifted lines, and text resembling border parts, for all designs and blank-line settings",
  "Tests remove intact boxes and a few damaged ones.",
  ["src/remove.c", "src/detect.c"],
  [("outer shape matching", "src/remove.c match_outer_shape"), ("cut positions", "src/remove.c calculate_start_idx / calculate_end_idx"),
   ("blank line removal", "src/remove.c killblank")],
  ["stdout of remove compared line by line with its input"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
