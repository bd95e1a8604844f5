#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


TEXT = "text free of double quotes, backslashes, line breaks and control characters"

prop("C01", "A footprint written out and read back is unchanged, field by field",
     "For every footprint made of the supported items (texts, pads, lines, polygons, circles, arcs, 3D models, and the "
     "single-value entries) with finite numbers, non-negative sizes and " + TEXT + ", writing it and reading the result back "
     "yields the same name and the same items in the same order, every field equal. Optional parts that were absent stay "
     "absent and present ones keep their value; nothing is duplicated, reordered or replaced by a default. "
     "A footprint file in KiCad's own spelling and order of parts is read to the values written in it.",
     ["inputs"], "every footprint value in the supported item set, any nesting of optional parts, any item order and count; every KiCad spelling of it",
     "the suite parses a handful of fixed strings and two sample files; no test compares every field after a write/read cycle, and the equality the crate offers ignores fields (layer side, pad net, text contents)",
     ["src/footprint/ser.rs", "src/footprint/de.rs", "src/footprint/data.rs", "src/footprint/mod.rs"],
     [("writer of each footprint item", "src/footprint/ser.rs"), ("reader of each footprint item", "src/footprint/de.rs")],
     ["footprint::module_to_string", "footprint::parse", "public fields of footprint::*"])

prop("C02", "Footprint, board and library-table text has KiCad's exact line layout",
     "The text written for a footprint, board or footprint-library table is exactly the s-expression of its content with line "
     "breaks and two-space indentation where KiCad puts them (one item per line, nested blocks, wrapped point lists, blank lines "
     "between board sections), at any starting indentation. Between two tokens only spaces and line breaks are ever inserted, "
     "tokens that need quoting are quoted, and nothing else of the content is added or lost. "
     "Writing what was read from such text gives the same bytes again.",
     ["inputs"], "every document of the three kinds, every starting indentation, every length of point list and sequence of sections",
     "line layout depends on the whole path of enclosing lists, a running point count and on which sections were seen before; the suite compares a few fixed files only",
     ["src/formatter.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/fp_lib_table.rs"],
     [("layout rules by parent and item name", "src/formatter.rs: want_indent_*"), ("indent, blank line and wrap bookkeeping", "src/formatter.rs: open/element/close")],
     ["footprint::module_to_string", "layout::layout_to_string", "fp_lib_table::to_string"],
     state=[("indent", "current depth of indented blocks", "src/formatter.rs"), ("path", "names of the enclosing lists", "src/formatter.rs"),
            ("points", "points seen in the current list", "src/formatter.rs"), ("seen module/segment", "section separators already due or written", "src/formatter.rs")])

prop("C03", "A board written out and read back is unchanged, field by field",
     "For every board (general data, page, layers, setup, nets, net classes, footprints, drawings, dimensions, zones, tracks, vias) "
     "with finite numbers, non-negative sizes and " + TEXT + ", writing it and reading the result back yields the same board: same items in the same order, every "
     "field equal, absent optional parts absent. Sections the library does not know are kept word for word in their place. "
     "A board in KiCad's own spelling and order of parts is read to the values written in it.",
     ["inputs"], "every board value, any order and count of items, any combination of optional parts, any unknown section",
     "the two board tests compare sample files as text; most optional parts and orders never occur in them",
     ["src/layout/ser.rs", "src/layout/de.rs", "src/layout/data.rs"],
     [("writer of each board item", "src/layout/ser.rs"), ("reader of each board item", "src/layout/de.rs"), ("unknown sections", "src/layout/de.rs: Element fallback, src/layout/ser.rs: Other")],
     ["layout::layout_to_string", "layout::parse", "public fields of layout::*"])

prop("C04", "Malformed footprint, board or table text is refused, never a crash",
     "Reading arbitrary text as a footprint, board or footprint-library table always returns, either with a value or with an error; it never panics. "
     "Text with unbalanced parentheses, an unterminated quoted word, an unrecognised or missing required part, "
     "or a word where a number is required, is an error and not a silently altered document.",
     ["inputs"], "every text; in particular every valid document with any word or list dropped, duplicated, replaced or cut at any byte",
     "the suite only reads well-formed documents; the number of ways to damage one is unbounded",
     ["src/footprint/de.rs", "src/layout/de.rs", "src/fp_lib_table.rs"],
     [("per-item readers with required and optional parts", "src/footprint/de.rs, src/layout/de.rs, src/fp_lib_table.rs")],
     ["footprint::parse", "layout::parse", "fp_lib_table::parse: Ok/Err/panic and the value"])

prop("C05", "A schematic written out and read back is unchanged",
     "For every schematic (libraries, description, components with units and fields, wires, junctions, no-connects, labels, sheets with pins, other lines) "
     "writing it and reading the result back yields the same content: the items and the sheets each in the same order, every field equal, unknown and blank top-level lines kept word for word (fields 0 to 3 carry their standard names, which the format does not write). "
     "The text written follows the KiCad 4 schematic line format, and writing again what was read gives the same bytes.",
     ["inputs"], "every schematic in the representable domain, any item order and count, any combination of optional lines",
     "the test compares one sample schematic; optional parts, negative and wide numbers, several units and unusual fields do not occur in it",
     ["src/schematic.rs"],
     [("line writers", "src/schematic.rs: Display impls"), ("line readers", "src/schematic.rs: parse_*")],
     ["schematic::parse_str", "Display of Schematic", "public fields of schematic::*"])

prop("C06", "A symbol library written out and read back is unchanged",
     "For every symbol library (symbols with fields, aliases, pins, rectangles and other drawing lines) writing it and reading the result back yields the same "
     "symbols in the same order with every field equal, and drawing lines of other kinds kept word for word (fields 0 to 3 carry their standard names, which the format does not write). "
     "The text written follows the KiCad 4 symbol library line format, and writing again what was read gives the same bytes.",
     ["inputs"], "every symbol library in the representable domain",
     "the tests parse one small library and look at a few fields",
     ["src/symbol_lib.rs"],
     [("line writers", "src/symbol_lib.rs: Display impls"), ("line readers", "src/symbol_lib.rs: parse_*")],
     ["symbol_lib::parse_str", "Display of SymbolLib", "public fields of symbol_lib::*"])

prop("C07", "Damaged or truncated schematic and symbol text is refused, never a crash",
     "Reading arbitrary text as a schematic or symbol library always returns, either with a value or with an error; it never panics or runs forever. "
     "A file cut off before a block is closed, a line with too few words, a word where a number is required, or an unknown code letter, is an error "
     "and not a silently altered document. Only lines of a component or sheet that start with an unknown word are passed over.",
     ["inputs"], "every text; in particular every valid file cut after any line, or with any line or word dropped, duplicated or replaced",
     "the suite only reads well-formed files",
     ["src/schematic.rs", "src/symbol_lib.rs"],
     [("line cursor", "src/schematic.rs and src/symbol_lib.rs: ParseState"), ("word and number readers", "src/schematic.rs: parse_*, src/symbol_lib.rs: parse_*")],
     ["schematic::parse_str", "symbol_lib::parse_str: Ok/Err/panic and the value"])

prop("C08", "Footprint-library tables survive write and read; addresses expand correctly",
     "A table of libraries written out and read back gives the same libraries in the same order with name, type, address, options and description unchanged. "
     "Expanding an address replaces the home shorthand and every environment variable reference by its value, leaves other text as it is, "
     "and fails when a referenced variable is not set.",
     ["inputs", "configurations"], "every table content and every environment",
     "the test reads one table in one environment",
     ["src/fp_lib_table.rs"],
     [("table reader and writer", "src/fp_lib_table.rs"), ("address expansion", "src/fp_lib_table.rs: get_expanded_uri")],
     ["fp_lib_table::parse", "fp_lib_table::to_string", "Lib::get_expanded_uri"])

prop("C09", "A file's kind is identified from its content, and a wrong kind is an error",
     "Reading a file with no expectation reports the kind its content has (footprint, schematic, board, symbol library, project, library table) "
     "or that it is unknown, with the content. Reading it as one particular kind succeeds exactly when it has that kind, "
     "and otherwise fails; a missing or unreadable file is an error.",
     ["inputs", "configurations"], "every file content crossed with every expected kind",
     "the suite never reads a file of one kind as another",
     ["src/lib.rs", "src/project.rs"],
     [("trial of the readers in turn", "src/lib.rs: read_kicad_file"), ("per-kind entry points", "src/lib.rs: read_module, read_schematic, read_layout, read_symbol_lib, read_project, read_fp_lib_table")],
     ["read_kicad_file and read_* results"])

prop("C10", "Renaming nets on a board keeps all references to nets consistent",
     "Renaming a net on a board changes that name in the net list, in every net class membership, in every pad and in every zone that uses it, and nothing else. "
     "A bulk renaming applies the given rule to each net name wherever it is used, so two places that named the same net still name the same net, "
     "and an error from the rule is reported. Moving nets from one hierarchical block name to another rewrites exactly the matching path parts.",
     ["inputs", "histories"], "every board, every pair of names and renaming rule, every sequence of renamings",
     "no test renames nets; consistency ties four separate places of a board together",
     ["src/layout/data.rs", "src/footprint/data.rs"],
     [("single rename", "src/layout/data.rs: change_net_name"), ("bulk rename", "src/layout/data.rs: update_net_names"), ("footprint pad nets", "src/footprint/data.rs: rename_net"), ("net name helpers", "src/layout/data.rs: NetName")],
     ["board fields before and after"],
     state=[("net names in use", "net list, net class members, pad nets, zone nets", "src/layout/data.rs, src/footprint/data.rs")])

prop("C11", "Moving a board shifts every absolute coordinate by the same amount",
     "Moving a board (or one of its items) by an offset adds that offset to every absolute coordinate in it (footprint positions, drawing, dimension, track, via and zone "
     "points, text positions) and changes nothing else; coordinates relative to a footprint and sections the library does not know stay. "
     "Moving by an offset and then by its opposite restores the item, and two moves add up.",
     ["inputs", "histories"], "every item kind, every board, every sequence of offsets",
     "no test moves anything",
     ["src/layout/data.rs", "src/footprint/data.rs"],
     [("per-item moves", "src/layout/data.rs, src/footprint/data.rs: Adjust impls, adjust_at")],
     ["item fields before and after"])

prop("C12", "A bounding box is ordered and covers exactly the extent of its item",
     "The box of an item has its smaller corner first and spans exactly the item's geometry (lines, tracks and arcs by their end points, polygons by their points, circles by centre and radius, pads by their size at any quarter turn, vias by their diameter, texts by their position), "
     "a footprint its position, pads and fabrication outline moved to that position, a board or schematic the union of its items, independent of the order in which end points or items are given. "
     "Merging boxes gives the smallest box containing both, with an empty box as neutral element.",
     ["inputs"], "every item kind with any end point order, sign and nesting",
     "two tests look at the box of one footprint each",
     ["src/lib.rs", "src/footprint/data.rs", "src/layout/data.rs", "src/schematic.rs"],
     [("box union", "src/lib.rs: Bound"), ("per-item boxes", "src/footprint/data.rs, src/layout/data.rs, src/schematic.rs: BoundingBox impls")],
     ["bounding_box results"])

prop("C13", "Flipping a footprint mirrors it; flipping twice and full turns restore it",
     "Flipping a footprint or one of its items to the other board side negates the vertical coordinate of every position and outline point, reverses the rotation of every position, swaps front and back on every layer that has a side, "
     "toggles text mirroring, and changes nothing else. Rotating adds the angle to the rotation of position, texts and pads, kept within one turn. "
     "Flipping twice, or rotations adding up to a full turn, give back the same footprint up to whole turns.",
     ["inputs", "histories"], "every footprint and item, every sequence of flips and quarter or arbitrary turns within one revolution",
     "no test flips or rotates anything",
     ["src/footprint/data.rs"],
     [("flip and rotate per item", "src/footprint/data.rs: Flip and Rotate impls")],
     ["item fields before and after"])

prop("C14", "Editing component fields touches only what was asked, over any edit history",
     "After any sequence of edits to a component's fields (set reference, set name, change a field, add or update a named field) each field holds the last value given to it, "
     "fields not addressed keep value, position and format, no field is duplicated, a new field gets a fresh number and is hidden at the position of its template, and each edit reports truthfully "
     "whether it added, changed or left the field. Looking a field up by name or as a whole table gives the current values.",
     ["histories", "inputs"], "every initial component and every finite sequence of edits and look-ups",
     "the outcome depends on which fields exist already and on earlier edits; no test performs a second edit",
     ["src/schematic.rs"],
     [("field edits", "src/schematic.rs: update_reference, update_name, update_field, add_or_update_field, add_new_field"), ("field look-up", "src/schematic.rs: get_field, get_field_value, fields_hash, get_available_field_num")],
     ["component fields and return values after each edit"],
     state=[("fields", "numbered, named values of a component", "src/schematic.rs: Component.fields")])

prop("C15", "Collecting and finding components covers every sheet of a hierarchy once",
     "Collecting the components of a schematic with sub-sheets gives every component of every sheet, the top sheet first and each sub-sheet in order, depth first, each use of a sheet once. "
     "Finding a component by its reference gives the first match in that order, in sub-sheets too, and an error when there is none; a sub-sheet that cannot be read is an error. "
     "Changing components by reference affects only the first match in the given schematic, and changing all affects each one once.",
     ["inputs", "histories"], "every acyclic tree of sheet files with any placement of components",
     "no test has a sub-sheet",
     ["src/schematic.rs"],
     [("recursive collection and look-up", "src/schematic.rs: all_components, component_by_reference"), ("sheet file resolution", "src/schematic.rs: filename_for_sheet, parse_file_for_sheet"), ("component changes", "src/schematic.rs: modify_component, modify_components")],
     ["results and errors on a directory of sheet files"])

prop("C16", "The footprint convention check reports exactly the rules that are broken",
     "Checking a footprint against the library convention reports, for the reference, value and second reference texts, the courtyard and the placement attribute, one finding for each "
     "rule that is broken and none for a rule that is kept, with its section, rule number, subject and message. "
     "Size and thickness findings are informational, the others are not, and the findings depend only on the content of the footprint.",
     ["inputs"], "every combination of texts, layers, visibility, font sizes, courtyard lines, pad types and attributes",
     "no test runs the check; rules interact through first matches and counts",
     ["src/footprint/data.rs", "src/checkfix.rs"],
     [("footprint rules", "src/footprint/data.rs: CheckFix for Module"), ("findings", "src/checkfix.rs")],
     ["check results"])

prop("C17", "The footprint convention fix repairs what the check reports and nothing else",
     "After fixing a footprint that has a reference and a value text, the check reports nothing that fixing addresses (text content, layer kind, visibility and size, missing second reference, missing courtyard, missing "
     "surface-mount attribute). Fixing changes only the offending parts and appends only missing parts, a courtyard rectangle enclosing the outline and pads with the convention's clearance; all other items keep their value and order. "
     "Fixing again changes nothing.",
     ["inputs", "histories"], "every footprint, any number of repeated fixes",
     "no test runs the fix",
     ["src/footprint/data.rs", "src/checkfix.rs"],
     [("footprint fixes", "src/footprint/data.rs: CheckFix::fix for Module"), ("outline box", "src/footprint/data.rs: BoundingBox for Module")],
     ["footprint fields and check results before and after"])

prop("C18", "The symbol convention check reports exactly the rules that are broken",
     "Checking a symbol reports one finding for each rule it breaks and none for a rule it keeps: characters allowed in its name, size and visibility of its fields, "
     "grid, length, text sizes and kind and visibility of its pins (a pin whose name contains NC is to be of the unconnected kind, and exactly pins of that kind are to be invisible), fill and line width of its rectangles; power and graphic symbols are exempt from the drawing rules. "
     "Each finding carries its section, rule number, subject and message.",
     ["inputs"], "every symbol name, field, pin and rectangle",
     "no test runs the check",
     ["src/symbol_lib.rs", "src/checkfix.rs"],
     [("symbol rules", "src/symbol_lib.rs: CheckFix impls"), ("name characters", "src/checkfix.rs: allowed_1_7")],
     ["check results"])

prop("C19", "Board look-ups and edits act on exactly the addressed item",
     "After any sequence of board edits (add a net or net class, change a footprint found by its reference, set a setup entry) the addressed item is changed or appended, every other item keeps its value and place, "
     "and an edit of something absent is reported as an error or has no effect. "
     "Look-ups (nets, net classes, footprints by reference, setup entries, net class membership) give exactly the items present.",
     ["histories", "inputs"], "every board and every finite sequence of edits and look-ups",
     "no test edits a board",
     ["src/layout/data.rs", "src/footprint/data.rs"],
     [("board edits", "src/layout/data.rs: add_net, add_netclass, modify_module, Setup::update_element"), ("board look-ups", "src/layout/data.rs: nets, netclasses, modules, get_module, Setup::get, NetClass::has_net")],
     ["board fields and results after each call"],
     state=[("elements", "ordered items of a board", "src/layout/data.rs: Layout.elements")])

prop("C20", "A written file holds exactly the document, whatever it held before",
     "Writing a document to a file leaves the file with exactly the document's text, whatever the file held before and however long it was, and reading the file gives that document. "
     "After any sequence of writes to several files each file holds the last document written to it; a failed write is reported as an error.",
     ["histories", "inputs"], "every sequence of writes of documents of different kinds and lengths over a set of files",
     "the tests never write a file",
     ["src/util.rs", "src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs"],
     [("file write", "src/util.rs: write_file"), ("file read", "src/util.rs: read_file"), ("document writers", "src/lib.rs: write_layout, write_module")],
     ["file bytes, read results"])

prop("C21", "Quoted words in schematic and symbol lines are split exactly",
     "In the line formats a word in double quotes is one word, with its spaces and without its quotes, also when it is empty; other words end at a space and runs of spaces count as one. "
     "Further words on a line that needs only the first few are not looked at. "
     "Values with spaces, empty values and any other character except quotes and line breaks therefore arrive unchanged.",
     ["inputs"], "every line up to a length, every placement of quotes and spaces, every required number of words",
     "the tests use three fixed lines",
     ["src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs"],
     [("splitter", "src/lib.rs: parse_split_quote_aware"), ("users", "src/schematic.rs: fields, sheet labels; src/symbol_lib.rs: fields")],
     ["values of fields read from lines"])

prop("C22", "References order by first letter and then by number",
     "Ordering by reference sorts by the first character and then by the number in the reference, so that U2 comes before U10, and a list of references orders by its first one. "
     "A reference without a number orders before those with a positive number of the same letter, and the key depends on the reference text only.",
     ["inputs"], "every non-empty reference text",
     "no test calls it on a set of references",
     ["src/lib.rs"],
     [("ordering key", "src/lib.rs: reference_ord")],
     ["reference_ord results and sorted order"])

prop("C23", "Footprint look-ups and edits act on exactly the addressed item",
     "After any sequence of footprint edits (set the reference, move, rename a pad net, append items) only the addressed items change and all others keep value and order. "
     "Look-ups (reference, texts by kind, position, rotation, side, time stamps, pads, lines, surface-mount attribute) give the first matching item's current value, or absence.",
     ["histories", "inputs"], "every footprint and every finite sequence of edits and look-ups",
     "the tests read a few fields of fixed footprints",
     ["src/footprint/data.rs"],
     [("footprint edits", "src/footprint/data.rs: set_reference, adjust_at, rename_net, append"), ("footprint look-ups", "src/footprint/data.rs: get_reference, get_text, at, get_rotation, is_front, get_tstamp, get_tedit, pads, lines, has_smd_attr")],
     ["footprint fields and results after each call"],
     state=[("elements", "ordered items of a footprint", "src/footprint/data.rs: Module.elements")])

prop("C24", "Renaming and looking up symbols follows the symbol's current content",
     "Renaming a symbol sets its name, keeping a leading tilde, and shows the new name in its second field; nothing else of it or of other symbols changes, over any sequence of renamings. "
     "Finding gives the first symbol that matches; the pins of a symbol are its pins in drawing order. "
     "A symbol is a power symbol exactly when its reference is #PWR and it has one pin, a graphic symbol exactly when its reference starts with # and it has no pin, and basic exactly when it is named L, R, C or D.",
     ["histories", "inputs"], "every symbol library and every finite sequence of renamings and look-ups",
     "the tests look at one library and never rename",
     ["src/symbol_lib.rs"],
     [("renaming", "src/symbol_lib.rs: Symbol::set_name"), ("look-ups", "src/symbol_lib.rs: find, pins, is_power, is_graphics, is_basic")],
     ["symbols and results after each call"],
     state=[("symbols", "ordered symbols of a library", "src/symbol_lib.rs: SymbolLib.symbols")])

prop("C25", "The command-line programs show exactly what the library finds",
     "identify names the kind of a file, dump_footprint and dump_layout print exactly the text the library writes for the footprint or board in the file, "
     "adjust_layout prints the board moved right by 100 mm and otherwise unchanged, and klc_kicad_mod and klc_symbol_lib log one line for every rule of the library convention that the footprint or a symbol of the library breaks "
     "(rule number, item, message; a warning, or information where the finding is informational), in the order found, and none for one that breaks no rule. "
     "A missing, unreadable or wrongly typed file makes a program fail instead of printing a result.",
     ["inputs"], "every file of every kind, well-formed, damaged, foreign or missing; every board; every footprint and symbol library",
     "no test runs a program",
     ["src/bin/identify.rs", "src/bin/dump_footprint.rs", "src/bin/dump_layout.rs", "src/bin/adjust_layout.rs", "src/bin/klc_kicad_mod.rs", "src/bin/klc_symbol_lib.rs", "src/lib.rs", "src/checkfix.rs"],
     [("programs", "src/bin/*.rs"), ("logging of findings", "src/checkfix.rs: dump_on_logger"), ("file kinds shown", "src/lib.rs: Display for KicadFile")],
     ["standard output, log lines and exit status of the programs"])

prop("C26", "Comparing items of a footprint looks at exactly the fields that count",
     "Two items of a footprint are equal exactly when they are of the same kind and agree in every field that counts, in both directions, and unequal otherwise. "
     "Not counted are the board side of a layer, the net of a pad, and position, contents and looks of the reference and value texts; every other field of every kind counts, including optional ones. "
     "Net classes are equal when every field agrees; compared without nets, when every field but the list of nets agrees. Nets are equal when number and name agree.",
     ["inputs"], "every pair of footprint items of the same or different kinds, every pair of net classes and of nets",
     "no test compares items that differ in a single field",
     ["src/footprint/data.rs", "src/layout/data.rs"],
     [("comparison of items", "src/footprint/data.rs: PartialEq implementations"), ("comparison of net classes", "src/layout/data.rs: NetClass::equal_no_net and derived PartialEq")],
     ["results of ==, != and equal_no_net"])

prop("C27", "What is built with the library's constructors holds exactly what was given",
     "A footprint, board or symbol library begun from nothing is empty, and each constructor call adds one item at the end that holds what was given and the documented defaults elsewhere "
     "(numbers zero, options absent, layer F.Cu, board version 4 and thickness 1.6). Setting position, size, effects, layer, net or drill of the newest item changes that field only; layers are appended in order. "
     "A pad type, pad shape, layer, orientation or justification word that names nothing is refused and changes nothing; one that names something gives that value. "
     "A footprint built this way is written and read back unchanged.",
     ["histories", "inputs"], "every finite sequence of constructor and setter calls, every word given for a layer, pad type or shape",
     "no test builds a document and looks at all its fields",
     ["src/footprint/data.rs", "src/layout/data.rs", "src/symbol_lib.rs", "src/schematic.rs", "src/lib.rs"],
     [("constructors", "src/footprint/data.rs: new and Default of items, Module::append"), ("words to values", "src/footprint/data.rs: Layer::from_string, PadType::from_string, PadShape::from_string"),
      ("fresh symbols and fields", "src/symbol_lib.rs: Symbol::new, Default of Field, Pin; src/schematic.rs: ComponentField::new_from"), ("fresh boards", "src/layout/data.rs: Default of Layout, General, Host")],
     ["fields of the document after each call"],
     state=[("items", "ordered items of the document being built", "src/footprint/data.rs: Module.elements")])

prop("C28", "Names are judged character by character; sections and groups keep their place",
     "A name satisfies the naming rule exactly when each of its characters is an ASCII letter or digit, an underscore, a hyphen or a dot; every other character of a name is reported once, in order, at its position. "
     "The ten sections of the library convention have the numbers 1 to 10 and their own titles. "
     "Flattening a group of findings that holds a single one gives that one; any other group or finding is unchanged.",
     ["inputs"], "every name over any characters, every section, every group of findings",
     "the tests look at a couple of names and only at whether they are allowed",
     ["src/checkfix.rs", "src/lib.rs"],
     [("naming rule", "src/checkfix.rs: is_allowed_1_7, allowed_1_7_items"), ("sections", "src/checkfix.rs: KLCSection"), ("groups", "src/checkfix.rs: CheckFixData::flatter")],
     ["results of the calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
