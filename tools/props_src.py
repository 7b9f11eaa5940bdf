#!/usr/bin/env python3
"""source of properties.jsonl (run by hand: python3 tools/props_src.py)"""
import json
L = []
def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, id
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
P("C01", "Escaping text for markup is lossless, complete and total",
  "For every text, escaping it for XML or HTML yields a string that contains none of the characters < > \" ' unescaped and no & that does not start one of the five entities, and replacing the entities gives back exactly the original text. Everything in the library that puts caller text into markup through an escaper or the XML writer yields markup from which a parser reads back that same text.",
  ["inputs"], "every text (any Unicode scalar values, any length, any mixture of special characters), every escaping helper in the library",
  "Tests escape a few short strings; the guarantee is a statement about all strings (order of replacements, fast paths, byte versus character positions) and about about ten separate copies of the escaper.",
  ["src/core/xml_utils.rs", "src/generator/props_xml.rs", "src/generator/presentation_theme.rs", "src/generator/slide_content/*.rs", "src/parts/coreprops.rs", "src/export/html.rs"],
  [("five-entity escaping with a fast path", "escape_xml, append_escape_xml"), ("local copies of the escaper", "xml_escape in props_xml, comments, sections, embedded_fonts, digital_signature, print_settings"), ("attribute and text writing", "XmlWriter")],
  ["escape_xml", "append_escape_xml", "XmlWriter", "every to_xml that takes caller text"])
P("C02", "Every generated XML part is well-formed and carries the caller's text exactly",
  "For every deck built through the public API, eagerly or lazily, generation succeeds and every XML part of the produced package is well-formed. The titles, bullets, table cells, shape texts, connector labels, code, notes, chart titles, alternative texts, link targets and tooltips, document title, theme and font names read back from those parts equal what the caller gave, in order.",
  ["inputs", "configurations"], "every deck: any number of slides, layouts, content elements, settings and text made of characters XML can represent (colours are assumed to be hexadecimal)",
  "Tests look for substrings in the XML of a few fixed decks with plain text; well-formedness must survive every text at every place it is inserted, for every combination of content elements.",
  ["src/generator/builder.rs", "src/generator/slide_xml/mod.rs", "src/generator/slide_xml/layouts.rs", "src/generator/slide_xml/content.rs", "src/generator/shapes_xml.rs", "src/generator/package_xml.rs", "src/generator/charts/xml.rs", "src/generator/notes_xml.rs", "src/generator/props_xml.rs"],
  [("markup assembled from templates with escaped text", "generator/**"), ("parts written to the package", "builder.rs")],
  ["create_pptx_with_content_to_writer", "create_pptx_lazy_to_writer", "parts read from the package"])
P("C03", "Generated packages are closed: every reference leads to the right part",
  "In every generated package each part name occurs once, each part has a declared content type, every relationship target and every relationship id used in a part resolves to an existing part of the right kind, and every written part is reachable. Pictures, charts, notes, ink and layouts of slide k lead to the parts made from slide k's own content, and eager and lazy generation of the same deck produce the same parts.",
  ["inputs", "configurations"], "every deck: any number of slides and any combination of pictures, charts, notes, ink, fonts, themes, print and signature settings",
  "The numbering of relationships is computed separately by the writer of the part and by the writer of its relationships; tests only pin a few combinations of features, and the two sides must agree for all of them.",
  ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/slide_xml/mod.rs", "src/generator/media_registry.rs", "src/generator/layout_parts.rs"],
  [("relationship ids computed by position", "create_presentation_rels_xml_full, create_presentation_xml_with_settings, slide relationship writers"), ("content types", "create_content_types_xml_*")],
  ["create_pptx_with_content_to_writer", "create_pptx_lazy_to_writer"])
P("C04", "Each distinct picture is stored once and every picture shows its own bytes",
  "Across all slides of a deck, pictures with the same bytes and file type are stored as one media part, different bytes or types never share one, and nothing else is stored. The relationship of every picture with readable data leads to the part holding exactly its bytes, and numbers once handed out never change meaning.",
  ["inputs", "histories"], "every sequence of pictures on every sequence of slides, with any bytes and types, including pictures without readable data",
  "Tests register two or three pictures; that numbers stay valid, distinct pictures stay apart and the position-based relationship list matches must hold for every history of insertions.",
  ["src/generator/media_registry.rs", "src/generator/builder.rs", "src/generator/images.rs"],
  [("content-keyed registry", "MediaRegistry::image_number"), ("per-slide relationship targets", "slide_image_rel_targets")],
  ["MediaRegistry", "ppt/media parts of a generated package"], [("entries", "stored pictures in order of number", "MediaRegistry")])
P("C05", "Table cell merges never overlap and every cell has one unambiguous merge state",
  "A merge request on a table is accepted exactly when its region is non-empty, lies inside the table and shares no cell with an already accepted region; a rejected request changes nothing. Every cell is then reported as anchor (with the accepted spans), horizontally merged, vertically merged or normal exactly as the accepted regions cover it, and the merge attributes written for it say the same.",
  ["inputs", "histories"], "every table size, every sequence of merge requests with any row, column and span values (including ones whose sum exceeds the machine range), every cell",
  "The tests merge a handful of regions on 3x3 or 5x5 tables; disjointness and the cell-state function must hold for every history of requests and every coordinate, including spans near the integer limit.",
  ["src/generator/slide_content/table_merge.rs"],
  [("bounds and overlap test before insertion", "TableMergeMap::add_merge"), ("first covering region decides the state", "TableMergeMap::cell_state")],
  ["TableMergeMap::merge_cells", "TableMergeMap::cell_state", "CellMergeState::to_xml_attrs"], [("regions", "accepted merge regions", "TableMergeMap")])
P("C06", "Sections never claim the same slide twice and list existing slides in order",
  "A section is accepted exactly when none of its slides already belongs to another section, and a refused, failed or unknown request changes nothing. Sections stay in slide order; a slide is reported in a section exactly when that section's range covers it; what is written for a deck lists, per section, each covered existing slide exactly once in order under the section's name.",
  ["inputs", "histories"], "every history of adding, removing, renaming and clearing sections, with any names and ranges (including ranges near the integer limit), every slide and deck size",
  "Tests add two or three sections with small ranges; disjointness and the written lists must hold after every history and for every range, including empty and enormous ones.",
  ["src/generator/slide_content/sections.rs"],
  [("overlap test before insertion, sorted list", "SectionManager::add_section"), ("first covering section", "SectionManager::section_for_slide")],
  ["SectionManager", "SectionManager::to_xml"], [("sections", "accepted sections", "SectionManager")])
exec(open("/verif/tools/props_more.py").read()) if __import__("os").path.exists("/verif/tools/props_more.py") else None
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in L))
print(len(L))
