P("C07", "Identifiers handed out by the library are new and keep their meaning",
  "Every identifier the library assigns is different from every identifier already in use beside it: relationship ids of a part, slide ids and relationship ids of a presentation, comment indices of a slide, author ids of a deck, object ids of a slide. Looking an identifier up gives exactly what it was assigned to, and relationships written and read back have the same ids, kinds and targets.",
  ["inputs", "histories"], "every history of additions with and without ids given by the caller (including ids near the integer limit, ids read from a file and ids that look like the library's own), with given ids distinct from each other",
  "Tests add two or three items to a fresh collection; that a new id is unused must hold after every history, in particular when given, parsed and automatic ids are mixed.",
  ["src/parts/relationships.rs", "src/parts/presentation.rs", "src/generator/slide_content/comments.rs", "src/generator/slide_xml/content.rs"],
  [("next free number", "Relationships::add, add_with_id"), ("slide id above those in use", "PresentationPart::add_slide"), ("index above those in use", "SlideComments::add_comment"), ("ids by kind of object", "render_additional_content, issue_id")],
  ["Relationships", "PresentationPart", "SlideComments", "CommentAuthorList", "ids in a generated package"], [("relationships", "relationships of one part", "Relationships"), ("next_id", "next number to try", "Relationships")])
P("C08", "A package is an exact table of named parts, and saving it loses nothing",
  "Adding, replacing, removing, reading and listing parts of a package behaves as a table from part names to bytes, for names that differ in any way at all. Saving a package and opening the result (through a file, a reader or any zip tool) gives exactly the same names and bytes. Opening an archive yields every file in it and nothing else, or an error: never a panic, and never a package with a missing or shortened part.",
  ["histories", "inputs"], "every history of part operations, every set of part names and contents, every archive including damaged ones",
  "Tests add two or three parts; the table laws and the lossless round trip have to hold after every history and for every content (empty parts, names equal up to case or separators, damaged archives).",
  ["src/opc/package.rs"], [("part table", "Package"), ("archive reading and writing", "open_reader, save_writer")],
  ["Package"], [("parts", "name to content", "Package")])
P("C12", "A length means the same distance in any unit; elements stay where placed",
  "A length of v inches, centimetres, points or a share of the slide becomes v times 914400, 360000, 12700 or the reference extent (cut off, never more than one EMU away, exact for whole numbers of a unit), through every constructor, helper and builder that takes one; shares are limited to 0..1 and refer to the slide width for x and width, to the slide height for y and height. Values that do not fit (negative, huge, infinite, NaN) are cut to the range of the type and never panic. Every shape, picture, chart, table and connector is written with exactly the position, size, rotation and flips it was given; a table is as wide as its columns and as high as its rows.",
  ["inputs"], "every floating point value, every reference extent, every placement history and every box within the integer range",
  "Tests use a handful of round values; rounding, saturation and the choice of axis have to be right for every bit pattern.",
  ["src/core/dimension.rs", "src/elements/position.rs", "src/core/placement.rs", "src/prelude.rs", "src/generator/shapes.rs", "src/generator/table/builder.rs", "src/generator/connectors.rs"],
  [("unit factors and axes", "Dimension::to_emu"), ("placement", "ElementPlacement"), ("box of a connector", "Connector::width/height/flip_h/flip_v"), ("table extent", "Table::width/height")],
  ["Dimension", "Position", "Shape", "a:off/a:ext in a written slide"], [("placement", "box of an element", "ElementPlacement")])
P("C13", "A colour notation is read as the colour it denotes and written back unchanged",
  "RRGGBB (and RRGGBBAA for colour values), with any number of leading '#' and in either case, is read as the three (four) bytes its digits denote, and every colour is written as the notation that is read back as the same colour. Every other text is rejected (RgbColor, Color) or falls back as documented (black for a text of another length or alphabet), without a panic. Lightening, darkening, mixing, opacity, inversion and grey stay within one unit of the exact value, keep the other channels, and are exact at the ends of their range. The named colours are the documented ones, and the colour given to an element is the one written for it.",
  ["inputs"], "every text, every colour and every amount",
  "Tests try well-formed ASCII notations; the readers cut texts at byte offsets and must be total and exact for every text.",
  ["src/elements/color.rs", "src/helpers/colors.rs", "src/helpers/mod.rs", "src/generator/shapes_xml.rs"],
  [("reader and writer of RGB", "RgbColor::from_hex/to_hex"), ("reader that always answers", "ColorValue::from_hex, helpers::hex"), ("arithmetic", "ColorValue::lighter/darker/mix")],
  ["RgbColor", "ColorValue", "a:srgbClr in a written slide"], [("ColorValue", "four channels", "ColorValue")])
P("C14", "A picture is recognised by its header, decoded exactly and written as given",
  "The size and format of a picture are those its file header states (PNG, JPEG, GIF, BMP, WebP), whatever stands in other segments; damaged, cut-off or hostile headers give an error or a default, never a panic and never a size read from somewhere else. The base64 notation of any bytes (with or without padding, with line breaks) decodes to exactly those bytes, and a text that is not base64 is refused. However a picture is built, its bytes, box, crop, effects and description arrive unchanged in the slide.",
  ["inputs"], "every byte string taken as a picture file, every text taken as base64, every chain of builder calls",
  "Tests decode one text and read four well-formed headers; segment skipping, padding and truncation have to be right for every byte string.",
  ["src/generator/images.rs", "src/generator/images_xml.rs", "src/generator/image_effects.rs", "src/core/placement.rs"],
  [("segment chain", "read_jpeg_dimensions"), ("headers", "read_image_dimensions, ImageBuilder::auto"), ("base64", "base64_decode")],
  ["Image", "ImageBuilder", "p:pic in a written slide"], [("source", "bytes a picture stands for", "Image"), ("placement", "box", "ImageBuilder")])
P("C15", "Reading a presentation yields what its XML says, slides in presentation order",
  "Reading a slide gives its shapes, runs with their formatting, paragraphs with their levels, tables with their cells and spans, its title and its body text exactly as the slide's XML states them, in document order and with every character, however the XML is spelled (entities, character references, CDATA, comments, prefixes, absent or odd attributes). Element lookups on an XML tree return exactly the elements with the name asked for, in document order. Opening a presentation gives its slides in the order of the slide list, whatever their part names, and its document properties. Damaged XML gives an error or a partial answer, never a panic.",
  ["inputs"], "every XML tree, every spelling of it, every order of slides and naming of parts",
  "Tests read a few hand-written slides; lookups, nesting, attribute defaults and slide order have to be right for every tree.",
  ["src/oxml/xmlchemy.rs", "src/oxml/slide.rs", "src/oxml/presentation.rs"],
  [("tree lookup", "XmlElement::find*/text_content"), ("slide reading", "SlideParser::parse"), ("slide order", "PresentationReader::slide_list")],
  ["XmlElement", "ParsedSlide", "PresentationReader"], [("slides", "paths in presentation order", "PresentationReader")])
P("C09", "Editing slides changes exactly the slides asked for, and keeps the rest",
  "Adding, inserting, duplicating, updating, removing and moving slides of a presentation acts on its list of slides as the operation says: the slide goes to the place asked for, every other slide keeps its text and its order, and the number of slides, the index given back and the slide read back at an index agree with the list. An index out of range gives an error and changes nothing. Every part that is not a slide, a relationship, a notes page or one of the two lists of slides keeps its bytes; the links, notes pages and pictures of a slide stay with it, nothing refers to a slide that was removed, and the edited presentation is a well-formed package.",
  ["histories", "inputs"], "every history of edits of every presentation, with any number of slides, notes pages, links and sections and any naming of slide parts",
  "Tests do one or two edits of a small generated deck and count slides; that no slide, link or other part is lost or moved must hold after every history.",
  ["src/oxml/editor.rs", "src/opc/package.rs"],
  [("slide operations", "PresentationEditor::add_slide/insert_slide/duplicate_slide/remove_slide/reorder_slide"), ("renaming of parts and references", "renumber_slide, rename_slide, retarget"), ("slide lists", "set_slide_list")],
  ["PresentationEditor", "parts of the edited package"], [("slide_count", "number of slides", "PresentationEditor"), ("package", "slides 1..n and the other parts", "PresentationEditor")])
P("C17", "A chart part states the chart's kind, title, series, values and categories",
  "Whatever the kind, title, categories and series of a chart, the chart part written for it has the plot element, direction, grouping and style of that kind and the title; every series (for pies and doughnuts the first) appears once, numbered in order, with its name and with each value at its own index; a combination splits the series into bars and lines in order; scatter and bubble charts state an x position and a size per value; the categories appear in order, each at its own index; and each series refers to cells of its own. The frame on the slide shows that part in the chart's box, and each chart of a deck has a part of its own. (The contents of the embedded workbook are not part of this property; not-a-number and infinite values are outside it.)",
  ["inputs"], "every kind of chart, any number of series, values and categories, every text and every finite value",
  "Tests look for the plot element and single strings in charts of one or two series; index, order, separation of series and categories have to hold for every number of series and points.",
  ["src/generator/charts/xml.rs", "src/generator/charts/types.rs", "src/generator/charts/data.rs", "src/generator/charts/builder.rs", "src/generator/slide_xml/content.rs"],
  [("dispatch on the kind", "generate_chart_part_xml"), ("series and points", "generate_series_data"), ("categories", "generate_category_axis"), ("frame on the slide", "generate_chart_ref_xml"), ("building a chart", "ChartBuilder, Chart::add_series")],
  ["generate_chart_part_xml", "chart parts and graphic frames of a written deck"], [("series", "series in order", "Chart"), ("categories", "categories in order", "Chart")])
P("C10", "The package check reports exactly the defects a package has",
  "Checking a package gives an error, of the right kind and naming the part, for each of these and for nothing else: a required part that is missing; an XML part that cannot be read or is not well-formed (the XML declaration apart); an internal relationship to a part that does not exist (relative targets resolved against their source); a part without a content type; a slide list whose entries lead to no slide or differ in number from the slides; a slide that uses a relationship it does not have or that leads nowhere, or repeats a shape id; a chart without its relationships, workbook or link to it; and broken or incomplete slide, notes and handout masters, layouts and theme. Every deck the library writes passes, in whatever spelling its XML is stored; the verdict is good exactly where no error is listed, and the counts agree with the list. No file makes the check panic. The field validators accept exactly the values they name.",
  ["inputs"], "every package: any parts, texts, relationships and content types, however spelled, and every damaged or cut-off file",
  "Tests check a few generated decks and remove one or two parts; that no defect is missed and none invented has to hold for every package.",
  ["src/core/package_validation/rules.rs", "src/core/package_validation/rels.rs", "src/core/package_validation/context.rs", "src/core/package_validation/report.rs", "src/core/validation.rs"],
  [("rules", "validate_package, check_*"), ("target resolution", "resolve_rel_target, rels_source_dir"), ("verdict", "PackageValidationReport::is_valid/error_count"), ("well-formedness", "validate_well_formed_xml")],
  ["validate_package_bytes", "PackageValidationReport"], [("issues", "category, severity and part of each", "PackageValidationReport")])
P("C11", "Repair finds exactly what is wrong and changes only what is broken",
  "Examining a file finds exactly these: a required part that is missing, an XML part that cannot be read or is not well-formed (the XML declaration apart), an internal relationship of the package, the presentation or a slide to a part that does not exist, a slide of the presentation that does not exist, a slide that the presentation does not list, and a part without a content type. Repairing a file in which nothing is wrong changes nothing. Otherwise every issue found is listed either as repaired or as unrepaired, once; what is listed as repaired is found no longer, and the file is called valid exactly where examining it again finds nothing. No part is lost, no part is added but a required one that was missing, and a part that no issue concerns keeps its bytes. In a part that is not well-formed only bare ampersands are escaped (and a missing XML declaration added), and it stays as it is where that does not mend it; of broken relationships only those are taken out, with their entry in the slide list; a slide is put into the list under an id and a relationship of its own. No file makes it panic.",
  ["inputs", "histories"], "every package: any parts, texts, relationships and content types, however spelled, and every damaged or cut-off file",
  "Tests repair a few files with one part missing; that no part, relationship or text is lost beyond what is broken has to hold for every combination of defects.",
  ["src/oxml/repair.rs", "src/core/xml_scan.rs", "src/core/validation.rs"],
  [("checks", "PptxRepair::validate"), ("repairs", "PptxRepair::repair, repair_issue"), ("cutting relationships out", "remove_relationships, remove_spans"), ("mending a text", "attempt_xml_repair"), ("listing a slide", "repair_missing_slide_reference, insert_last")],
  ["PptxRepair", "RepairResult", "parts of the repaired package"], [("issues", "found, repaired and unrepaired issues", "RepairResult"), ("package", "parts before and after", "PptxRepair::package")])

P("C16", "Compression takes out what was asked for and loses nothing else",
  "Compressing a package removes the media that no relationship of the package leads to (and none at all where a relationships part cannot be read), the document properties and the notes pages, each only if asked to; what it removes leaves no relationship to it and no content type, and everything else stays. Where it minimizes XML, a part keeps its elements, its attributes and every character of its text except blanks that only lay out elements (none where xml:space asks to preserve them); a part that is not well-formed keeps its bytes, and so does every part that is not XML. The sizes, the number of media removed and whether the target was met are reported as they are; compression in memory gives the same package as compression of files; and the analysis of a file adds up the sizes and numbers of its parts. (Image recompression, the comments option and what the levels mean are outside this property.)",
  ["inputs"], "every package: any parts, texts, references between them and spelling of their XML, under all options",
  "Tests compress a generated deck and look whether it became smaller; that no used picture, text or part is lost has to hold for every package and option.",
  ["src/opc/compress.rs"],
  [("media kept", "remove_unused_media, internal_target"), ("references to removed parts", "remove_parts, leads_to, without_spans"), ("blanks", "minimize_xml, child_gaps, is_blank"), ("report", "compression_result, analyze_pptx")],
  ["compress_pptx", "compress_pptx_in_memory", "analyze_pptx"], [("package", "parts before and after", "compress_pptx_in_memory"), ("report", "CompressionResult, CompressionAnalysis", "compress_pptx")])
