#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="docx-core/src/"
p("C01","Written XML is always well-formed and caller strings cannot break out",
 "Whatever XML-legal strings a caller puts anywhere in a document (texts, names, ids, URLs, authors, dates, instructions, metadata), every XML part of the saved package is well-formed namespace-correct XML. Each such string is found in exactly the text node or attribute where it belongs, with exactly the characters the caller gave (no injection, no double escaping, no lost or altered characters), apart from carriage returns and from line breaks in run text, which the API removes.",
 ["inputs","programs"],"every document buildable through the API and every string of characters legal in XML 1.0, including markup characters, quotes, entities-lookalikes, line breaks, tabs and non-BMP characters, in every string-taking position",
 "The tests write fixed ASCII strings and compare XML text; escaping is done separately at dozens of call sites, so only inputs aimed at each site can show a gap.",
 [D+"xml/writer.rs",D+"xml_builder/macros.rs",D+"xml_builder/mod.rs",D+"escape/mod.rs",D+"documents/elements/text.rs",D+"documents/settings.rs",D+"documents/doc_props/core.rs",D+"documents/elements/hyperlink.rs"],
 [("XML event writer",D+"xml/writer.rs"),("element and attribute builder macros",D+"xml_builder/macros.rs"),("escaping of caller strings",D+"escape/mod.rs")],
 ["bytes of every part of the written package"])
p("C02","Every saved package is a closed, consistent OPC package",
 "In every saved package all relationship ids used by a part are declared exactly once by that part's relationships, every internal target exists, every part has exactly one content type of the right kind, and every part is reachable from the package root, apart from empty numbering, comment and footnote parts that nothing uses. Part names are unique, archive checksums hold, and relationship types match the kind of part or URL they point to.",
 ["inputs","programs","configurations"],"every combination of features that adds parts (headers, footers, images, comments, footnotes, numbering, custom XML, web extensions, task panes, hyperlinks, sections) in every order and multiplicity",
 "Tests build one feature at a time; the part, relationship and content-type lists are assembled by separate counters that only combinations can make disagree.",
 [D+"documents/mod.rs",D+"documents/content_types.rs",D+"documents/document_rels.rs",D+"documents/rels.rs",D+"documents/header_rels.rs",D+"documents/footer_rels.rs",D+"documents/custom_item_rels.rs",D+"documents/taskpanes_rels.rs",D+"zipper/mod.rs"],
 [("package preparation",D+"documents/mod.rs"),("content type registry",D+"documents/content_types.rs"),("relationship lists",D+"documents/document_rels.rs"),("archive writer",D+"zipper/mod.rs")],
 ["zip entries, [Content_Types].xml and *.rels of the written package"])
p("C03","Document content survives writing and reading unchanged",
 "Building a document, saving it and reading it back yields the same content: the same sequence of paragraphs, tables (rows, cells, nested tables), content controls, runs, texts, tabs, breaks, symbols and field parts, in the same order and nesting, with exactly the same characters. Nothing is dropped, duplicated, merged or reordered, in the saved XML or in the model read from it (content controls inside a paragraph are read as their content).",
 ["inputs","programs"],"every document tree buildable through the API, of any depth, width and text content",
 "Round-trip tests cover a handful of fixed small documents; writer tests compare one element at a time and reader tests one fixture at a time.",
 [D+"documents/document.rs",D+"documents/elements/paragraph.rs",D+"documents/elements/run.rs",D+"documents/elements/table.rs",D+"documents/elements/table_cell.rs",D+"documents/elements/structured_data_tag.rs",D+"reader/document.rs",D+"reader/paragraph.rs",D+"reader/run.rs",D+"reader/table.rs",D+"reader/table_row.rs",D+"reader/table_cell.rs",D+"reader/structured_data_tag.rs"],
 [("element writers",D+"documents/elements/"),("element readers",D+"reader/")],
 ["word/document.xml parsed independently","model read back, as JSON"])
p("C04","Formatting set through the API is written and read back exactly",
 "Every run, paragraph, table, row, cell and section formatting property set through the API is written with the value the caller gave, on the element it was set on and nowhere else, and, where the reader reads that property, is reported with that value when the file is read. Properties the caller did not set are not invented.",
 ["inputs","programs"],"every combination of formatting setters, over the values of each setter that Office Open XML allows, on every kind of element, in every nesting context",
 "Each setter has at most one test with one value in isolation; interference between properties, value ranges and contexts is not sampled.",
 [D+"documents/elements/run_property.rs",D+"documents/elements/paragraph_property.rs",D+"documents/elements/table_property.rs",D+"documents/elements/table_cell_property.rs",D+"documents/elements/table_row_property.rs",D+"documents/elements/section_property.rs",D+"xml_builder/elements.rs",D+"reader/run_property.rs",D+"reader/paragraph_property.rs",D+"reader/table_property.rs",D+"reader/table_cell_property.rs",D+"reader/section_property.rs",D+"types/"],
 [("property writers",D+"xml_builder/elements.rs"),("property readers",D+"reader/"),("enumerated value conversions",D+"types/")],
 ["word/document.xml parsed independently","model read back, as JSON"])
p("C05","Opening and re-saving a document keeps its content",
 "A document that is read and saved again keeps its text, block and run structure, tables, links, images, comments and formatting as the library represents them: reading the re-saved file gives the same content as reading the original. Saving repeatedly reaches a fixed point instead of drifting, growing or corrupting.",
 ["inputs","histories"],"every document the library can read that uses features it represents, over any number of read/save generations",
 "Tests read or write, but almost none saves what was read; loss or drift appears only over generations.",
 [D+"reader/mod.rs",D+"reader/read_docx.rs",D+"reader/run.rs",D+"documents/mod.rs",D+"documents/styles.rs",D+"documents/image_collector.rs"],
 [("reader model construction",D+"reader/mod.rs"),("writer of the same model",D+"documents/mod.rs")],
 ["model after each read/save generation","word/document.xml of each generation"])
p("C06","Reading arbitrary bytes always ends with a document or an error",
 "For any bytes given to the readers (zip package, flat XML package, or their parts), the call returns a document or an error: it never panics, overflows the stack, hangs, or uses memory out of proportion to the input. A damaged main document part (truncated XML, bad archive data) is never silently accepted as a shorter document, and whatever was read can be reported as JSON and saved without a panic, text boxes and shapes aside.",
 ["inputs","fault_sequences"],"every byte string; in particular truncations, bit flips, missing or damaged parts, missing or malformed attributes, unclosed or deeply nested elements",
 "Tests read well-formed fixtures only, plus very few hand-made malformed inputs.",
 [D+"reader/xml_reader.rs",D+"reader/xml_parser.rs",D+"reader/read_zip.rs",D+"reader/read_docx.rs",D+"reader/read_xml.rs",D+"reader/ignore.rs",D+"reader/numberings.rs",D+"reader/attributes/"],
 [("pull parser wrapper",D+"reader/xml_reader.rs"),("archive access",D+"reader/read_zip.rs"),("attribute access in element readers",D+"reader/")],
 ["return value, panics, signals, wall time and allocation of a worker process"])
p("C07","Reading depends only on the document's meaning, not on how its XML is spelled",
 "Two packages that carry the same XML content, but differ in attribute order, quoting, insignificant whitespace, comments and processing instructions, self-closing form, character references or CDATA, relationship ids, part names, relative or absolute targets, entry order or compression, or equivalent spellings of a value, are read as the same document. Elements and attributes with names the library does not know are skipped without disturbing what surrounds them.",
 ["inputs"],"every readable document and every meaning-preserving rewriting of its package, singly and combined",
 "Each fixture is one spelling of one document; nothing compares two spellings.",
 [D+"reader/xml_parser.rs",D+"reader/xml_reader.rs",D+"reader/attributes/",D+"reader/rels.rs",D+"reader/document_rels.rs",D+"reader/read_docx.rs",D+"reader/read_zip.rs",D+"reader/ignore.rs"],
 [("event normalisation",D+"reader/xml_reader.rs"),("attribute readers",D+"reader/attributes/"),("target resolution",D+"reader/rels.rs")],
 ["models read from both packages, as JSON"])
p("C08","Identifiers in a saved document are unique and caller-chosen ones are kept",
 "Paragraph ids are unique within a saved package, and annotation, bookmark, drawing, numbering and note ids are unique within their own id space. Ids the caller chose and kept distinct are written as chosen, and every reference by id points at the element it was made for.",
 ["programs","histories"],"every document, and every history of other documents built earlier or meanwhile in the same process",
 "Under the unit-test build the id generators return constants, so the existing tests cannot observe uniqueness at all.",
 [D+"documents/paragraph_id.rs",D+"documents/history_id.rs",D+"documents/hyperlink_id.rs",D+"documents/bookmark_id.rs",D+"documents/pic_id.rs",D+"documents/footnote_id.rs",D+"documents/paragraph_property_change_id.rs",D+"documents/mod.rs",D+"documents/document_tree.rs"],
 [("process-wide counters",D+"documents/"),("id refresh before writing",D+"documents/mod.rs")],
 ["ids in all parts of written packages"],
 [("id counters","last id handed out, shared by all threads",D+"documents/")])
p("C09","Comments are conserved with their threads, ranges and content",
 "Every comment attached anywhere in the body of a document (including inside tables, table cells, links, content controls, tracked insertions and deletions) is saved exactly once with its author, date and full content, and its range start, end and reference all carry its id. Replies stay linked to their parents and resolved state is kept; reading the file returns every comment with that content attached to its range.",
 ["inputs","programs"],"every number, nesting, placement and reply structure of comments with any content",
 "Tests attach one or two comments to a top-level paragraph.",
 [D+"documents/elements/comment.rs",D+"documents/comments.rs",D+"documents/comments_extended.rs",D+"documents/elements/comment_range_start.rs",D+"documents/mod.rs",D+"reader/comments.rs",D+"reader/comment.rs",D+"reader/comments_extended.rs",D+"xml_builder/comments_extended.rs"],
 [("comment collection before writing",D+"documents/mod.rs"),("attaching read comments to ranges",D+"documents/mod.rs")],
 ["word/comments.xml, word/commentsExtended.xml and word/document.xml","model read back"])
p("C10","Footnotes are conserved and every reference finds its own note",
 "Every footnote reference in a saved document points to exactly one footnote, whose content is the content the caller gave that footnote, whatever the number and placement of footnotes in the body.",
 ["inputs","programs"],"every number and placement of footnotes (paragraphs, tables, tracked changes, content controls) with any content",
 "Tests add one footnote to one top-level paragraph.",
 [D+"documents/footnotes.rs",D+"documents/elements/footnote.rs",D+"documents/elements/footnote_reference.rs",D+"documents/footnote_id.rs",D+"xml_builder/footnotes.rs",D+"documents/mod.rs",D+"documents/document_tree.rs"],
 [("footnote collection before writing",D+"documents/document_tree.rs"),("footnote part writer",D+"documents/footnotes.rs")],
 ["word/footnotes.xml and word/document.xml","model read back"])
p("C11","Embedded images keep their bytes and stay with their picture",
 "Every picture in the body, in headers and in footers refers, through the relationships of the part it is in, to a media part holding exactly the image bytes the caller supplied, with the size, position and rotation given; equal images may share a part but different images never do. Reading returns for every image relationship the original bytes, with or without preview generation, and undecodable images neither fail the read nor lose their bytes.",
 ["inputs","programs","configurations"],"every number, sharing, format and placement of images (paragraphs, tables, tracked changes, content controls, headers, footers), previews on or off",
 "Tests embed one or two images in a top-level paragraph or header.",
 [D+"documents/image_collector.rs",D+"documents/elements/pic.rs",D+"documents/elements/drawing.rs",D+"documents/header_rels.rs",D+"documents/footer_rels.rs",D+"documents/mod.rs",D+"reader/read_docx.rs",D+"reader/drawing.rs",D+"reader/pic.rs"],
 [("image collection and deduplication",D+"documents/image_collector.rs"),("media and relationship emission",D+"documents/mod.rs"),("media reading and preview",D+"reader/read_docx.rs")],
 ["media parts, relationships and drawings of the written package","images of the read model"])
p("C12","Each section keeps its own headers, footers and page setup",
 "Every section of a saved document refers to exactly the default, first-page and even-page headers and footers the caller gave that section, with their content, in whatever order the API calls were made and however many sections there are; switches needed for first and even pages to take effect are set. Reading returns each section with the same headers, footers and page settings.",
 ["inputs","programs","configurations"],"every number of sections, every subset of header and footer kinds per section, every call order",
 "Tests use one section, or one header kind, in one call order.",
 [D+"documents/mod.rs",D+"documents/document.rs",D+"documents/elements/section.rs",D+"documents/elements/section_property.rs",D+"documents/header.rs",D+"documents/footer.rs",D+"reader/section_property.rs",D+"reader/header.rs",D+"reader/footer.rs"],
 [("header and footer numbering",D+"documents/mod.rs"),("section writer",D+"documents/elements/section.rs"),("section reader",D+"reader/section_property.rs")],
 ["section properties, header/footer parts and relationships","model read back"])
p("C13","Numbering and style definitions are saved and read back completely",
 "Every abstract numbering, numbering instance, level, level override and style added by the caller is saved once with all its properties and read back with the same values; document defaults are kept. Every numbering reference in the content resolves to the definition it names, whichever part of the document uses it.",
 ["inputs","programs"],"every set of numbering and style definitions with any property combination, and every placement of references to them",
 "Tests define one or two levels or styles with a few properties.",
 [D+"documents/numberings.rs",D+"documents/elements/abstract_numbering.rs",D+"documents/elements/level.rs",D+"documents/elements/numbering.rs",D+"documents/elements/level_override.rs",D+"documents/styles.rs",D+"documents/elements/style.rs",D+"documents/elements/doc_defaults.rs",D+"reader/numberings.rs",D+"reader/level.rs",D+"reader/level_override.rs",D+"reader/styles.rs",D+"reader/style.rs"],
 [("definition writers",D+"documents/"),("definition readers",D+"reader/")],
 ["word/numbering.xml, word/styles.xml","model read back"])
p("C14","Hyperlinks and bookmarks lead where the caller said",
 "Every external hyperlink, wherever it is placed, resolves through the relationships of the part it is in to exactly the URL given, every internal one names exactly the anchor given, and both keep their content and attributes. Bookmark starts and ends keep their ids, names and positions; reading returns the same links and bookmarks.",
 ["inputs","programs"],"every number and placement of links and bookmarks (body, tables, content controls, table of contents, sections), every URL and anchor",
 "Tests put one link in one top-level paragraph.",
 [D+"documents/elements/hyperlink.rs",D+"documents/hyperlink_id.rs",D+"documents/document_rels.rs",D+"documents/mod.rs",D+"documents/elements/bookmark_start.rs",D+"documents/elements/bookmark_end.rs",D+"reader/hyperlink.rs",D+"reader/bookmark_start.rs",D+"reader/read_docx.rs"],
 [("hyperlink relationship collection",D+"documents/mod.rs"),("hyperlink reader",D+"reader/hyperlink.rs")],
 ["hyperlink elements and relationships of the written package","model read back"])
p("C15","Tables of contents are complete fields with the requested entries",
 "A table of contents is written as a balanced field whose instruction carries exactly the options the caller chose, before and after content stay in place, and supplied or automatically collected entries appear in document order with the right text, level and link target. An automatic table of contents placed directly in the body lists exactly the headings its level range, or its style mapping to levels in that range, selects, wherever they occur in the body.",
 ["inputs","programs"],"every combination of options, entries, before/after content and heading structures",
 "Tests check a few option strings and one or two generated entries.",
 [D+"documents/elements/table_of_contents.rs",D+"documents/elements/table_of_contents_item.rs",D+"documents/elements/instr_toc.rs",D+"documents/toc_key.rs",D+"documents/mod.rs",D+"reader/structured_data_tag.rs"],
 [("entry collection",D+"documents/mod.rs"),("field writer",D+"documents/elements/table_of_contents.rs"),("instruction writer and parser",D+"documents/elements/instr_toc.rs")],
 ["word/document.xml of the written package","model read back"])
p("C16","Tracked changes keep kind, content, author and date",
 "Every insertion, deletion, move and property change, in paragraphs, links, rows or cells and nested in one another, is saved and read back with the same kind, author, date and enclosed content, and text deleted under tracking is written as deleted text. No content changes from tracked to untracked or from one kind to another.",
 ["inputs","programs"],"every nesting and sequence of tracked changes with any content, authors and dates",
 "Tests cover single insertions and deletions of one run.",
 [D+"documents/elements/insert.rs",D+"documents/elements/delete.rs",D+"documents/elements/move_from.rs",D+"documents/elements/move_to.rs",D+"documents/elements/paragraph_property_change.rs",D+"reader/insert.rs",D+"reader/delete.rs",D+"reader/move_from.rs",D+"reader/move_to.rs",D+"reader/run_property.rs",D+"reader/table_row.rs"],
 [("tracked change writers",D+"documents/elements/"),("tracked change readers",D+"reader/")],
 ["word/document.xml","model read back"])
p("C17","Saving is deterministic and does not depend on how it is asked for",
 "The same sequence of API calls yields byte-identical packages in every run and every process, whatever else the process built before, apart from identifiers drawn from process-wide counters. Saving directly, rendering first and archiving afterwards, saving to any kind of sink, and saving a copy all produce the same package, and saving does not change what later saves or queries of the same document return.",
 ["programs","histories","configurations"],"every document, every save path, any number of saves and processes",
 "Tests never compare two saves of one document or two processes.",
 [D+"documents/mod.rs",D+"zipper/mod.rs",D+"documents/build_xml.rs",D+"documents/doc_props/custom.rs",D+"documents/document_rels.rs"],
 [("streaming archive writer",D+"zipper/mod.rs"),("rendered package",D+"documents/mod.rs")],
 ["bytes written through each path, in several processes"])
p("C18","A failing output sink is always reported",
 "If the sink returns an error at any write, seek or flush, saving returns an error and never reports success for an incomplete file; it does not panic or hang. Sinks that accept only part of each write, or are interrupted, receive exactly the same bytes as a plain buffer.",
 ["fault_sequences","crash_points"],"every document and every point at which the sink fails, accepts short writes or is interrupted",
 "No test uses a failing or partial sink.",
 [D+"zipper/mod.rs",D+"documents/mod.rs",D+"documents/xml_docx.rs",D+"xml/writer.rs"],
 [("archive writer error propagation",D+"zipper/mod.rs")],
 ["result of saving and bytes received by an instrumented sink"])
p("C19","Documents can be built, saved and read from many threads at once",
 "Building, saving and reading documents concurrently gives each thread the same result as doing it alone, apart from the values of process-wide identifiers, and never a data race, deadlock or panic. Identifiers of elements created concurrently are never handed out twice.",
 ["schedules"],"every interleaving of threads that create elements, save and read documents",
 "All tests are single threaded and the unit-test build replaces the id generators by constants.",
 [D+"documents/history_id.rs",D+"documents/hyperlink_id.rs",D+"documents/bookmark_id.rs",D+"documents/pic_id.rs",D+"documents/footnote_id.rs",D+"documents/paragraph_property_change_id.rs",D+"documents/paragraph_id.rs",D+"documents/toc_key.rs"],
 [("process-wide atomic counters",D+"documents/")],
 ["ids and packages produced by concurrent threads","ThreadSanitizer and Miri reports"],
 [("id counters","last id handed out, shared by all threads",D+"documents/")])
p("C20","A flat XML package reads as the same document as the zip package",
 "Reading a document stored as one flat XML package gives the same content, styles, numbering, headers, footers, comments, settings and images as reading the zip package with the same parts, whatever quoting, attribute order and part order the flat file uses, numbering parts that nothing refers to aside.",
 ["inputs","configurations"],"every document and every way of writing it as a flat package",
 "Tests read two or three small flat snippets.",
 [D+"reader/read_xml.rs",D+"reader/read_docx.rs"],
 [("flat package part extraction",D+"reader/read_xml.rs")],
 ["models read from both forms, as JSON"])
p("C21","The JSON view reports the document faithfully",
 "The JSON produced for a document is valid JSON with a stable shape that contains every text, property and reference that the library's model represents with its exact value, in document order. Producing it does not change the document, and rendering, saving and reading in between do not change what it reports.",
 ["inputs","programs"],"every document, built or read",
 "Snapshot tests freeze the JSON of a few documents.",
 [D+"documents/mod.rs",D+"documents/elements/"],
 [("serialisation of the model",D+"documents/elements/")],
 ["JSON text of built and read documents"])
p("C22","Settings, properties, custom XML and add-in data are saved as given",
 "Document settings, core and custom properties, document variables and ids, custom XML items and web extension data are saved with exactly the values given (custom XML up to white space around texts), each item kept apart from the others whatever their number, and settings and custom properties are read back unchanged.",
 ["inputs","programs"],"every combination, number and value of these items",
 "Tests set one value of a few of them.",
 [D+"documents/settings.rs",D+"documents/doc_props/core.rs",D+"documents/doc_props/custom.rs",D+"documents/custom_item.rs",D+"documents/custom_item_property.rs",D+"documents/custom_item_rels.rs",D+"documents/webextension.rs",D+"documents/taskpanes.rs",D+"reader/settings.rs",D+"reader/custom_properties.rs",D+"xml_json/mod.rs"],
 [("metadata part writers",D+"documents/"),("metadata readers",D+"reader/")],
 ["metadata parts of the written package","model read back"])
p("C23","The cost of reading and writing grows in proportion to the document",
 "The work and memory needed to build, save and read a document grow no worse than in proportion to its size: doubling the number of paragraphs, runs, rows, comments, footnotes, links, styles, headers or image bytes no more than about doubles them.",
 ["inputs"],"every kind of document content scaled up",
 "Tests and benches run one size and assert nothing about cost.",
 [D+"documents/mod.rs",D+"documents/image_collector.rs",D+"documents/document_tree.rs",D+"reader/read_docx.rs",D+"reader/xml_reader.rs",D+"xml_json/mod.rs",D+"zipper/mod.rs"],
 [("single traversals of the tree",D+"documents/document_tree.rs"),("streaming parse and write",D+"reader/xml_reader.rs")],
 ["allocation counts, bytes and peak of a counting allocator; instruction counts"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
