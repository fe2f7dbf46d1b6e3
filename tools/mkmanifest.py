#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: reference monitor over saved packages and re-read models of generated documents"
T = {
 "C01": ("runtime monitoring: strict XML observer over every saved part, marked hostile strings traced to their place", "Every string position of the generator, hostile XML-legal strings; trusts the own XML parser."),
 "C02": ("runtime monitoring: package-closure monitor over saved and re-saved packages", "Random feature subsets; trusts the own zip and package observer."),
 "C03": (REF, "Random content trees, written and re-read; trusts generator expectations and observer."),
 "C04": (REF, "All formatting setters over their ranges and contexts, written and re-read."),
 "C09": (REF, "Comments and replies in every place the API allows."),
 "C10": (REF, "Saved packages only: the library has no footnote reader."),
 "C11": (REF, "Pictures in every place the API allows, previews on and off."),
 "C12": (REF, "Sections, headers, footers, page setup in random call orders."),
 "C13": (REF, "Styles, numberings, overrides, defaults and references."),
 "C14": (REF, "Hyperlinks and bookmarks in every place the API allows."),
 "C16": (REF, "All kinds of tracked changes, nested."),
 "C05": ("runtime monitoring: metamorphic monitor over generations of reading and saving, reference monitor on the first", "Generated, respelled and fixture documents over 3 to 6 generations."),
 "C07": ("runtime monitoring: differential monitor of reader reports on a package and its respelling", "Random combinations of 22 kinds of respelling on generated and fixture documents."),
 "C20": ("runtime monitoring: differential monitor of the zip and flat-XML readers", "Generated, respelled and fixture documents in random flat forms."),
 "C08": ("runtime monitoring: uniqueness monitor over every id of saved packages", "Documents from several generators, read documents added to, several documents alive at once."),
 "C15": (REF, "Automatic tables of contents over random headings in body, tables, sections and content controls; given entries; instructions as text."),
 "C17": ("runtime monitoring: differential monitor over save paths, repeated saves and fresh processes", "Random documents; byte comparison between processes of different time zone, locale, directory and time."),
 "C18": ("runtime monitoring: fault injection at every operation of the output sink, outcome monitor", "Every write and flush of each document fails once, from then on, or takes nothing; short and interrupted writes."),
 "C06": ("runtime monitoring: worker processes fed hostile inputs under a panic, CPU-time, stack and counting-allocator monitor", "Mutated generated and fixture packages, flat packages and raw bytes; memory bound 64 MiB + 500 bytes per unpacked input byte; CPU bound 30 s."),
 "C21": ("runtime monitoring: the JSON report against an independent translation of the XML of the same document", "Built documents against the XML they are saved as; generated and fixture documents against the XML they were read from."),
 "C19": ("runtime monitoring: threads at work at once against the same work done alone, schedules disturbed inside the library by the allocator; ThreadSanitizer build", "Random jobs of 2 to 12 threads; ids handed out in a hurry; ThreadSanitizer over a smaller sample."),
 "C22": (REF, "Settings, metadata, custom XML, web extensions."),
 "C23": ("runtime monitoring: instruction counts under valgrind and allocation counts of the same operation at one and eight times the size", "57 kinds of growth, alone and mixed, over building, saving, reporting and reading; growth above 1.2 times the linear one is reported."),
}
LEVEL = {"C18": "fault_enumeration"}
exec(open(os.path.join(root, "tools", "more.py")).read()) if os.path.exists(os.path.join(root, "tools", "more.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
LEVEL = globals().get("LEVEL", {})
NA = globals().get("NA", {})
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "checks": [
  {"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
   "technique": T[i][0], "level": LEVEL.get(i, "exploration"), "level_note": T[i][1]}
  for i in ids if i in T],
 "not_applicable": [{"property": i, "reason": NA.get(i, "the check is not built yet")} for i in ids if i not in T],
 "notes": "No hooks in /repo: every check observes the public API, saved bytes and process behaviour. /repo carries only fix: commits, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
