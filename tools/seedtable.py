#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 7."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
caught = {"mem-missing-unlock": "C08, C09, C03", "mem-unlocked-reads": "C09", "mem-delete-toctou": "C04, C09", "mem-swap-remove": "C05, C02, C09",
          "ldb-past-end-not-found": "C02, C09", "bcast-drop-when-busy": "C11, C18, C20"}
missed = {"ldb-utf8-keys": "names were always UTF-8; sub `bytes` added, which also showed the JSON serializer altering such names (fixed)",
          "mem-missing-unlock": "C08 refused batches only for one reason; six reasons now",
          "mem-unlocked-reads": "the C09 judge did not know deletions; sub `linear` added",
          "main-store-first": "nothing ran the program `cmd/rangedb`; C35 added",
          "ui-total-late": "nothing was saved while a page was being written; pauses between saves and slower pages added to `feeds`",
          "ws-skip-unfit": "all events could be expressed in JSON; sub `unfit` added to C17-C20 and C26, which also showed the live page of a type skipping them (fixed)",
          "remote-lost-is-end": "connections never broke in the middle of an answer; sub `broken` added to C17 and C18",
          "subscriber-restarts-types": "the tools had no property; C37 added, which also showed two defects (fixed)",
          "main-pg-no-notify": "the program ran on LevelDB and in memory only; the database stand-ins added, which also showed that it could not start on a new one (fixed)",
          "api-resume-at-total": "global sequence numbers had no gaps before the first start; deletions before it added",
          "bcast-drop-when-busy": "no history exceeded the broadcaster's buffer; subs `bursts` added to C11 and C18"}
print("| planted | property | what breaks | caught by | first missed because |\n|---|---|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], caught.get(d, m["property"]), missed.get(d, "")))
