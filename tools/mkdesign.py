"""Fills the per-property part and the planted-bug table of DESIGN.md from properties.jsonl and catalog.py."""

import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from catalog import CATALOG  # noqa: E402
from tools.notes import NOTES  # noqa: E402


def properties():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            decided, oracle, cost = NOTES[p["id"]]
            yield "### %s %s\n" % (p["id"], p["title"])
            yield "*Decided by* %s\n" % decided
            yield "*Oracle:* %s\n" % oracle
            yield "*Bounds:*\n"
            for e in CATALOG[p["id"]]["entries"]:
                extra = " (thorough tier)" if e.get("tier") == "thorough" else ""
                yield "- `%s`: %s%s" % (e["name"], e["bound"], extra)
            yield "\n*Cost:* %s\n" % cost
            yield "*Beyond tests:* %s\n" % p["why_tests_cant"]


def planted():
    yield "| bug | property whose check catches it | what it breaks |\n|---|---|---|"
    top = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(top)):
        with open(os.path.join(top, name, "meta.json")) as f:
            m = json.load(f)
        yield "| %s | %s | %s |" % (name, m["property"], m["what_it_breaks"])
    yield ""


def fill(text, mark, lines):
    part = "\n".join(lines)
    return re.sub(r"(?s)(<!-- %s -->\n).*(<!-- end of %s -->)" % (mark, mark), lambda m: m.group(1) + part + m.group(2),
                  text)


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    text = fill(fill(text, "properties", properties()), "planted", planted())
    with open(path, "w") as f:
        f.write(text)


main()
