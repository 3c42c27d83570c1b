#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run by hand after editing; no check reads this."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S, PA, F, O, D, U = ("hrdc/stream/", "hrdc/stream/parser/", "hrdc/stream/formatter/", "hrdc/stream/optimizer/",
                     "hrdc/descriptor/", "hrdc/usage/")


def p(id, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))


p("C01", "Items survive encoding and decoding",
  "Encoding any short item and parsing the bytes back gives an item of the same type with the same value, signed "
  "items (logical and physical bounds, unit exponent) included. Two items compare equal exactly when they encode "
  "to the same bytes. A value that the item's field cannot hold is refused, never silently changed.",
  ["inputs"], "every item type of HID 1.11 short items, every value of its field (up to 32 bits)",
  "The tests compile four descriptors: a few dozen values out of 2^32 per item type, and never parse.",
  [S + "item.py"], [("Item.bytes / Item.parse / itemclass registry", S + "item.py")],
  "every value of every item's field, as 32-bit symbols; nothing sampled")

p("C02", "Every item uses the shortest standard encoding",
  "The bytes of an item are a HID short item: a prefix that carries type, tag and payload size, then the value in "
  "little endian on 0, 1, 2 or 4 bytes, two's complement for signed items. The payload is the shortest one that "
  "holds the value (usages that carry their page always take 4 bytes).",
  ["inputs"], "every item type, every value of its field",
  "Size boundaries (-129, 128, 32768, 65535...) are points that no test descriptor contains.",
  [S + "item.py"], [("Item.bytes", S + "item.py")],
  "every value of every item's field against an independent encoder")

p("C03", "Any byte string parses exactly or is refused",
  "Parsing a byte string yields precisely the items its bytes denote, in order, with nothing skipped, invented or "
  "altered. A truncated item or an unknown tag raises an error instead of giving a wrong descriptor.",
  ["inputs"], "every blob within the bounds, including truncated, reserved and odd payload sizes",
  "No test parses a binary descriptor at all, much less a malformed one.",
  [PA + "base.py", PA + "binary.py", S + "item.py"],
  [("Parser.blobParse, itemParse", PA + "base.py"), ("Item.parse", S + "item.py")],
  "every blob up to 2 bytes (thorough 3), every payload of every known prefix followed by any item start")

p("C04", "Converting between formats preserves the item stream",
  "Reading a descriptor in any format (binary, hex, code) and writing it in any format without optimization keeps "
  "every item, its value and its order. Reading the output back gives the same items, so conversions compose and "
  "a binary descriptor in shortest form comes back byte for byte.",
  ["inputs", "configurations"], "every pair of formats, sequences of items with every value of their fields",
  "Tests never run a format reader; they only compare compiled bytes of fixed descriptors.",
  [PA + "base.py", PA + "binary.py", PA + "hex.py", PA + "code.py", F + "binary.py", F + "hex.py", F + "code.py"],
  [("format readers", PA), ("format writers", F)],
  "all nine format pairs, one to three items each, all values symbolic")

p("C05", "Text readers accept every spelling of the same bytes",
  "The hex and code readers read the bytes as written whatever the layout: line breaks, blanks, either case of "
  "letters or prefix, single-digit bytes in code, and any comments in code, both line and block ones, whatever "
  "they contain. What is not a byte is refused in code, not truncated.",
  ["inputs"], "layouts and comments within the bounds, comment text symbolic",
  "No test reads text descriptors other than through fixed expected strings.",
  [PA + "hex.py", PA + "code.py"], [("Hex.read", PA + "hex.py"), ("Code.read", PA + "code.py")],
  "symbolic digits, separators, and comments of up to 4 arbitrary characters; regular expressions are executed "
  "symbolically by the machinery's own matcher")

p("C06", "The annotated listing says what the bytes say",
  "In code output every item is one line, its bytes come first, and the comment names that item, value, flags, "
  "collection kind, unit or usage truthfully; usages are named after the usage page in force at that point. "
  "Comments are indented by collection nesting.",
  ["inputs", "histories"], "every item and value; usage pages set, pushed and popped; nestings within the bounds",
  "Comments are dropped when tests compare code, so nothing checks them.",
  [F + "code.py", S + "item.py", PA + "base.py", U + "usage.py"],
  [("Code.append", F + "code.py"), ("Item.__str__", S + "item.py"), ("Parser.append", PA + "base.py")],
  "every 32-bit value per item type, against an independent table of names")

p("C07", "Compiling a tree without optimization declares exactly that tree",
  "The item stream compiled from a descriptor tree declares the same collections, controls and arrays as the tree, "
  "in the same order: usages, kinds, flags, logical and physical bounds, units, sizes, counts, designators, "
  "strings, report ids and named arrays. The stream is a valid descriptor (balanced collections).",
  ["programs", "inputs"], "trees of the shapes within the bounds, every attribute symbolic",
  "Four fixed descriptors are compiled by the tests, all of them optimized.",
  [D + "streamer.py", D + "descriptor.py"], [("Streamer.enter/leave/element", D + "streamer.py"), ("Value", D + "descriptor.py")],
  "40 tree shapes of up to 4 elements; attributes symbolic over their whole field")

p("C08", "Reports are laid out as declared",
  "Each control sits at the bit offset its declaration calls for: values are aligned to their alignment (by default "
  "their size, at most 8 bits), Align and Padding take the room they say, and offsets run separately for each "
  "report id and each of input, output and feature. Padding is never larger than needed, with or without optimization.",
  ["programs", "inputs"], "trees of the shapes within the bounds, sizes, counts, alignments and report ids symbolic",
  "Alignment depends on accumulated size modulo alignment per report and way; the tests hold four such histories.",
  [D + "streamer.py", D + "descriptor.py"], [("Streamer.report_size", D + "streamer.py")],
  "shapes of up to 4 elements, sizes 1..32 bits and more")

p("C09", "Optimized compilation declares exactly the tree",
  "Optimization never changes what a compiled tree declares: collections, controls, their attributes and their "
  "offsets in each report are those of the tree. The optimized stream is a valid "
  "descriptor.",
  ["programs", "inputs"], "trees of the shapes within the bounds, every attribute symbolic",
  "Merging depends on which attributes of neighbours coincide; the tests hold four fixed coincidence patterns.",
  [D + "streamer.py", O + "base.py", O + "main_merge.py", O + "physical_merge.py", O + "usage_page.py",
   O + "global_merge.py", O + "range_merge.py"],
  [("Optimizer.new chain", O + "base.py")],
  "40 tree shapes of up to 4 elements; equality patterns among attributes are decided by the solver")

p("C10", "Optimizing any descriptor preserves its meaning",
  "Optimizing an arbitrary valid item stream (hand-written or parsed, with Push/Pop, ranges, delimiters, short "
  "usages, items in any order) leaves collections, controls, attributes and report layout unchanged. No item that "
  "matters is lost, moved across what it affects, or made to apply elsewhere.",
  ["inputs", "histories"], "item streams of the templates within the bounds, values symbolic",
  "Every pass keeps state across items; only what the compiler emits for four trees is ever run through them.",
  [O], [("optimizer passes", O)],
  "69 stream templates of up to 16 items with alternatives, values symbolic")

p("C12", "Decompiling a descriptor gives a tree with the same meaning",
  "The tree extracted from a valid descriptor declares the same collections, controls, arrays, report ids, "
  "attributes and bit offsets as the descriptor: Push/Pop, usage, string and designator ranges, pages and counts "
  "are accounted for, and constant fields become padding.",
  ["inputs", "histories"], "item streams of the templates and compiled trees of the shapes within the bounds",
  "No test decompiles anything.",
  [D + "extractor.py", D + "descriptor.py"], [("Extractor", D + "extractor.py")],
  "33 stream templates and 45 compiled tree shapes, plain and optimized; one usage, string and designator per "
  "control, named arrays as long as their range (what the tree language can express)")

p("C13", "Decompiling then recompiling keeps the meaning",
  "A descriptor that is decompiled and compiled again, optimized or not, declares the same collections, controls, "
  "arrays, attributes, report ids and bit offsets as the original.",
  ["inputs", "histories"], "item streams of the templates and compiled trees of the shapes within the bounds",
  "No test goes through the decompiler.",
  [D + "extractor.py", D + "streamer.py", O], [("Extractor then Streamer then Optimizer", D)],
  "the templates and shapes of C12, through the compiler and optimizer")

p("C15", "Usage lookup is exact and names denote their values",
  "Looking up any usage gives that very value, under a name that evaluates to it in a script or its number when it "
  "has none; usages keep to the page of their table, and page names are those of the tables. A usage range stands "
  "for its consecutive usages in order, an array becomes a range only when its usages are consecutive, and usage "
  "types are those declared. The codes and types in the tables are those of the USB-IF HID usage tables.",
  ["inputs"], "every 32-bit usage, every page, ranges and arrays within the bounds",
  "Tests refer to a handful of usages out of about 1500 in the tables and 2^32 values.",
  [U + "usage.py", U], [("Usage.lookup, Usage.inpage, UsageRange", U + "usage.py")],
  "every 32-bit value; about 1300 usages as listed in checks/hut.py")

EXTRA = os.path.join(HERE, "tools", "meta_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, n in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, n in P:
    c = d["id"]
    checks.append(dict(property=c, quick_cmd="python3-vt run.py %s --tier quick" % c,
                       thorough_cmd="python3-vt run.py %s --tier thorough" % c,
                       evidence_file="evidence/%s.json" % c,
                       technique="symbolic execution of the package's Python source, assertions decided by an SMT solver (z3, cross-checked with cvc5), counterexamples replayed natively",
                       level="model_checking",
                       level_note="Bounded: " + n + ". Trusts the symbolic equivalents of Python builtins (validated natively on sampled paths), z3, and the check's own reading of the HID 1.11 specification."))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5' && mkdir -p evidence replays", checks=checks, not_applicable=NA if "NA" in globals() else [],
         notes="No hooks in /repo: the checks instrument the package's source at import time, from /repo's working tree.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
