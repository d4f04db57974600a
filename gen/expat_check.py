#!/usr/bin/env python3
"""Compares the reference parser with expat: reads the lines of the `dump` binary, prints what the
two disagree about and a summary.

Expat differs where it has to: it normalises line ends and white space in attribute values (both
sides are normalised here), supports document types (documents with one are skipped), knows a list
of encodings only, takes any version number, and uses the names of XML 1.0's fourth edition (verdicts on documents with names
outside ASCII are compared only if expat accepts)."""
import json
import re
import sys
import xml.parsers.expat as expat

SEP = "\x1f"
WHITE = str.maketrans("\t\n\r", "   ")


def text(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def split(name):
    ns, _, local = name.rpartition(SEP)
    return ns.translate(WHITE), local


def parse(xml):
    root = []
    stack = [["", "", [], root]]
    p = expat.ParserCreate(encoding="utf-8", namespace_separator=SEP)
    p.buffer_text = True
    p.ordered_attributes = True

    def start(name, attrs):
        pairs = [[*split(attrs[i]), attrs[i + 1].translate(WHITE)] for i in range(0, len(attrs), 2)]
        e = [*split(name), sorted(pairs), []]
        stack[-1][3].append(e)
        stack.append(e)

    def data(s):
        kids = stack[-1][3]
        if kids and isinstance(kids[-1], str):
            kids[-1] += s
        else:
            kids.append(s)

    p.StartElementHandler, p.CharacterDataHandler = start, data
    p.EndElementHandler = lambda name: stack.pop()
    p.Parse(xml.encode(), True)
    return clean(root[0])


def clean(e):
    return [text(e[0]).translate(WHITE), e[1], sorted([text(n).translate(WHITE), l, text(v).translate(WHITE)] for n, l, v in e[2]),
            [text(k) if isinstance(k, str) else clean(k) for k in e[3]]]


def squeeze(e):
    """Attribute values with white space runs as one: \\r\\n counts as two blanks for the reference parser"""
    return [re.sub(" +", " ", e[0]), e[1], [[re.sub(" +", " ", n), l, re.sub(" +", " ", v)] for n, l, v in e[2]],
            [k if isinstance(k, str) else squeeze(k) for k in e[3]]]


def main():
    agreed = {"accepted": 0, "refused": 0, "skipped": 0}
    bad = 0
    for line in sys.stdin:
        xml, verdict, tree = json.loads(line)
        if "<!DOCTYPE" in xml or re.search(r"<\?xml[^>]*encoding\s*=\s*.(?!UTF-8)", xml):
            agreed["skipped"] += 1
            continue
        try:
            got, error = parse(xml), None
        except expat.ExpatError as e:
            got, error = None, e
        if (error is None) != (verdict == "ok"):
            # Names of the fifth edition; expat does not look at version numbers
            if error is not None and re.search(r"[^\x00-\x7f]", xml) or verdict == "Prolog":
                agreed["skipped"] += 1
                continue
            bad += 1
            print(f"{xml!r}: expat {error or 'accepts'}, reference {verdict}")
        elif error is None and squeeze(got) != squeeze(clean(tree)):
            bad += 1
            print(f"{xml!r}:\n  expat     {squeeze(got)}\n  reference {squeeze(clean(tree))}")
        else:
            agreed["accepted" if error is None else "refused"] += 1
        if bad > 10:
            break
    print(json.dumps(dict(agreed, disagreed=bad)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
