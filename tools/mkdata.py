#!/usr/bin/env python3
"""Condenses a UnicodeData file into the oracle data used by the checks.

usage: mkdata.py UnicodeData.txt > unicode16.txt
Lines: first;last;category;pair;upper;lower;title (hex, empty if none).
The output for Unicode 16.0 is committed, so that the oracle does not depend
on /repo."""
import sys

def main():
    first = None
    for line in open(sys.argv[1]):
        p = line.rstrip("\n").split(";")
        cp = int(p[0], 16)
        if p[1].endswith(", First>"):
            first = cp
            continue
        lo = first if first is not None else cp
        first = None
        d = p[5].split()
        pair = "%s %s" % tuple(d) if len(d) == 2 and not d[0].startswith("<") else ""
        print("%X;%X;%s;%s;%s;%s;%s" % (lo, cp, p[2], pair, p[12], p[13], p[14]))

main()
