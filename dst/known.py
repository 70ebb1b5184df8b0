"""Known findings: lines of /verif/known_findings.txt.

    finding: property=<id> key=<violation class> <what fails>
    fixed: property=<id> <commit> <what failed>

Only "finding" lines suppress anything, and only violations whose class is
exactly their key.
"""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load(prop):
    out = []
    if os.path.exists(FILE):
        for line in open(FILE):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def match(entries, violation):
    for key, what in entries:
        if violation["class"] == key:
            return what
    return None
