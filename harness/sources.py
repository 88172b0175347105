"""Prints the .c and .cpp files of libpluto_la_SOURCES in lib/Makefile.am."""
import re
import sys

text = open(sys.argv[1]).read().replace("\\\n", " ")
m = re.search(r"^libpluto_la_SOURCES\s*=(.*)$", text, re.M)
print(" ".join(s for s in m.group(1).split() if s.endswith((".c", ".cpp"))))
