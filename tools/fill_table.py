"""Puts the table of seeded bugs between its marks in DESIGN.md."""
import os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.run([sys.executable, os.path.join(here, "tools", "seeded_table.py")], capture_output=True, text=True, check=True).stdout
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- end -->", lambda m: "<!-- seeded -->\n%s<!-- end -->" % t, s, flags=re.S)
open(p, "w").write(s)
