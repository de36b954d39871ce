"""Nothing to build: the analyser is pure Python (standard library only).
Confirms that it and the current source of the repository can be parsed."""
import ast
import glob
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = 0
for pat in (here + '/check.py', here + '/sa/*.py', here + '/sa/checks/*.py'):
    for f in glob.glob(pat):
        ast.parse(open(f).read(), f)
        n += 1
print(f'python {sys.version.split()[0]}, {n} analyser files parse')
