#!/bin/sh
# Builds the framework once, to see that everything it needs is there.
set -e
cd "$(dirname "$0")"
python3 -c 'import ast,sys;[ast.parse(open(f).read()) for f in sys.argv[1:]]' lib/*.py gen/*.py
./check C15 --scale 0.01
