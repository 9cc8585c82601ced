#!/bin/sh
# Builds the fact extractor and extracts the facts of the current tree into the cache (evidence/.cache).
set -e
cd "$(dirname "$0")"
python3 -B -c "
import sys; sys.path.insert(0,'lib')
import facts
print(facts.build_tool())
p = facts.Program()
print(p.units, 'units', len(p.fns), 'functions')
"
