#!/bin/bash
# builds the fact extractor and warms the facts of the current tree
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 python3 -c "
import sys; sys.path.insert(0, 'lib'); sys.setrecursionlimit(20000)
import facts; facts.extract()
import cir
"
