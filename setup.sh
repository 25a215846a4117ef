#!/bin/sh
# Builds the AST extractor from the committed sources.
cd "$(dirname "$0")" && mkdir -p .build evidence && exec python3-vt -c "
import sys; sys.path.insert(0, '.')
from vc.front import ensure_astx
print(ensure_astx())"
