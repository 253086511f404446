#!/bin/bash
# builds the exporter and warms the parse cache (checks do the same on demand)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, 'analyzer'); sys.dont_write_bytecode = True
from sa import build
print(build.export())"
