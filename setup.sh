#!/bin/sh
# builds the MIR dumper (rustc_private driver)
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 exec python3 -c 'import sys
sys.path.insert(0, ".")
from nsa import build
print(build.driver())'
