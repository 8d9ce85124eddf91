#!/bin/sh
cd "$(dirname "$0")" && { cat head.md; python3 design.py; cat tail.md; } > ../../DESIGN.md
