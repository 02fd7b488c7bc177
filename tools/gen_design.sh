#!/bin/sh
cd "$(dirname "$0")/.." && { cat tools/design_head.md; python3 tools/gen_design_table.py; } > DESIGN.md
