#!/bin/bash
# Builds the AST exporter; the checks rebuild it themselves if it is missing.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import sys; sys.path.insert(0, "vc"); import extract; extract.ensure_astdump()'
