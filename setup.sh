#!/bin/sh
# builds the fact extractor (also done on demand by each check)
cd "$(dirname "$0")" && exec python3 -c 'from vlib import facts; facts.ensure_tool()'
