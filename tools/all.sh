#!/bin/bash
# regenerates the documents from their sources
cd "$(dirname "$0")/.." && python3 tools/mkprops.py && python3 tools/bounds_src.py && python3 tools/mkmanifest.py && python3 tools/mkdesign.py
