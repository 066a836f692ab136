#!/bin/bash
# Nothing to build (pure Python); proves that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD /opt/venv/bin/python -c 'import pdfme, PIL, fontTools, vf.pdfread, vf.metrics; print("ok", pdfme.__file__)'
