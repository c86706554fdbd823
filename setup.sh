#!/bin/bash
# Nothing to compile: check that the interpreter and the repository are usable
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
mkdir -p evidence
exec "$py" -B -c "import ast, glob; [ast.parse(open(f, encoding='utf-8').read()) for f in glob.glob('mc/**/*.py', recursive=True)]; print('ok')"
