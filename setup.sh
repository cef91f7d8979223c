#!/bin/bash
# Nothing is built: the code under test is imported from /repo. Check that the interpreter and Hypothesis are there.
set -e
cd "$(dirname "$0")"
exec /opt/venv/bin/python -B -c "import vf.core, lxml, cryptography; print('ready')"
