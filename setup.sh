#!/bin/bash
# nothing to install: every check compiles /repo's current sources itself. Only check that the tools are there.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 -c 'import sys; sys.path.insert(0,"."); import props; print(len(props.PROPS), "checks")'
