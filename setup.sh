#!/bin/bash
# nothing to build: the checks import /repo's current source; just make sure the tools are there
set -e
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '.')
from vsym.z3path import z3; print('z3', z3.get_version_string())"
