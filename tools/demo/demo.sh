#!/bin/bash
# exit 0: the property holds here; cwd is the repository
exec python3 "$(dirname "$0")/demo.py"
