#!/bin/bash
# exit 0 iff the recorded world still gives the recorded behaviour
exec python3 "$(cd "$(dirname "$0")" && pwd)/capdemo.py"
