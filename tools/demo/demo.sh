#!/bin/bash
# cwd: the repository, built. Exit 0 when the behaviour is right.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
