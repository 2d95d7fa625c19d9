#!/bin/bash
# usage: check.sh PROPERTY, in /verif
exec python3 -B "$(dirname "$0")/check.py" "$1"
