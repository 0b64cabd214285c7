#!/bin/bash
PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
