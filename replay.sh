#!/bin/bash
F=$(realpath "${1:?usage: replay.sh FILE}")
cd "$(dirname "$0")" && exec /opt/venv/bin/python check.py --replay "$F"
