#!/bin/bash
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
