#!/bin/bash
# builds the harness and lets TLC write the stimuli that do not depend on /repo
cd "$(dirname "$0")" && exec python3 tools/setup.py
