#!/bin/bash
# bash run.sh <property> [--tier quick|thorough] [--jobs N] [--replay FILE]
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -m mc.runner "$@"
