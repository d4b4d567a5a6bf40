#!/bin/bash
# Compiles the C code of /repo once (checks rebuild by themselves when it changed).
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c 'from vt import env; env.deps_dir(); print(env.build("release")); print(env.build("asan"))'
