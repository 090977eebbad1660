#!/bin/bash
# builds, what the checks need (into the git-ignored folder build) and checks, that the parts are importable
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
export PYTHONPATH="$ROOT"
cd "$ROOT" || exit 2
mkdir -p build evidence replays
bash "$ROOT/shim/build.sh" || exit 2
python -W ignore -c "
from dst import sched
sched.install()
import dst.registry, sumpf
print('seams installed, sumpf from', sumpf.__path__[0])"
