#!/bin/bash
# bash check.sh PROPERTY quick|thorough
# bash check.sh PROPERTY --replay FILE
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
export PYTHONPATH="$ROOT"
cd "$ROOT" || exit 2
bash "$ROOT/shim/build.sh" || exit 2
exec python -W ignore -m dst.check "$@"
