#!/bin/bash
# Nothing to build: the checks are Python and import optbinning straight from
# /repo.  Verify that what they need is there.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
exec "$HERE/run.sh" --selftest
