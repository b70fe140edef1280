#!/bin/bash
# Builds the framework once, to warm the build cache; every check builds again from /repo's tree.
set -e
cd "$(dirname "$0")"
exec bash ./run.sh build
