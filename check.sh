#!/bin/bash
# usage: check.sh PROPERTY...   builds the analyser and decides the properties on /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec "$SA" check "$@"
