#!/bin/bash
# Builds the harness once, to see that it can be.
set -e
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
bash "$(dirname "$0")/build.sh" "$d/b"
java -version 2>&1 | head -1
