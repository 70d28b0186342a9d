#!/bin/bash
# Checks that everything builds offline; each check builds for itself again.
cd "$(dirname "$0")" || exit 1
s=$(mktemp -d /tmp/vf-setup-XXXXXX) || exit 1
trap 'rm -rf "$s"' EXIT
./build.sh "$s" && "$s/bin/harness" list
