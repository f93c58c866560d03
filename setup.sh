#!/bin/bash
# Builds the explorer from the committed files, offline.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
exec ./check.sh build
