#!/bin/sh
VERIF_TIER=thorough exec sh "$(dirname "$0")/check.sh" "$@"
