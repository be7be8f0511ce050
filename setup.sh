#!/bin/bash
# Builds the monitors once; every check rebuilds what changed in /repo.
cd /verif || exit 1
source /verif/tools/env.sh
build_core || exit 1
build_cli || exit 1
build_san address asan || exit 1
build_san thread tsan || exit 1
exit 0
