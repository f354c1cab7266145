#!/bin/bash
# run.sh check -property C01 [-tier quick|thorough] | verify ... | replay HARNESS SEED
cd "$(dirname "$0")" || exit 2
./setup.sh >&2 || exit 2
export HOME=${HOME:-/root}
exec bin/govc "$@"
