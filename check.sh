#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and run one property.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
"$here/build.sh" || exit 2
exec "$here/harness/target/release/harness" check "$@"
