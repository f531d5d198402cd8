#!/bin/bash
# Builds the framework once from the committed files (warms the build cache); every check builds again from /repo.
d=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 1
"$(dirname "$0")/run.sh" build "$d"; rc=$?
/bin/rm -rf "$d"
exit $rc
