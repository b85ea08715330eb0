#!/bin/bash
# check.sh PROPERTY [--thorough]: decides one property of /repo's current working tree
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -x bin/gvc ] || ./build.sh || exit 2
exec bin/gvc check "$@"
