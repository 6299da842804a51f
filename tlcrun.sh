#!/bin/sh
# tlcrun.sh MODULE [CFG] [options]: run TLC on a module of the specification
m=$1; c=${2:-$1.cfg}; shift; [ $# -gt 0 ] && shift
d=$(mktemp -d); cd "$(dirname "$0")/spec" || exit 2
java -XX:+UseParallelGC -Xmx8g -Xss400m -Djava.io.tmpdir=$d -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 6 -metadir $d -config $c "$@" $m.tla
r=$?; rm -rf "$d"; exit $r
