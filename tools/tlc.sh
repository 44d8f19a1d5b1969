#!/bin/bash
# TLC with the specification's primitive overrides on the class path
exec java -XX:+UseSerialGC ${JOPT:--Xmx3g} -cp /verif/build:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -Djava.io.tmpdir=${TLCTMP:-/tmp} tlc2.TLC "$@"
