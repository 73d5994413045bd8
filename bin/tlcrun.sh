#!/bin/bash
# usage: tlcrun.sh secs args...
secs=$1; shift
exec timeout $secs java -Xss400m -Xmx3g -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':') tlc2.TLC "$@"
