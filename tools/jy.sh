#!/bin/bash
# Jython with the interpreter settings the simulator needs
exec java -Xss4m -Xmx1500m -XX:+UseSerialGC -XX:+UnlockExperimentalVMOptions -XX:hashCode=3 -XX:TieredStopAtLevel=4 \
  -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
  -Dpython.path="${DST_REPO:-/repo}:/opt/vp/pyogp/site" org.python.util.jython -B "$@"
