#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken.  Run in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset JYTHONPATH PYTHONPATH CLASSPATH JYTHON_HOME
exec timeout 120 java -Xss4m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython \
    -Dpython.cachedir.skip=true -Dpython.path="$PWD:/opt/vp/pyogp/site:$here" org.python.util.jython -B "$here/demo.py"
