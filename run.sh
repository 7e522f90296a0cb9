#!/bin/bash
# bash run.sh ID [--thorough] [--replay FILE]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
HERE=$PWD
. /opt/vp/env.sh
if ! (cd /repo && find ros_bt_py_interfaces -type f | LC_ALL=C sort | xargs sha256sum) | cmp -s - "$HERE/mc/interfaces.sha256" ||
   [ ! -d "$PREFIX/lib/python3.12/site-packages/ros_bt_py_interfaces" ]; then
  # The interface definitions differ from those the installed messages were built from: build them apart.
  BUILD=$(mktemp -d) && trap 'rm -rf "$BUILD"' EXIT
  env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv /usr/bin/cmake -S /repo/ros_bt_py_interfaces -B "$BUILD/obj" \
    -DCMAKE_INSTALL_PREFIX="$BUILD/install" -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=OFF \
    -DPython3_EXECUTABLE=/opt/venv/bin/python3 >"$BUILD/log" 2>&1 &&
  env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv /usr/bin/cmake --build "$BUILD/obj" -j8 >>"$BUILD/log" 2>&1 &&
  env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv /usr/bin/cmake --install "$BUILD/obj" >>"$BUILD/log" 2>&1 || tail -20 "$BUILD/log"
  export AMENT_PREFIX_PATH="$BUILD/install:/opt/venv"
  export PYTHONPATH="/repo/ros_bt_py:$BUILD/install/lib/python3.12/site-packages"
  export LD_LIBRARY_PATH="$BUILD/install/lib:${LD_LIBRARY_PATH#*:}"
fi
PYTHONPATH="$HERE:$PYTHONPATH" /opt/venv/bin/python -m mc.main "$@"
exit $?
