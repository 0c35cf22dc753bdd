#!/bin/bash
# builds and runs the demonstration beside this file against the library built in /repo/_build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
I=/opt/vp/deps/idyntree
g++ -std=c++17 -O1 -w -include cstdint -I"$D" -I/repo/include -I/usr/include/eigen3 -I/repo/extern/levi/include -I/repo/_build/extern/levi/autogenerated \
    -I/repo/extern/levi/deps/zupply/include -I/repo/extern/levi/deps/sharedlibpp/src -I/repo/_build/extern/levi/deps/sharedlibpp/src \
    -isystem $I/include "$D/demo.cpp" -o "$W/demo" -Wl,-rpath,/repo/_build/lib:$I/lib -L/repo/_build/lib -L$I/lib \
    -lDynamicalPlanner -lDynamicalPlannerPrivate -lzupply -lshlibpp -lidyntree-optimalcontrol -lidyntree-inverse-kinematics -lidyntree-high-level \
    -lidyntree-estimation -lidyntree-modelio -lidyntree-model -lidyntree-core -lpthread -ldl || exit 4
cd "$W" && timeout 250 ./demo
