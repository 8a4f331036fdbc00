#!/bin/bash
# Nothing is installed: checks compile their harness from /repo's working tree themselves. This verifies the tools.
set -e
cd "$(dirname "$(readlink -f "$0")")"
command -v clang++-18 >/dev/null
command -v python3 >/dev/null
mkdir -p evidence replays .build
echo '#include <vector>
int main(){std::vector<int> v(3);return (int)v.size()-3;}' > .build/probe.cpp
clang++-18 -std=c++17 -stdlib=libc++ -fsanitize=address,undefined .build/probe.cpp -o .build/probe
.build/probe
echo setup ok
