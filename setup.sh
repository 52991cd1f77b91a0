#!/bin/bash
# The checks build their harness from /repo's working tree themselves; this only verifies the tool chain.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 --version
printf '#include <tbb/global_control.h>\nint main(){}\n' | g++ -std=c++17 -x c++ - -fsanitize=address -o /dev/null -ltbb
echo "setup ok"
