#!/bin/bash
# builds the IR dumper (LLVM 18 C++ API); everything else is Python
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0,'lib'); import ir; print(ir.tool_path())"
