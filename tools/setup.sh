#!/bin/sh
# nothing to build ahead: every check compiles what it needs from /repo's current tree
cbmc --version >/dev/null && goto-cc --version >/dev/null && clang --version >/dev/null && python3-vt -c "import z3, numpy"
