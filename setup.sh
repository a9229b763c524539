#!/bin/bash
# nothing to build: the verifier is Python over the installed clang, z3 and cvc5; check that they work
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
clang --version >/dev/null && python3-vt -c "import z3, cvc5, tdyver.harness"
