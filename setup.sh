#!/bin/sh
# nothing to build: both parts read /repo's current source; check that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import vf, z3, cvc5, pydantic, graphql, libcst, strawberry
print("z3", z3.get_version_string(), "pydantic", pydantic.VERSION, "graphql-core", graphql.version)
P
