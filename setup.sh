#!/bin/bash
# Prebuild everything the checks need; every check rebuilds from /repo's current source anyway.
cd "$(dirname "$0")" || exit 1
exec python3 -c 'import check, concurrent.futures as c
x = c.ThreadPoolExecutor(3)
for f in [x.submit(check.build_symex), x.submit(check.build_ir, ["h_fqn"]), x.submit(check.build_native)]: f.result()'
