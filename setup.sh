#!/bin/bash
# Nothing persistent to build: every check rebuilds gemlog's native parser from /repo's working tree into its own
# scratch folder.  This only confirms that the build and the harness work here.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, 'lib')
import boot
boot.install()
import gemlog, gemlog.parsers
print('gemlog from', gemlog.__file__, 'parser from', gemlog.parsers.__file__)
P
