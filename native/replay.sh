#!/bin/bash
# replay.sh PROP VARIANT SEED SECS [CASE-SEED]: re-runs a harness on /repo's current tree
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
(cd "$here/.." && python3-vt -c "
import sys; sys.path.insert(0,'.')
from cvf.frontend import tu_text
t,i=tu_text('${REPO:-/repo}','$2'); open('$d/tu.h','w').write(t); open('$d/inc','w').write(' '.join('-I'+x for x in i))")
bash "$here/build.sh" "$1" "$d/tu.h" "$d/h" $(cat "$d/inc") || exit 2
cd "$d"; p=$1; shift 2
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:detect_odr_violation=0:allow_user_segv_handler=1:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0 UBSAN_OPTIONS=print_stacktrace=0:exitcode=99
./h "$@"
