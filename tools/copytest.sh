#!/bin/bash
# development aid: run the repository's tests against a scratch copy; copytest.sh COPY OUT.json
C=$1; OUT=$(realpath -m "$2")
export HOME=/root PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p /tmp/sc
cat > /tmp/sc/sitecustomize.py <<'P'
import os, sys
_c = os.environ.get('HCOPY')
if _c:
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != 'ScikitBuildRedirectingFinder']
    sys.path.insert(0, _c)
P
W=$(mktemp -d /tmp/hXXXXXX)
trap 'pkill -9 -f "$W" ; rm -rf "$W"' EXIT
cd "$W"
export HCOPY=$C PYTHONPATH=/tmp/sc:$C/tests PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TMPDIR="$W"
export RAY_TMPDIR="$W" RAY_USAGE_STATS_ENABLED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
T=$C/tests; U=$T/unit_tests/fec
timeout -k 10 840 /opt/venv/bin/python -m pytest -q --rootdir=$C -p no:cacheprovider -n 8 --timeout=300 \
  --continue-on-collection-errors -o junit_family=xunit2 -o python_functions=no_functions -o python_classes=no_classes \
  --tb=short --junitxml="$W/report.xml" \
  --ignore=$U/test_bch.py --ignore=$U/test_ldpc.py --ignore=$U/test_polar.py --ignore=$U/test_rs.py \
  --ignore=$U/test_rsc.py --ignore=$U/test_turbo.py --ignore=$T/integration_tests/test_fec.py \
  $T/unit_tests $T/integration_tests $T/integrity_tests/documentation/test_plots.py $T/integrity_tests/documentation/test_readme.py > /tmp/copytest.log 2>&1
tail -3 /tmp/copytest.log
rm -f "$OUT"
python3 /opt/vp/results.py "$OUT" junit:"$W/report.xml"
python3 - "$OUT" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(sys.argv[1]))
p = set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
print('MISSING', [x for x in b if x not in p])
P
