#!/bin/bash
# mkseed.sh ID PROPERTY [notest]: turn the change in /tmp/mut (a cp -a of /repo) into seeded/ID, validating it.
# seeded/ID/demo.sh and meta.json must exist.
id=$1; prop=$2
d=/verif/seeded/$id
git -C /tmp/mut diff -- neps > "$d/patch.diff"
git -C /repo apply --check "$d/patch.diff" || { echo "BAD: does not apply"; exit 1; }
t=$(mktemp -d); cp -r "$d"/. "$t"/; rm -f "$t"/patch.diff "$t"/meta.json
(cd /repo && timeout 300 bash "$t/demo.sh" >/tmp/demo0.log 2>&1); a=$?
(cd /tmp/mut && timeout 300 bash "$t/demo.sh" >/tmp/demo1.log 2>&1); b=$?
rm -rf "$t"
echo "$id demo clean=$a mutant=$b"
[ $a = 0 ] && [ $b != 0 ] || { tail -n 5 /tmp/demo0.log /tmp/demo1.log; echo "BAD demo"; }
if [ "$3" != notest ]; then
  cd /tmp/mut && PYTHONPATH=/tmp/mut PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  /opt/venv/bin/python -m pytest -q -m "" -p no:cacheprovider --timeout=300 -n 6 --dist loadscope --continue-on-collection-errors \
    --deselect "tests/test_examples.py::test_ci_examples[convenience/neps_tblogger_tutorial]" -o junit_family=xunit2 --junitxml=/tmp/mut-junit.xml >/tmp/mut-test.log 2>&1
  rm -rf /tmp/mut/tests_tmpdir /tmp/mut/tests/test_yaml_run_args/test_run_args_by_neps_run/results
  python3 /opt/vp/results.py /tmp/mut-out.json junit:/tmp/mut-junit.xml >/dev/null
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/mut-out.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable',len(b['stable']),'missing',len(miss), miss[:5])
P
fi
(cd /verif && NEPS_SRC=/tmp/mut timeout 900 bash run.sh $prop | tail -4)
