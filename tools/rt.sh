cd /verif; VC_REPO=${VC_REPO:-/repo} /opt/venv/bin/python rt/run.py $1 --seed ${2:-1} --tier ${3:-quick} --json /tmp/r_$1.json --cap 200 >/dev/null; python3 -c "
import json;d=json.load(open('/tmp/r_$1.json'));print(d['checks']);
for f in d['failures'][:3]: print(f['check'],f['message'][:500])"
