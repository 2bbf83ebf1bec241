"""compare a test.sh result with the baseline: prints stable tests that do not pass"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    raise SystemExit(f"keys {list(x)}")
bs=names(b); os_=names(o)
print('baseline',len(bs),'missing',sorted(bs-os_)[:20])
sys.exit(bool(bs-os_))
