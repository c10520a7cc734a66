"""list the bounded stand-ins recorded in the evidence of the named checks"""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % p))
    for b in e['coverage']['bounded_standins']: print(p, b['function'], '|', b['reason'][:200])
