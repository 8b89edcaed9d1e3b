#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
for k,v in d['coverage']['subchecks'].items(): print(k,v['evaluations'],v['distinct_nontrivial'],v['skip_reasons'],v['worker_wall_s'],v['classes'])
