#!/usr/bin/env python3
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
want=b['stable']
lost=sorted(set(want)-set(o['passed'])); print('tests lost:',lost)
