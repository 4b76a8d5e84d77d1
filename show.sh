#!/bin/sh
# print the component statistics of an evidence file
python3 -c "
import json,sys; e=json.load(open('/verif/evidence/$1.json'))
for n,c in e['coverage']['components'].items(): print(n,c)
"
