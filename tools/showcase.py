import json,sys
sys.path.insert(0,'/verif')
from ccnv.spec import render
d=json.load(open(sys.argv[1]));c=d['case'];print(d['message'][:700]);
print(render(c['spec'],0 if len(sys.argv)<3 else c['notation']))
