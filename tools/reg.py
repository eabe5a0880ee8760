"""usage: reg.py PROP technique note [fix message=PROP ...]"""
import json, sys
c=json.load(open('tools/checks.json'))
c[sys.argv[1]]={"technique":sys.argv[2],"level":"model_checking","note":sys.argv[3]}
json.dump(c,open('tools/checks.json','w'),indent=1,ensure_ascii=False)
f=json.load(open('tools/fixed_props.json'))
for m in sys.argv[4:]:
    f[m]=sys.argv[1]
json.dump(f,open('tools/fixed_props.json','w'),indent=1,ensure_ascii=False)
