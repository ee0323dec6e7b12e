"""tech.py ID 'technique' 'level note': adds or replaces an entry"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"techniques.json")
t=json.load(open(p)); t[sys.argv[1]]=[sys.argv[2],sys.argv[3]]
json.dump(dict(sorted(t.items())),open(p,"w"),ensure_ascii=False,indent=1)
