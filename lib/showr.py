import json,sys
sys.path.insert(0,__import__('os').path.dirname(__file__))
import show
v=json.load(open(sys.argv[1]))
r=dict(v["rec"])
print(v["why"])
try: show.show(r)
except Exception as e: print(e)
