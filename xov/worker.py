import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove
mod = json.load(open(sys.argv[1], encoding='latin-1'))
r = prove.prove(mod, sys.argv[2], json.loads(sys.argv[3]))
sys.stdout.write(json.dumps(r))
