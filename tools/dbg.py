import sys,json
sys.path.insert(0,'/verif')
import pbt.bootstrap as B
B.setup() if hasattr(B,"setup") else None
from pbt import world as W
c=json.load(open(sys.argv[1]))['case']
with W.scratch() as r:
    W.write_inputs(c,r)
    print(W.dsdict(c,r))
    w=W.execute(c,r)
    for x in w: print(x.message)
    import os; print(os.listdir(r))
