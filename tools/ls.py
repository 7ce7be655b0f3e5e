"""lists the contracts per property"""
import sys,warnings,os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
from pyvc import contract as K
K.load_all()
for n,c in sorted(K.REGISTRY.items(), key=lambda x:(x[1].prop if isinstance(x[1].prop,str) else x[1].prop[0])):
    print(c.prop, n, c.level, c.target.split(':')[1], '|', c.why_bounded[:90])
