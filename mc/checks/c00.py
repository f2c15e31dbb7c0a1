"""survey (not registered)"""
import catalog as K
import os
from prog import run_program
def roots(tier):
    sel = os.environ.get('SEL')
    for p, (ins, pre, sh) in K.PRELUDES.items():
        if sel and p not in sel.split(','): continue
        a = f'v[{len(ins)+len(pre)-1}]'
        for e in dict.fromkeys(K.all_unary(a, sh)):
            yield dict(**{'in': ins}, prog=pre + [e], th=[0, 1, 2, 100], mode='e', pre=p)
CHUNK=8
def run(case, seed, tier):
    return run_program(case, seed)
