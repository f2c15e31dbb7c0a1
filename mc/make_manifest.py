"""Writes MANIFEST.json: one entry per check module that is registered below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROG = ('explicit-state exploration of programs executed on the real transformation: every program of the stated alphabet '
        '(level-synchronous, merged by the abstract state reached) is executed and compared with the reference semantics')
TRUST = ('Exhaustive within the bounds printed in the evidence; assumes that numeric inputs in general position (values without ties, fixed '
         'per seed) represent all inputs of a program, trusts JAX forward-mode differentiation as the reference, and confirms every violation on stock XLA.')
T = {
    'C01': (PROG, TRUST), 'C02': (PROG + ', for every threshold', TRUST), 'C03': (PROG + '; all small sparse Jacobians and all their pairs', TRUST),
    'C04': ('exhaustive enumeration of equivalent representations of propagated inputs x operations, executed on the real rules', TRUST),
    'C05': (PROG, TRUST), 'C06': (PROG, TRUST), 'C07': (PROG, TRUST),
    'C08': ('exhaustive enumeration of control-flow programs (bodies x carries x nesting x thresholds) executed on the real interpreter', TRUST),
    'C09': (PROG, TRUST), 'C10': (PROG, TRUST), 'C11': ('exhaustive enumeration of programs x weight prefixes x thresholds', TRUST),
    'C12': ('exhaustive enumeration of argument and result structures executed on the real wrapper', TRUST),
    'C13': ('exhaustive enumeration of dtype assignments x programs x thresholds', TRUST),
    'C14': ('exhaustive enumeration of call histories and transformation nestings, compared with fresh calls', TRUST),
    'C15': ('explicit-state exploration of all registration histories up to the depth bound against a map model, replayed on the real registry', TRUST),
    'C16': ('exhaustive fault enumeration: a failure at every compile-time evaluation point and pair of points of every program', TRUST),
    'C17': (PROG, TRUST), 'C18': ('exhaustive enumeration of batch configurations against plain vectorization', TRUST),
    'C19': ('exhaustive enumeration of memory limits, fractions, devices and functions with recorded stand-ins for the device', TRUST),
    'C20': (PROG, TRUST),
    'C21': ('stateless model checking of the real code: all thread interleavings at the scheduling points up to a preemption bound under a controlled scheduler', TRUST),
    'C22': ('explicit enumeration of all data-flow graphs up to the size bound, executed on the real interpreter with release monitors', TRUST),
    'C23': ('exhaustive enumeration of truthful annotations x operations x operand structures x thresholds', TRUST),
    'C24': (PROG, TRUST),
    'C26': ('exhaustive enumeration of library operations x operand structures x thresholds, executed on the real transformation', TRUST),
    'C25': ('exhaustive enumeration of the networks assembled from blocks, executed on the real transformation', TRUST),
}
LEVEL = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', f'{i.lower()}.py')):
            tech, note = T[i]
            checks.append(dict(
                property=i, quick_cmd=f'/opt/venv/bin/python mc/run.py {i} quick', thorough_cmd=f'/opt/venv/bin/python mc/run.py {i} thorough',
                evidence_file=f'evidence/{i}.json', technique=tech, level=LEVEL.get(i, 'model_checking'), level_note=note))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python mc/selftest.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo are needed: the machinery drives the public interface and monkeypatches from the harness process.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
