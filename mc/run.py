"""run.py C01 [quick|thorough]     explore property C01
run.py --replay FILE              re-execute one recorded violation (stock XLA backend)
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

core.setup_env()


def load_known():
    p = os.path.join(core.ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def main():
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        core.setup_jax(stock=not os.environ.get('MC_NPX'))
        mod = core.load_check(rec['property'])
        r = core.run_one(mod, rec['case'], rec['seed'], rec['tier'])
        print(json.dumps(rec['case']))
        for b in r.bad:
            print('BAD', b)
        print('REPRODUCED' if r.bad else 'NOT REPRODUCED')
        sys.exit(1 if r.bad else 0)

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev_path = os.path.join(core.ROOT, 'evidence', f'{pid}.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    mod = core.load_check(pid)
    limit = 420 if tier == 'quick' else float(os.environ.get('MC_BUDGET', '3000'))
    ex = core.Explorer(pid, tier, seed, stop_after=int(os.environ.get('MC_STOP', '4')), deadline=t0 + limit,
                       known=[k for k in load_known() if k.get('property') == pid and 'case' in k])
    ex.explore(mod)
    viol = []
    unconfirmed = []
    for case, msgs in ex.bad:
        path = core.write_replay(pid, seed, tier, case, msgs)
        if len(viol) >= 1 and len(viol) + len(unconfirmed) >= 3:
            continue
        ok, out = core.confirm(path)
        if ok:
            viol.append((path, msgs))
        else:
            unconfirmed.append(dict(case=case, msgs=msgs, replay=out[-600:]))
            os.remove(path)
    wall = time.time() - t0
    # ---- evidence
    level = getattr(mod, 'LEVEL', 'model_checking')
    sample_cases = [json.loads(json.dumps(c)) for _, c in ex.times[:: max(1, len(ex.times) // 4)][:4]]
    cov = dict(samples=sample_cases, exhaustive=bool(ex.complete))
    if level == 'model_checking':
        cov.update(
            states=len(ex.states), transitions=ex.transitions,
            traces_validated_against_impl=ex.runs,
            explanation='states: distinct abstract states reached; transitions: programs/histories/schedules '
            'executed on the real code; traces_validated_against_impl: executions of the implementation '
            '(per threshold and mode) whose complete result was compared with the oracle.',
        )
    else:
        cov.update(evaluations=ex.runs, distinct_nontrivial=ex.nontrivial,
                   rule=getattr(mod, 'RULE', ''), cases=ex.transitions, states=len(ex.states))
    cov['levels'] = ex.levels
    cov['not_applicable_cases'] = ex.skips
    cov['bounds'] = getattr(mod, 'BOUNDS', {}).get(tier, '')
    if unconfirmed:
        cov['unconfirmed_on_stock_backend'] = unconfirmed[:5]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'leaf array kernels run through a NumPy evaluator that was cross-checked against XLA; every '
            'reported violation is re-executed on the stock XLA backend',
        ],
        wall_s=round(wall, 1), violations=len(viol),
    )
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    for what in sorted(ex.known_hit):
        print(f'KNOWN-FINDING: property={pid} {what}')
    print(
        f'{pid} {tier}: states={len(ex.states)} transitions={ex.transitions} runs={ex.runs} '
        f'skips={sum(ex.skips.values())} levels={ex.levels} complete={ex.complete} '
        f'violations={len(viol)} unconfirmed={len(unconfirmed)} wall={wall:.1f}s'
    )
    if os.environ.get('MC_PROF'):
        for dt, c in sorted(ex.times, key=lambda t: -t[0])[:12]:
            print(f'{dt:.2f}', json.dumps(c)[:200])
        print('total cpu', sum(t for t, _ in ex.times), ex.skips)
    if os.environ.get('MC_SHOW'):
        for case, msgs in ex.bad[: int(os.environ['MC_SHOW'])]:
            print(json.dumps(case)[:300], '\n    ', str(msgs)[:400])
    for path, msgs in viol:
        print('  ', str(msgs[0])[:400])
        print(f'VIOLATION property={pid} replay={path}')
    if unconfirmed:
        print('unconfirmed:', json.dumps(unconfirmed[0])[:600])
    if ex.transitions == 0:
        print('no transition explored')
        sys.exit(2)
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
