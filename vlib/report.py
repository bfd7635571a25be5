"""Verdict lines, replay files and the evidence file."""
from __future__ import annotations

import json
import os

from . import env
from .meta import META, TRUSTED


def compact(ev, limit=900_000):
    """JSON of at most about 900 kB: the longest per-group lists are cut, the totals stay."""
    cov = ev['coverage']
    for cut in (None, 2000, 1000, 500, 250, 100):
        if cut:
            for k in ('bounded_shape_groups', 'obligation_groups'):
                if len(cov[k]) > cut:
                    cov[k] = cov[k][:: len(cov[k]) // cut + 1]
                    cov['groups_listed'] = f'every so many groups are listed to keep this file small (at most {cut} per list); the totals count all of them'
        t = json.dumps(ev, indent=None if cut else 1)
        if len(t) < limit:
            return t
    return t


def finish(prop, tier, seed, items, res, fails, skipped, wall, partial=False):
    from .runner import digest

    bounded = [r for r in res if r['kind'] == 'bounded']
    fixed = [r for r in res if r['kind'] == 'proof' and r.get('fixed')]
    proof = [r for r in res if r['kind'] == 'proof' and not r.get('fixed')]
    known = [r for r in res if r.get('known')]
    rc = 0
    if fails:
        rc = 1
        d = os.path.join(env.VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        for r in fails:
            p = os.path.join(d, f'{prop}-{digest(r["id"])}.json')
            with open(p, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, id=r['id'], kind=r['kind'], detail=r['detail'], rerun=f'python check.py {prop} --replay {p}'), f, indent=1)
            print(f'--- {r["id"]}\n{r["detail"]}')
            tail = ' no-failing-input-found' if r['kind'] != 'bounded' and 'failing input:' not in r['detail'] else ''
            print(f'VIOLATION property={prop} replay={p}{tail}')
    for r in known:
        print(f'KNOWN-FINDING: property={prop} {r["known"]}')
    disch = [r for r in proof if r['status'] == 'ok' and r.get('discharged', True)]
    unsup = [r for r in proof if r['status'] == 'ok' and not r.get('discharged', True)]
    m = META[prop]
    sample = sorted(bounded, key=lambda r: r['id'])
    ffix = [r for r in fixed if r['status'] == 'ok' and r.get('discharged', True)]
    names = sorted({f for r in proof + fixed for f in r.get('functions', [])})
    num = {f: i for i, f in enumerate(names)}
    cov = dict(
        evaluations=len(bounded) + len(fixed),
        distinct_nontrivial=len({r['id'] for r in bounded + fixed if not r.get('trivial')}),
        rule=m['rule'],
        samples=[r['id'] for r in sample[:: max(1, len(sample) // 12)]][:14],
        obligations=sum(r.get('goals', 1) for r in proof),
        discharged=sum(r.get('goals', 1) for r in disch),
        obligation_groups=[dict(id=r['id'], status='discharged' if r in disch else ('outside the verifier, bounded stand-in passed' if r in unsup else r['status']), goals=r.get('goals', 1), backend=r.get('backend', ''), functions=[num[f] for f in r.get('functions', [])], cpu_s=round(r.get('cpu', 0), 2), note=r.get('note', '')[:240]) for r in sorted(proof, key=lambda r: r['id'])],
        bounded_shape_obligations=sum(r.get('goals', 1) for r in fixed),
        bounded_shape_discharged=sum(r.get('goals', 1) for r in ffix),
        bounded_shape_groups=[dict(id=r['id'], bound=r['fixed'], goals=r.get('goals', 1), status='discharged for all values at the stated sizes' if r in ffix else 'outside the verifier, concrete stand-in passed', cpu_s=round(r.get('cpu', 0), 2)) for r in sorted(fixed, key=lambda r: r['id'])],
        function_numbers=names,
        functions_bounded_shape=sorted({f for r in ffix for f in r.get('functions', [])}),
        functions_under_contract=sorted({f for r in disch for f in r.get('functions', [])}),
        functions_bounded_only=m.get('bounded_functions', []),
        solver_cpu_s=round(sum(r.get('solver_s', 0) for r in proof), 3),
        obligation_cpu_s=round(sum(r.get('cpu', 0) for r in proof), 2),
        backends={b: sum(r.get('goals', 1) for r in disch if r.get('backend') == b) for b in sorted({r.get('backend', '') for r in disch})},
        checker_cmd=f'VERIF_TIER={tier} VERIF_SEED={seed} /opt/venv/bin/python check.py {prop}',
        trusted_base=TRUSTED + m.get('trusted', []),
        bounded_part=m.get('bounded', ''),
        not_run_within_budget=len(skipped),
        explanation=m['explain'],
        failures=[r['id'] for r in fails],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=m['level'], coverage=cov, wall_s=round(wall, 2))
    if not partial:
        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(env.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            f.write(compact(ev))
    print(f'{prop} {tier} seed={seed}: {len(bounded)} bounded cases, {cov["discharged"]}/{cov["obligations"]} obligations discharged, {cov["bounded_shape_discharged"]}/{cov["bounded_shape_obligations"]} at fixed sizes, {len(fails)} failures, {len(skipped)} not run, {wall:.0f} s')
    if not res:
        print('ERROR: nothing was checked')
        return 2
    return rc
