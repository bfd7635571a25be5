"""Collects obligations and cases of a property, runs them on all cores, reports."""
from __future__ import annotations

import argparse
import collections
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

BUDGET = {'quick': 330.0, 'thorough': 5400.0}
_CACHE = {}


def items_of(prop, tier):
    """id -> object with .run(seed) -> dict (kind, status, ...)."""
    key = (prop, tier)
    if key not in _CACHE:
        from . import registry

        _CACHE[key] = registry.items(prop, tier)
    return _CACHE[key]


def _init():
    env.quiet()


def _run(prop, tier, iid, seed):
    t = time.time()
    try:
        item = items_of(prop, tier)[iid]
    except Exception:  # noqa: BLE001
        return dict(id=iid, status='error', detail=traceback.format_exc()[-3000:], wall=time.time() - t)
    return run_item(item, iid, seed)


def run_item(item, iid, seed):
    from .e3.base import Fail

    t = time.time()
    c = time.process_time()
    try:
        info = item.run(seed) or {}
        r = dict(id=iid, status='ok', **info)
    except Fail as e:
        r = dict(id=iid, status='fail', detail=str(e)[:4000])
    except (ImportError, AttributeError) as e:
        if getattr(e, 'name', None) and 'folx' in str(e) and ('cannot import name' in str(e) or "module 'folx" in str(e)):
            # an internal name moved: the case cannot be stated
            r = dict(id=iid, status='ok', note=f'NOT RUN: {e}', discharged=False)
        else:
            r = dict(id=iid, status='fail', detail=f'{type(e).__name__}: {str(e)[:1500]}\n{traceback.format_exc()[-2500:]}')
    except Exception as e:  # noqa: BLE001
        # an exception escaping a case comes from the code under test or its contract
        r = dict(id=iid, status='fail', detail=f'{type(e).__name__}: {str(e)[:1500]}\n{traceback.format_exc()[-2500:]}')
    r['kind'] = getattr(item, 'kind', 'bounded')
    r['wall'], r['cpu'] = time.time() - t, time.process_time() - c
    return r


def concrete(r):
    """A failure that comes with an input on which the real code fails."""
    return r['status'] == 'fail' and (r['kind'] == 'bounded' or 'failing input:' in r['detail'])


GRACE = 150.0  # seconds spent looking for a failing input after an obligation was refuted without one


def pool_run(prop, tier, ids, seed, budget, workers, stop_on_fail=True, kinds=None):
    """Runs ids in order. Stops at the first failure that has a failing input; after a refuted
    obligation without one the concrete cases are brought forward for a while, to find one."""
    ctx = mp.get_context('spawn')
    res, start = [], time.time()
    deadline = start + budget
    skipped = []
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init) as ex:
        todo = collections.deque(ids)
        running = {}

        def feed():
            while todo and len(running) < 2 * workers:
                i = todo.popleft()
                running[ex.submit(_run, prop, tier, i, seed)] = i

        feed()
        stop = hunting = False
        while running:
            done, _ = cf.wait(running, timeout=max(0.1, deadline - time.time()) if hunting else None, return_when=cf.FIRST_COMPLETED)
            for f in done:
                i = running.pop(f)
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    return res, [j for j in ids if j not in {q['id'] for q in res}], True
                except cf.CancelledError:
                    continue
                res.append(r)
                if not stop_on_fail or r['status'] != 'fail':
                    continue
                if concrete(r):
                    stop = True
                elif not hunting:
                    hunting = True
                    deadline = min(deadline, time.time() + GRACE)
                    if kinds:
                        todo = collections.deque(sorted(todo, key=lambda j: kinds[j] != 'bounded'))
            if time.time() > deadline:
                stop = True
            if stop:
                for f in list(running):
                    f.cancel()
                if hunting or any(map(concrete, res)):  # the verdict is known: do not wait for what still runs
                    if stop_on_fail:
                        for f in [f for f in running if f.cancelled()]:
                            running.pop(f)
                        if running:
                            cf.wait(running, timeout=20)
                            for p in list(ex._processes.values()):
                                p.terminate()
                        for f in [f for f in running if f.done()]:
                            try:
                                res.append(f.result())
                            except Exception:  # noqa: BLE001
                                pass
                        break
            else:
                feed()
        skipped = [j for j in ids if j not in {q['id'] for q in res}]
    return res, skipped, False


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only items whose id contains this text')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first failure')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('-v', action='store_true', help='print the slowest items and every obligation left undischarged')
    a = ap.parse_args(argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    env.quiet()
    if a.replay:
        return replay(a.prop, a.replay)
    t0 = time.time()
    items = items_of(a.prop, tier)
    ids = [i for i in items if not a.only or a.only in i]
    ids.sort(key=lambda i: -items[i].weight)
    kinds = {i: getattr(items[i], 'kind', 'bounded') for i in ids}
    if a.list:
        for i in ids:
            print(getattr(items[i], 'kind', 'bounded'), i)
        return 0
    workers = a.workers or min(8, os.cpu_count() or 1, max(1, len(ids)))
    res, skipped, broken = pool_run(a.prop, tier, ids, seed, BUDGET[tier], workers, not a.all, kinds)
    if broken:  # a worker died (e.g. memory): retry the rest with fewer of them
        more, skipped, broken = pool_run(a.prop, tier, skipped, seed, BUDGET[tier], max(1, workers // 3), not a.all, kinds)
        res += more
        if broken:
            print('ERROR: worker processes died twice')
            return 2
    errors = [r for r in res if r['status'] == 'error']
    if errors:
        print('ERROR while loading the check:\n' + errors[0]['detail'])
        return 2
    fails = [r for r in res if r['status'] == 'fail']
    if fails:  # confirm in a fresh process; a failure that does not repeat is not reported
        fails.sort(key=lambda r: not concrete(r))
        again, _, _ = pool_run(a.prop, tier, [r['id'] for r in (fails if a.all else fails[:6])], seed, 240, min(6, len(fails)), False)
        fails = sorted((r for r in again if r['status'] == 'fail'), key=lambda r: not concrete(r))
    from . import report

    if a.v:
        for r in sorted(res, key=lambda r: -r['cpu'])[:30]:
            print(f'  {r["cpu"]:6.1f} s cpu {r["wall"]:6.1f} s  {r["id"]}')
        for r in res:
            if not r.get('discharged', True):
                print(f'  UNDISCHARGED {r["id"]}: {r.get("note", "")[:500]}')
    return report.finish(a.prop, tier, seed, items, res, fails, skipped, time.time() - t0, partial=bool(a.only))


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    item = items_of(d['property'], d['tier'])[d['id']]
    r = run_item(item, d['id'], d['seed'])
    print(f"{d['id']}: {r['status']}")
    if r['status'] != 'ok':
        print(r['detail'])
        return 1
    return 0


def digest(s):
    return hashlib.sha1(s.encode()).hexdigest()[:10]


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
