"""Runs one property's scenarios: one forked process per simulated execution, seeded; minimises, replays, reports."""
import argparse
import faulthandler
import gc
import importlib
import json
import os
import pickle
import random
import resource
import selectors
import signal
import subprocess
import sys
import time
from collections import Counter, defaultdict

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.environ.get('DST_REPLAYS') or os.path.join(VERIF, 'replays')
EVIDENCE = os.environ.get('DST_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Pool:
    """forks one child per job; child runs fn(*args) and pipes back a pickled dict"""

    def __init__(self, size, timeout):
        self.size, self.timeout = size, timeout
        self.sel = selectors.DefaultSelector()
        self.live = {}
        self.rss = 0

    def start(self, tag, fn, *args, timeout=None):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setsid()
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                if not os.environ.get('DST_DEBUG'):
                    os.dup2(null, 2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                try:
                    res = fn(*args)
                except BaseException as e:
                    res = dict(status='error', detail=f'{type(e).__name__}: {e}')
                try:
                    res['rss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
                    blob = pickle.dumps(res)
                except BaseException as e:
                    blob = pickle.dumps(dict(status='error', detail=f'unpicklable result: {e}'))
                n = 0
                while n < len(blob):
                    n += os.write(w, blob[n:n + 65536])
            finally:
                os._exit(code)
        os.close(w)
        os.set_blocking(r, False)
        self.sel.register(r, selectors.EVENT_READ, pid)
        self.live[pid] = dict(tag=tag, r=r, buf=[], end=time.time() + (timeout or self.timeout), t0=time.time())

    def _reap(self, pid, timed_out=False):
        j = self.live.pop(pid)
        self.sel.unregister(j['r'])
        os.close(j['r'])
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        if timed_out:
            res = dict(status='timeout', detail='run exceeded its time limit')
        else:
            try:
                res = pickle.loads(b''.join(j['buf']))
            except Exception as e:
                res = dict(status='error', detail=f'child died: {e}')
        res['wall'] = time.time() - j['t0']
        return j['tag'], res

    def poll(self, wait=0.2):
        out = []
        for key, _ in self.sel.select(wait):
            pid = key.data
            j = self.live.get(pid)
            if j is None:
                continue
            while True:
                try:
                    b = os.read(j['r'], 1 << 16)
                except BlockingIOError:
                    break
                if b:
                    j['buf'].append(b)
                else:
                    out.append(self._reap(pid))
                    break
        now = time.time()
        for pid in [p for p, j in self.live.items() if j['end'] < now]:
            out.append(self._reap(pid, timed_out=True))
        return out

    def free(self):
        return self.size - len(self.live)

    def close(self):
        for pid in list(self.live):
            self._reap(pid, timed_out=True)

    def one(self, fn, *args, timeout=None):
        self.start('one', fn, *args, timeout=timeout)
        while True:
            r = self.poll()
            if r:
                return r[0][1]

    def many(self, jobs):
        """jobs: list of (fn, args); results in order"""
        res = [None] * len(jobs)
        todo = list(enumerate(jobs))
        left = len(jobs)
        while left:
            while todo and self.free() > 0:
                i, (fn, args) = todo.pop(0)
                self.start(i, fn, *args)
            for i, r in self.poll():
                res[i] = r
                left -= 1
        return res


def load(prop):
    from . import sched, simjoblib
    sched.install()
    simjoblib.install()
    m = importlib.import_module('props.' + prop.lower())
    return m


def known_findings(prop):
    out = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for l in lines:
        if l.startswith('finding:'):
            head, _, what = l[len('finding:'):].partition(' :: ')
            d = dict(p.split('=', 1) for p in head.split() if '=' in p)
            if d.get('property') == prop:
                d['what'] = what.strip()
                out.append(d)
    return out


def match_known(known, scenario, kind, sig):
    for d in known:
        if d.get('kind') == kind and d.get('sig') == sig.replace(' ', '_') and d.get('scenario', scenario) == scenario:
            return d
    return None


def shrink(pool, fn, tier, choices, kind, sig, cap_s):
    """delete chunks / zero / halve choices while the same violation remains"""
    t_end = time.time() + cap_s
    best = list(choices)
    tried = 0

    def ok(r):
        return r['status'] == 'violation' and r['kind'] == kind and r['sig'] == sig

    def test(cands):
        nonlocal tried, best
        cands = [c for c in cands if c != best]
        for i in range(0, len(cands), pool.size):
            if time.time() > t_end:
                return False
            grp = cands[i:i + pool.size]
            tried += len(grp)
            rs = pool.many([(core.run_scenario, (fn, None, c, tier)) for c in grp])
            for c, r in zip(grp, rs):
                if ok(r):
                    used = r['choices']
                    best = used if len(used) <= len(c) else c
                    while best and best[-1] == 0:
                        best = best[:-1]
                    return True
        return False
    # cut the tail first
    changed = True
    while changed and time.time() < t_end:
        changed = False
        n = len(best)
        k = max(n // 2, 1)
        while k >= 1 and time.time() < t_end:
            cands = []
            for i in range(0, len(best), k):
                if any(best[i:i + k]):
                    cands.append(best[:i] + [0] * len(best[i:i + k]) + best[i + k:])
            for i in range(0, len(best), k):
                cands.append(best[:i] + best[i + k:])
            if len(cands) > 160:
                cands = cands[:160]
            if test(cands):
                changed = True
                k = min(k, max(len(best) // 2, 1))
                continue
            k //= 2
        cands = []
        for i, v in enumerate(best[:60]):
            if v > 1:
                cands += [best[:i] + [x] + best[i + 1:] for x in {1, v // 2, v - 1}]
        if cands and test(cands):
            changed = True
    return best, tried


def plan(scenarios):
    """deterministic interleaving of scenarios by weight"""
    acc = [(0.5 / w, i) for i, (_, _, w) in enumerate(scenarios)]
    cnt = [0] * len(scenarios)
    while True:
        t, i = min(acc)
        yield i, cnt[i]
        cnt[i] += 1
        acc[i] = (t + 1.0 / scenarios[i][2], i)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--max-runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 4))
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--one', type=int, help='run only this index of --scenario and print its log')
    a = ap.parse_args()
    t0 = time.time()
    faulthandler.enable()
    m = load(a.prop)
    scenarios = list(m.SCENARIOS)
    by_name = {n: f for n, f, _ in scenarios}
    timeout = getattr(m, 'RUN_TIMEOUT', 90)
    hs = getattr(m, 'HASHSEEDS', None)
    if hs:
        import atexit
        from . import peers
        peers.start(a.prop, hs)
        atexit.register(peers.stop)
    pool = Pool(a.jobs, timeout)
    gc.collect()
    gc.freeze()

    if a.replay:
        rp = json.load(open(a.replay))
        r = pool.one(core.run_scenario, by_name[rp['scenario']], None, rp['choices'], rp.get('tier', 'quick'))
        if os.environ.get('DST_DEBUG') or os.environ.get('DST_LOG'):
            print('\n'.join(r.get('log', [])))
        if r['status'] == 'violation':
            print(f"replayed {rp['scenario']}: {r['kind']} {r['sig']}: {r['detail'][:1500]}")
            exact = r['kind'] == rp['kind'] and r['sig'] == rp['sig'] and r['hash'] == rp.get('hash', r['hash'])
            print('same violation' + (' and event log' if exact else '') if r['sig'] == rp['sig'] else 'another violation')
            print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
            return 1
        print(f"replay did not fail: {r['status']} {r.get('detail', '')[:3000]}")
        return 0

    if a.one is not None:
        fn = by_name[a.scenario]
        s = core.derive_seed(a.seed, a.prop, a.scenario, a.one)
        r = pool.one(core.run_scenario, fn, s, None, a.tier, timeout=1000)
        print('\n'.join(r.get('log', [])))
        print({k: r.get(k) for k in ('status', 'kind', 'sig', 'detail', 'counts', 'steps', 'hash', 'shape', 'wall')})
        print('choices', len(r.get('choices', [])))
        print(r.get('detail', ''))
        return 0

    if a.scenario:
        scenarios = [s for s in scenarios if s[0] in a.scenario.split(',')]
    budget = a.budget or (getattr(m, 'QUICK_S', 60) if a.tier == 'quick' else getattr(m, 'THOROUGH_S', 700))
    min_runs = getattr(m, 'MIN_RUNS', 4)
    known = known_findings(a.prop)

    stat = Counter()
    faults = Counter()
    shapes = set()
    per = defaultdict(Counter)
    walls = defaultdict(float)
    samples = []
    errors = []
    unrepro = []
    known_hit = {}
    steps = 0
    clock = 0.0
    rechecks = Counter()
    violation = None
    all_viol = Counter()
    first_viol = {}
    gen = plan(scenarios)
    t_start = time.time()
    t_end = t_start + budget
    hard_end = t_start + max(budget * 3, budget + 120)
    stop = False
    submitted = Counter()
    recheck_q = []
    fn_of = by_name

    def want_more():
        if stop or (a.max_runs and stat['runs'] + len(pool.live) >= a.max_runs):
            return False
        now = time.time()
        if now < t_end:
            return True
        if now < hard_end and any(submitted[n] < min_runs for n, _, _ in scenarios):
            return True
        return False

    while True:
        while pool.free() > 0 and (want_more() or recheck_q):
            if recheck_q:
                name, ch, want = recheck_q.pop()
                pool.start(('re', name, want), core.run_scenario, fn_of[name], None, ch, a.tier)
                continue
            if time.time() >= t_end:
                i = min(range(len(scenarios)), key=lambda q: submitted[scenarios[q][0]])
                k = submitted[scenarios[i][0]]
            else:
                i, k = next(gen)
                k = submitted[scenarios[i][0]]
            name, fn, _ = scenarios[i]
            submitted[name] += 1
            s = core.derive_seed(a.seed, a.prop, name, k)
            pool.start(('run', name, k), core.run_scenario, fn, s, None, a.tier)
        if not pool.live:
            break
        for tag, r in pool.poll():
            if tag[0] == 're':
                rechecks['runs'] += 1
                if r['status'] in ('timeout', 'error'):
                    rechecks[r['status']] += 1
                elif r['hash'] != tag[2]:
                    rechecks['differ'] += 1
                    if len(unrepro) < 5:
                        unrepro.append(f'{tag[1]}: event log differed on re-run')
                else:
                    rechecks['identical'] += 1
                continue
            _, name, k = tag
            stat['runs'] += 1
            stat[r['status']] += 1
            per[name][r['status']] += 1
            walls[name] += r['wall']
            if 'counts' in r:
                faults.update(r['counts'])
                steps += r['steps']
                clock += r['clock']
                if r['status'] in ('ok', 'violation'):
                    shapes.add((name, r['shape'], r['hash']))
            if r['status'] in ('error', 'timeout'):
                if len(errors) < 12:
                    errors.append(f"{name}#{k}: {r['status']} {r.get('detail', '')[-1500:]}")
            elif r['status'] == 'ok':
                if len(samples) < 4 and r['log'] and per[name]['sampled'] == 0:
                    per[name]['sampled'] += 1
                    samples.append(dict(scenario=name, run=k, seed=r['seed'], log=r['log'][:14]))
                if stat['ok'] % 12 == 1 and rechecks['asked'] < 40:
                    rechecks['asked'] += 1
                    recheck_q.append((name, r['choices'], r['hash']))
            elif r['status'] == 'violation':
                kf = match_known(known, name, r['kind'], r['sig'])
                if kf:
                    known_hit[kf['kind'] + kf['sig']] = kf
                    stat['known'] += 1
                    continue
                all_viol[(name, r['kind'], r['sig'])] += 1
                first_viol.setdefault((name, r['kind'], r['sig']), (k, r))
                if a.keep_going:
                    continue
                if violation is None:
                    violation = (name, k, r)
                    stop = True
                    recheck_q.clear()
    explore_s = time.time() - t_start
    rc = 0
    replay_path = None
    if a.keep_going:
        for key, n in all_viol.most_common():
            k, r = first_viol[key]
            print(f'{n:4d}x {key[0]}#{k} {key[1]} {key[2]}: {r["detail"][:300]}')
        rc = 1 if all_viol else 0
    elif violation:
        cands = sorted(first_viol.items(), key=lambda kv: len(kv[1][1]['choices']))
        for (name, kind, sig), (k, r) in cands[:4]:
            fn = fn_of[name]
            rep = None
            for _ in range(3):
                rep = pool.one(core.run_scenario, fn, None, r['choices'], a.tier)
                if rep['status'] == 'violation' and rep['sig'] == sig and rep['kind'] == kind:
                    break
                rep = None
            if rep is None:
                unrepro.append(f'{name}#{k} {kind} {sig}: not reproduced from its choices')
                stat['unreproduced'] += 1
                continue
            cap = 40 if a.tier == 'quick' else 120
            small, tried = shrink(pool, fn, a.tier, r['choices'], kind, sig, cap)
            fin = pool.one(core.run_scenario, fn, None, small, a.tier)
            if not (fin['status'] == 'violation' and fin['sig'] == sig):
                small, fin = r['choices'], rep
            os.makedirs(REPLAYS, exist_ok=True)
            replay_path = os.path.join(REPLAYS, f'{a.prop}-{name}-{a.seed}-{k}.json')
            json.dump(dict(property=a.prop, scenario=name, tier=a.tier, seed=r['seed'], run=k, choices=small,
                           kind=kind, sig=sig, detail=fin['detail'], hash=fin['hash'], shrink_runs=tried,
                           original_choices=len(r['choices']), trace=fin['log']), open(replay_path, 'w'), indent=1)
            fresh = subprocess.run([sys.executable, '-m', 'dst.runner', a.prop, '--replay', replay_path], cwd=VERIF,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            print(f'{name} run {k} seed {r["seed"]}: {kind}: {sig}\n  {fin["detail"][:1500]}')
            print(f'  choices {len(r["choices"])} -> {len(small)} after {tried} shrinking runs; fresh process: '
                  f'{"reproduced" if fresh.returncode == 1 else "NOT reproduced"}')
            if fresh.returncode != 1:
                # fall back to the unshrunk choices
                json.dump(dict(property=a.prop, scenario=name, tier=a.tier, seed=r['seed'], run=k, choices=r['choices'],
                               kind=kind, sig=sig, detail=r['detail'], hash=r['hash'], trace=r['log']),
                          open(replay_path, 'w'), indent=1)
                fresh = subprocess.run([sys.executable, '-m', 'dst.runner', a.prop, '--replay', replay_path], cwd=VERIF,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if fresh.returncode != 1:
                    unrepro.append(f'{name}#{k} {kind} {sig}: not reproduced in a fresh process')
                    stat['unreproduced'] += 1
                    replay_path = None
                    continue
            print(f'VIOLATION property={a.prop} replay={replay_path}')
            rc = 1
            break
    pool.close()
    for kf in known:
        hit = kf['kind'] + kf['sig'] in known_hit
        print(f"KNOWN-FINDING: property={a.prop} {kf['what']}" + ('' if hit else ' (not met in this run)'))
    wall = time.time() - t0
    nontrivial = len(shapes)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration', wall_s=round(wall, 2),
              violations=(1 if rc == 1 and not a.keep_going else 0),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              coverage=dict(
                  evaluations=stat['runs'], distinct_nontrivial=nontrivial,
                  rule=m.RULE + ' A run counts as distinct and non-trivial when it was not skipped and the pair of its '
                       'interleaving/state digest and event-log digest was not seen before.',
                  samples=samples,
                  runs_by_status={k: v for k, v in stat.items() if k != 'runs'},
                  runs_by_scenario={n: dict(runs=submitted[n], wall_s=round(walls[n], 1),
                                            **{k: v for k, v in per[n].items() if k != 'sampled'})
                                    for n, _, _ in scenarios},
                  runs_per_hour=round(stat['runs'] / max(explore_s, 1e-9) * 3600),
                  seeds=f'derive_seed({a.seed}, {a.prop}, scenario, run index), one seed per run',
                  simulated_steps=steps, simulated_seconds=round(clock, 3),
                  faults_injected={k[6:]: v for k, v in sorted(faults.items()) if k.startswith('fault:')},
                  scheduling={k[6:]: v for k, v in sorted(faults.items()) if k.startswith('sched:')},
                  other_counters={k: v for k, v in sorted(faults.items()) if ':' not in k},
                  determinism_recheck=dict(rechecks), not_reproduced=unrepro,
                  real_components=getattr(m, 'REAL', []), stubbed_components=getattr(m, 'STUB', []),
                  inconclusive=errors))
    os.makedirs(EVIDENCE, exist_ok=True)
    if not a.scenario:
        json.dump(ev, open(os.path.join(EVIDENCE, f'{a.prop}.json'), 'w'), indent=1)
    print(f"{a.prop} {a.tier}: {stat['runs']} runs ({stat['ok']} ok, {stat['skip']} skipped, {stat['error']} error, "
          f"{stat['timeout']} timeout, {stat['known']} known), {nontrivial} distinct, {steps} steps, "
          f"faults {sum(v for k, v in faults.items() if k.startswith('fault:'))}, rechecks {dict(rechecks)}, "
          f"wall {wall:.0f}s")
    if os.environ.get('DST_VERBOSE'):
        for n, _, _ in scenarios:
            print('   ', n, submitted[n], dict(per[n]), f'{walls[n] / max(submitted[n], 1):.2f}s/run')
        print('   ', dict(faults))
        for e in errors[:4]:
            print('   !', e[:60], '...', e[-500:])
        for e in unrepro:
            print('   ?', e)
    if rc == 0 and stat['runs'] and (stat['error'] + stat['timeout']) > 0.5 * stat['runs']:
        print('check is inconclusive: most runs ended in harness errors', file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
