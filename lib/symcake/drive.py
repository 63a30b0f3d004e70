"""Explores the paths of symbolic jobs on all cores within a time budget; collects verdicts, witnesses and evidence."""
import os, sys, time, json, concurrent.futures as cf, multiprocessing as mp
from . import stage, cakeh, gemm, fnjob, blocks, kern, moves, query, fp, replay

W = None
SLICE = 4.0
def _job(a):
    """explores depth first below a script for a time slice: neighbouring paths share the answers of their common prefix"""
    kind, f, script, tmax, slc = a
    t0 = time.time()
    out, todo = [], [script]
    while todo:
        r = JOBS[kind](W, f, todo.pop(), tmax)
        todo += reversed(r['alts'])
        out.append(r)
        if time.time() - t0 > slc: break
    return out, todo
JOBS = {'gemm': lambda w, f, s, t: gemm.explore(w, f, s, t), 'fp': lambda w, f, s, t: fp.job(w, f, s, t), 'fn': lambda w, f, s, t: fnjob.explore(w, f, s, t)}

def cores():
    try: return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception: return 4

def explore(w, fams, budget, tmax=80, kind='gemm', cap=100000):
    """all paths of all families; returns (results, number of unexplored jobs)"""
    global W
    W = w
    t0 = time.time()
    res = []
    ctxm = mp.get_context('fork')
    left = 0
    ex = cf.ProcessPoolExecutor(cores(), mp_context=ctxm)
    try:
        pend = {}
        queue = [('fp' if f.get('setup') == 'data' else 'fn' if 'setup' in f else kind, f, [], tmax, .5) for f in fams]
        lost = 0
        order = {id(f): i for i, f in enumerate(fams)}
        while queue or pend:
            while queue and len(pend) < cores() + 2 and time.time() - t0 < budget:
                j = queue.pop(min(range(len(queue)), key=lambda i: order[id(queue[i][1])]))
                pend[ex.submit(_job, j)] = j
            if time.time() - t0 >= budget:
                break
            if not pend: break
            done, _ = cf.wait(pend, timeout=max(.1, budget - (time.time() - t0)), return_when=cf.FIRST_COMPLETED)
            for d in done:
                j = pend.pop(d)
                try: rs, todo = d.result()
                except Exception as x:
                    lost += 1
                    continue
                res += rs
                slc = SLICE if len(queue) + len(pend) > 2 * cores() else .5
                for a in todo:
                    if len(res) + len(queue) < cap: queue.append((j[0], j[1], a, tmax, slc))
                    else: left += 1
        left += len(queue) + len(pend) + lost
        rest = [(j[1], j[2]) for j in list(pend.values()) + queue]
    finally:
        procs = list(ex._processes.values()) if ex._processes else []
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try: p.kill()
            except Exception: pass
    return res, left, rest

class Report:
    """evidence and verdict of one check"""
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.cov = {}
        self.assume = []
        self.viol = []
        self.known = []
    def violation(self, what, replay_text):
        self.viol.append((what, replay_text))
    def finish(self, level='model_checking'):
        ed = os.path.join(replay.VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        rp = os.path.join(ed, '%s.replay.txt' % self.pid)
        if self.viol:
            with open(rp, 'w') as f:
                for w, t in self.viol[:20]: f.write('# %s\n%s\n' % (w, t))
        elif os.path.exists(rp): os.remove(rp)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        tmp = os.path.join(ed, '.%s.%d.tmp' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ed, '%s.json' % self.pid))
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for w, t in self.viol[:5]: print('  ' + w)
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.stdout.flush()
            return 1
        c = self.cov
        if c.get('replay_error'):
            print('the replay driver could not be built: ' + str(c['replay_error'])[-600:])
            if c.get('paths_open'):
                print('%s: no verdict on %d paths' % (self.pid, c['paths_open']))
                return 2
        print('%s %s: held on everything explored (%s) in %.0fs' % (self.pid, self.tier, c.get('summary', ''), time.time() - self.t0))
        return 0
