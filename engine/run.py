"""Task scheduling, native confirmation of counterexamples, evidence."""
import gc
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

import dom
import ir
import irgen
import obl
from dom import Inconclusive
from native import Native

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLES = {}


def oracle(name):
    """an oracle decides one concrete case against the native build: None (fine) or a message"""
    def f(fn):
        ORACLES[name] = fn
        return fn
    return f


class Task:
    def __init__(self, name, fn, probes=(), fallback=None, limit=None, bounds=''):
        self.name = name
        self.fn = fn                # fn(ctx): raises Failed / Inconclusive
        self.probes = list(probes)  # (oracle name, cases(ctx, exc) iterable)
        self.fallback = fallback    # fn(ctx): the same obligations within narrower bounds
        self.limit = limit
        self.bounds = bounds


class Ctx:
    def __init__(self, module, native, tier, seed, work):
        self.m = module
        self.nat = native
        self.tier = tier
        self.seed = seed
        self.work = work
        self.cache = os.path.join(work, 'memo')
        os.makedirs(self.cache, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def memo(self, key, fn):
        """results of component specifications, shared between the tasks of one run"""
        import fcntl
        import hashlib
        f = os.path.join(self.cache, hashlib.sha1(repr(key).encode()).hexdigest())

        def known():
            try:
                with open(f, 'rb') as h:
                    return pickle.load(h)
            except (OSError, EOFError, pickle.UnpicklingError):
                return None
        r = known()
        if r is None:
            with open(f + '.lock', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                r = known()
                if r is None:
                    try:
                        v = fn()
                    except obl.Failed as e:
                        self.put(f, ('failed', (e.name, e.why, e.core())))
                        raise
                    except Inconclusive as e:
                        self.put(f, ('open', str(e)))
                        raise
                    self.put(f, ('ok', v))
                    return v
        kind, v = r
        if kind == 'ok':
            return v
        if kind == 'failed':
            e = obl.Failed(v[0], v[1])
            e._core = v[2]
        else:
            e = Inconclusive(v)
        e.reused = True
        raise e

    def put(self, f, v):
        with open(f + '.%d' % os.getpid(), 'wb') as h:
            pickle.dump(v, h)
        os.rename(f + '.%d' % os.getpid(), f)


def run_cases(nat, name, cases, timeout=20, stop=1, budget=60):
    """evaluate an oracle natively; aborts and hangs of the real code are themselves results.
    returns list of (case, message)"""
    cases = list(cases)
    found = []
    i = 0
    t0 = time.time()
    n = 0
    while i < len(cases) and len(found) < stop and time.time() - t0 < budget:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                os.dup2(dn, 1)
                w = os.fdopen(wr, 'wb')
                fn = ORACLES[name]
                for j in range(i, len(cases)):
                    try:
                        r = fn(nat, cases[j])
                    except Exception as e:
                        r = ('error', repr(e))
                    pickle.dump((j, r), w)
                    w.flush()
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        r = os.fdopen(rd, 'rb')
        last = i - 1
        hang = False
        while True:
            if not select.select([r], [], [], timeout)[0]:
                os.kill(pid, signal.SIGKILL)
                hang = True
                break
            try:
                j, v = pickle.load(r)
            except (EOFError, pickle.UnpicklingError):
                break
            last = j
            n += 1
            if isinstance(v, tuple):
                if os.environ.get('VDEBUG'):
                    print('oracle', name, v[1][:200])
                continue      # oracle not applicable to this build
            if v:
                found.append((cases[j], v))
                if len(found) >= stop:
                    os.kill(pid, signal.SIGKILL)
                    break
            if time.time() - t0 > budget:
                os.kill(pid, signal.SIGKILL)
                break
        r.close()
        _, stt = os.waitpid(pid, 0)
        if len(found) >= stop or time.time() - t0 > budget:
            break
        if last + 1 < len(cases):
            if hang:
                found.append((cases[last + 1], 'the real code does not return'))
            elif os.WIFSIGNALED(stt):
                found.append((cases[last + 1], 'the real code panics (signal %d)' % os.WTERMSIG(stt)))
        i = last + 2
    return found, n


def do_task(ctx, t, exc=None):
    """runs in a child; returns a result dict"""
    res = {'name': t.name, 'status': 'ok', 'msg': '', 'viol': [], 'probed': 0, 'narrow': ''}
    t0 = time.time()
    random.seed(ctx.seed)
    if exc is None:
        try:
            t.fn(ctx)
        except obl.Failed as e:
            exc = e
            res['status'], res['msg'] = 'failed', str(e)
        except Inconclusive as e:
            exc = e
            res['status'], res['msg'] = 'inconclusive', str(e)
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
        except RecursionError as e:
            exc = e
            res['status'], res['msg'] = 'inconclusive', 'recursion'
        except Exception as e:
            exc = e
            res['status'], res['msg'] = 'inconclusive', 'internal: ' + traceback.format_exc()[-1500:]
    else:
        res['status'], res['msg'] = 'inconclusive', exc
    res['solve_s'] = time.time() - t0
    if res['status'] != 'ok':
        for name, gen in t.probes:
            try:
                cases = list(gen(ctx, exc))
            except Exception:
                res['msg'] += ' [probe generation: %s]' % traceback.format_exc()[-600:]
                continue
            found, n = run_cases(ctx.nat, name, cases, budget=15 if getattr(exc, 'reused', False) else 60)
            res['probed'] += n
            for c, why in found:
                res['viol'].append({'oracle': name, 'case': c, 'what': why})
            if found:
                break
        if not res['viol'] and t.fallback is not None:
            try:
                dom.A.reset()
                res['narrow'] = t.fallback(ctx) or 'narrower bounds'
                res['status'] = 'narrow'
            except obl.Failed as e:
                res['msg'] += ' / fallback: ' + str(e)
            except Inconclusive as e:
                res['msg'] += ' / fallback: ' + str(e)
            except Exception:
                res['msg'] += ' / fallback: ' + traceback.format_exc()[-800:]
    L, S = obl.LOG, dom.STATS
    res['log'] = {'items': L.items, 'funcs': L.funcs, 'stubs': L.stubs, 'vac': L.vac, 'paths': L.paths, 'steps': L.steps, 'bounds': L.bounds}
    res['stats'] = dict(S.__dict__)
    res['wall'] = time.time() - t0
    return res


def run_tasks(ctx, tasks, jobs=8, limit=240, verbose=False, enough=None, deadline=None):
    pend = list(tasks)[::-1]
    begin = time.time()
    live = {}
    out = []

    def start(t, exc=None):
        rd, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                os.setpgid(0, 0)
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                sys.setrecursionlimit(20000)
                gc.disable()        # the data of a task is live until it ends
                r = do_task(ctx, t, exc)
                with os.fdopen(wr, 'wb') as w:
                    pickle.dump(r, w)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        live[rd] = (pid, t, time.time(), exc, [])

    def stop(pid):
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)

    while pend or live:
        if deadline and time.time() - begin > deadline:
            for pid, t, t0, exc, buf in live.values():
                stop(pid)
            for t in [x[1] for x in live.values()] + pend[::-1]:
                out.append({'name': t.name, 'status': 'inconclusive', 'msg': 'not decided within the %d s of this run' % deadline, 'viol': [], 'log': None,
                            'stats': None, 'wall': 0, 'probed': 0, 'narrow': '', 'bounds': t.bounds})
            break
        while pend and len(live) < jobs:
            start(pend.pop())
        rs, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for rd in list(live):
            pid, t, t0, exc, buf = live[rd]
            if rd in rs:
                b = os.read(rd, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(rd)
                os.waitpid(pid, 0)
                del live[rd]
                try:
                    r = pickle.loads(b''.join(buf))
                except Exception:
                    r = None
                if r is None:
                    if exc is None:
                        start(t, 'the task process died (memory)')
                        continue
                    r = {'name': t.name, 'status': 'inconclusive', 'msg': 'died', 'viol': [], 'log': None, 'stats': None, 'wall': now - t0, 'probed': 0, 'narrow': ''}
                r['bounds'] = t.bounds
                out.append(r)
                if enough and enough(r):
                    # a confirmed counterexample settles the property: stop the rest
                    for pid2, *_ in live.values():
                        stop(pid2)
                    live.clear()
                    pend.clear()
                if verbose:
                    print('  %-12s %-60s %6.1fs %s' % (r['status'], r['name'], r['wall'], r['msg'][:300]))
                if not live and not pend:
                    break
            elif now - t0 > (t.limit or limit):
                stop(pid)
                os.close(rd)
                del live[rd]
                if exc is None:
                    start(t, 'time limit of %d s' % (t.limit or limit))
                else:
                    out.append({'name': t.name, 'status': 'inconclusive', 'msg': 'time limit, also while probing', 'viol': [], 'log': None,
                                'stats': None, 'wall': now - t0, 'probed': 0, 'narrow': '', 'bounds': t.bounds})
    return out


def prepare(tier, seed):
    work = tempfile.mkdtemp(prefix='vrun')
    b = irgen.build(work)
    t = time.time()
    m = ir.parse_module(open(b['ll']).read())
    return Ctx(m, Native(b['so']), tier, seed, work), b, time.time() - t


def cleanup(ctx):
    shutil.rmtree(ctx.work, ignore_errors=True)
