"""Worker processes.  usage: worker.py sym|conc CHECK JOBS.json OUT.json

sym : NUMBA_DISABLE_JIT=1, third-party numerics stubbed; forks one child per task.
conc: unpatched code, JIT on; forks one child per replay job.
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('BSYM_REPO', '/repo')      # another tree only while developing the checks
sys.path.insert(0, REPO)
sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in type(f).__module__]


def parallel(jobs, fn, nproc, timeout, expire):
    """Run fn(job) in forked children, at most nproc at a time, hard timeout each."""
    import select
    results = [None] * len(jobs)
    pend = list(range(len(jobs)))[::-1]
    live = {}
    while pend or live:
        while pend and len(live) < nproc:
            i = pend.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                out = None
                try:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    out = fn(jobs[i])
                except BaseException:
                    out = dict(crash=traceback.format_exc()[-3000:])
                data = json.dumps(out, default=str).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[i] = (pid, r, time.time(), [])
        fds = {v[1]: k for k, v in live.items()}
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        now = time.time()
        for fd in rd:
            i = fds[fd]
            b = os.read(fd, 1 << 20)
            if b:
                live[i][3].append(b)
            else:
                os.close(fd)
                pid, _, _, parts = live.pop(i)
                os.waitpid(pid, 0)
                try:
                    results[i] = json.loads(b''.join(parts))
                except ValueError:
                    results[i] = dict(crash='worker died')
        for i in list(live):
            pid, fd, t0, parts = live[i]
            if now - t0 > timeout or now > expire:
                try:
                    os.killpg(pid, 9)
                except OSError:
                    try:
                        os.kill(pid, 9)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                live.pop(i)
                results[i] = dict(crash='timeout after %ds' % (now - t0), timeout=True)
    return results


def trace_functions(store):
    """Record which /repo functions run, at negligible cost (sys.monitoring)."""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'bsym')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if '/repo/beluga/' in fn:
            store.add('%s:%s' % (fn.split('/repo/')[1], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def main():
    mode, check, jobs_file, out_file = sys.argv[1:5]
    jobs = json.load(open(jobs_file))
    scratch = os.environ['BSYM_SCRATCH']
    os.chdir(scratch)
    from bsym import core
    if mode == 'sym':
        from bsym import stubs
        stubs.install()
    import logging
    import beluga
    logging.disable(logging.CRITICAL)
    import beluga.utils.logging as bl
    bl.logger.display_level_ = logging.ERROR
    assert os.path.realpath(beluga.__file__).startswith(REPO + '/'), beluga.__file__
    if mode == 'sym':
        beluga.DTYPE = object
        from bsym import stubs
        stubs.OBJECT_ARRAYS[0] = True
    mod = importlib.import_module('checks.' + check.lower())
    sys.setrecursionlimit(20000)
    nproc = int(os.environ.get('BSYM_PROCS', '8'))
    budget = float(jobs['budget'])
    expire = time.time() + budget

    if mode == 'sym':
        tier = jobs['tier']

        def run(task):
            os.environ['BSYM_TASK'] = task['id']
            fns = set()
            trace_functions(fns)
            c = core.Ctx(task=task['id'], query_timeout=task.get('qt', 20000),
                         max_paths=task.get('max_paths', 3000),
                         deadline=min(expire - 3, time.time() + task.get('limit', budget)), seed=jobs['seed'])
            h = getattr(mod, task['fn'])
            cfg = task.get('cfg', {})
            t0 = time.time()
            c.explore(lambda ctx: h(ctx, **cfg))
            return dict(id=task['id'], stats=c.stats, failures=c.failures, witnesses=c.witnesses[:60],
                        n_witnesses=len(c.witnesses), incomplete=c.incomplete[:10], labels=c.labels,
                        functions=sorted(fns), wall=time.time() - t0)
        hard = max([t.get('limit', 0) for t in jobs['tasks']] + [300 if tier == 'quick' else budget]) + 20   # a solver call may not honour its own timeout
        res = parallel(jobs['tasks'], run, nproc, min(hard, budget), expire)
    else:
        def confirm(h, cfg, job, c):
            """Drop failures at extreme inputs that are rounding noise: the discrepancy of a real
            failure is a smooth function of the inputs, noise changes completely under 1e-13 jitter."""
            keep = list(c.failures)
            for s in (1, 2, 3):
                d = core.CCtx(dict(job['assign'], reals=dict(c.raw)), seed=s, jitter=1e-13)
                try:
                    h(d, **cfg)
                except core.Abort:
                    return keep
                except Exception:
                    return keep
                seen = {}
                for f in d.failures:
                    seen.setdefault(f['label'], []).append(f['diff'])
                ok = []
                for f in keep:
                    v = seen.get(f['label'], [])
                    if f['diff'] is None or any(x is not None and abs(x - f['diff']) <= 0.3 * abs(f['diff']) for x in v):
                        ok.append(f)
                keep = ok
            return keep

        def one(job):
            h = getattr(mod, job['fn'])
            cfg = job.get('cfg', {})
            attempts = []
            for k in range(job.get('tries', 1)):
                c = core.CCtx(job['assign'], seed=jobs['seed'] * 100 + k, perturb=0.0 if k == 0 else job.get('perturb', 1.0))
                exc = None
                ab = False
                try:
                    h(c, **cfg)
                except core.Abort:
                    ab = True
                except ZeroDivisionError:
                    # a divisor non-zero over the reals that underflows in floats: the sampled point decides nothing
                    if job.get('witness'):
                        ab = True
                    else:
                        exc = 'ZeroDivisionError: %s' % traceback.format_exc(limit=-6)[-1200:]
                except Exception as e:
                    exc = '%s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc(limit=-6)[-1200:])
                if c.failures and not exc and (c.extreme() or any(f['diff'] is not None and abs(f['diff']) > 1e4 for f in c.failures)):
                    c.failures = confirm(h, cfg, job, c)
                attempts.append(dict(failures=c.failures[:20], exception=exc, aborted=ab, inputs=c.used,
                                     checks=sum(c.labels.values()), labels=sorted(c.labels), k=k))
                if (c.failures or exc) and job.get('stop', True):
                    break
            return dict(attempts=attempts)

        # jobs of one task share a process (and its compiled problems)
        groups, cur = [], {}
        for i, job in enumerate(jobs['jobs']):
            g = cur.get(job.get('task'))
            if g is None or len(g) >= 8:
                g = cur[job.get('task')] = []
                groups.append(g)
            g.append(i)

        def run(g):
            return [one(jobs['jobs'][i]) for i in g]
        gres = parallel(groups, run, nproc, budget, expire)
        res = [None] * len(jobs['jobs'])
        redo = []
        for g, r in zip(groups, gres):
            for n, i in enumerate(g):
                res[i] = r[n] if isinstance(r, list) else r
                if not isinstance(r, list) and not r.get('timeout') and len(g) > 1:
                    redo.append(i)
        if redo:
            for i, r in zip(redo, parallel([[i] for i in redo], run, nproc, budget, expire)):
                res[i] = r[0] if isinstance(r, list) else r
    json.dump(res, open(out_file, 'w'), default=str)


if __name__ == '__main__':
    main()
