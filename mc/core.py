"""Explicit-state exploration of the real code, shared by every check.

The deciding step is always the same: enumerate a bounded space completely
(operation histories, schedules, crash points, fault points, inputs), run the
real implementation on every element of it, and compare what can be observed
through its public interface with a small reference model.

Nothing here samples: VERIF_SEED is recorded in the evidence but never used.
"""
import ast
import contextlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
from collections import deque

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
MAX_REPORTED = 5
STEP_LIMIT_S = 120          # one history or case; they normally take < 0.1 s


class Stuck(BaseException):
    """A history did not end. Not an Exception: the code may catch those."""


class Enough(BaseException):
    """Enough violations were collected."""


@contextlib.contextmanager
def time_limit(seconds=STEP_LIMIT_S):
    def expired(signum, frame):
        raise Stuck(f'no result after {seconds} s')
    old = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('exc', exception)"""
    try:
        return 'ok', fn(*args, **kwargs)
    except Exception as e:
        return 'exc', e


def show(out):
    kind, val = out
    if kind == 'exc':
        return f'raised {type(val).__name__}: {val}'
    return f'returned {val!r}'


def known_findings(pid):
    """finding: property=<id> key=<key> <what>"""
    found = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding: '):
                    continue
                parts = line.split(' ', 3)
                prop, key = parts[1], parts[2]
                if prop == f'property={pid}':
                    found[key.removeprefix('key=')] = parts[3]
    return found


class Ctx:
    """Counts, samples and violations of one run of one check."""

    def __init__(self, pid, tier='quick', seed=0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known_hit = [], [], {}
        self.spaces = {}
        self.capped = []
        self.known = known_findings(pid)
        self.started = time.time()

    # ------------------------------------------------------------- counting
    def sample(self, item, limit=6):
        if len(self.samples) < limit:
            text = item if isinstance(item, str) else repr(item)
            self.samples.append(text[:600])

    def space(self, name, **info):
        self.spaces[name] = info

    # ----------------------------------------------------------- violations
    def fail(self, space, what, history, key=None):
        """Report that a history/case of a space breaks the property.

        ``key`` names the failing input or call site; a key listed in the
        known-findings file is reported as such and nothing else is."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append({'space': space, 'what': str(what)[:4000],
                                'history': history, 'key': key})
        if len(self.violations) >= MAX_REPORTED:
            raise Enough()

    def merge(self, other):
        self.states += other['states']
        self.transitions += other['transitions']
        self.traces += other['traces']
        for s in other['samples']:
            self.sample(s, limit=12)
        for name, info in other['spaces'].items():
            if name in self.spaces:
                for k, v in info.items():
                    if k == 'depth':
                        self.spaces[name][k] = max(
                            v, self.spaces[name].get(k, 0))
                    elif isinstance(v, int) and not isinstance(v, bool):
                        self.spaces[name][k] = self.spaces[name].get(k, 0) + v
            else:
                self.spaces[name] = dict(info)
        self.capped += other['capped']
        self.known_hit.update(other['known_hit'])
        self.violations += other['violations']

    def export(self):
        return {k: getattr(self, k) for k in
                ('states', 'transitions', 'traces', 'samples', 'spaces',
                 'capped', 'known_hit', 'violations')}


# ------------------------------------------------------------------- histories
class Driver:
    """A real object, the operations on it, and its reference model.

    Models are immutable and hashable. ``step`` is the oracle: given the model
    before an operation and what the implementation did, it returns the model
    after it and an error (or None)."""
    name = 'driver'
    configs = ()
    between = True      # also observe everything between the operations

    def build(self, cfg):
        raise NotImplementedError

    def initial(self, cfg):
        raise NotImplementedError

    def ops(self, cfg, model):
        raise NotImplementedError

    def apply(self, cfg, impl, op):
        raise NotImplementedError

    def step(self, cfg, model, op, out):
        raise NotImplementedError

    def observe(self, cfg, impl, model):
        """Compare everything observable with the model; error or None."""
        return None

    def dispose(self, cfg, impl):
        pass

    def key(self, cfg, op, err):
        """Identity of a failure, for the known-findings file."""
        return None


def run_history(driver, cfg, history, check_all=False):
    """Replay a history on a fresh object. -> (model, error, index)"""
    impl = driver.build(cfg)
    try:
        model, err = driver.initial(cfg), None
        if not history or check_all:
            err = driver.observe(cfg, impl, model)
            if err:
                return model, err, -1
        last = len(history) - 1
        for i, op in enumerate(history):
            out = outcome(driver.apply, cfg, impl, op)
            model, err = driver.step(cfg, model, op, out)
            if not err and (i == last or check_all):
                err = driver.observe(cfg, impl, model)
            if err:
                return model, err, i
        return model, None, last
    finally:
        driver.dispose(cfg, impl)


def explore(ctx, driver, depth, suffix=1, configs=None, max_states=None):
    """Breadth-first over every operation sequence up to ``depth``.

    Two histories are merged only when they reach the same model state *and*
    end with the same ``suffix`` operations; each one is replayed from scratch
    on a fresh object, so no state leaks from one to another, and replayed once
    more with everything observed between the operations, too (which may fill
    caches and load objects)."""
    if ctx.tier == 'light':       # first filter of tools/mutate.py only
        depth = max(2, depth - 2)
    n_states = n_trans = 0
    for cfg in (driver.configs if configs is None else configs):
        init = None
        try:
            with time_limit():
                init, err, _ = run_history(driver, cfg, ())
        except Exception:
            err = traceback.format_exc()
        except Stuck as e:
            err = str(e)
        ctx.traces += 1
        if err:
            ctx.fail(driver.name, f'initially: {err}', [repr(cfg), []],
                     driver.key(cfg, None, err))
            continue
        seen = {(init, ())}
        n_states += 1
        frontier = deque([((), init)])
        level = 0
        while frontier and level < depth:
            level += 1
            nxt = deque()
            for hist, model in frontier:
                for op in driver.ops(cfg, model):
                    h = hist + (op,)
                    n_trans += 1
                    ctx.traces += 1
                    try:
                        with time_limit():
                            m2, err, _ = run_history(driver, cfg, h)
                            if driver.between and not err and len(h) > 1:
                                # again, with reads between the operations
                                m3, err, _ = run_history(driver, cfg, h, True)
                                ctx.traces += 1
                                if not err and m3 != m2:
                                    err = f'led to {m3}, without reading in ' \
                                          f'between to {m2}'
                    except Exception:
                        err = traceback.format_exc()
                    except Stuck as e:
                        err = str(e)
                    if err:
                        ctx.fail(driver.name, err,
                                 [repr(cfg), [repr(o) for o in h]],
                                 driver.key(cfg, op, err))
                        continue
                    k = (m2, h[-suffix:] if suffix else ())
                    if k not in seen:
                        seen.add(k)
                        n_states += 1
                        nxt.append((h, m2))
                        if max_states and n_states >= max_states:
                            ctx.capped.append(driver.name)
                            nxt = deque()
                            break
            if nxt:
                ctx.sample(f'{driver.name} {cfg!r}: '
                           + ' ; '.join(map(repr, nxt[-1][0])), limit=6)
            frontier = nxt
    ctx.states += n_states
    ctx.transitions += n_trans
    old = ctx.spaces.get(driver.name, {})
    ctx.space(driver.name, states=old.get('states', 0) + n_states,
              transitions=old.get('transitions', 0) + n_trans,
              depth=depth)


# ----------------------------------------------------------------------- cases
def cases(ctx, name, items, fn, key=None):
    """Every element of a finite space of inputs, schedules or fault points.

    ``fn(case)`` runs the implementation and returns an error or None (or a
    tuple (error, states, transitions) when a case is itself an exploration).
    """
    if ctx.tier == 'light':       # first filter of tools/mutate.py only
        items = list(items)
        items = items[::1 + len(items) // 150]
    n = states = trans = 0
    for case in items:
        n += 1
        s = t = 1
        try:
            with time_limit():
                err = fn(case)
            if isinstance(err, tuple):
                err, s, t = err
        except Exception:
            err = traceback.format_exc()
        except Stuck as e:
            err = str(e)
        states += s
        trans += t
        if n in (1, 7, 50):
            ctx.sample(f'{name}: {case!r}', limit=8)
        if err:
            ctx.fail(name, err, [repr(case)],
                     key(case, err) if key else None)
    ctx.states += states
    ctx.transitions += trans
    ctx.traces += n
    old = ctx.spaces.get(name, {})
    ctx.space(name, cases=old.get('cases', 0) + n,
              states=old.get('states', 0) + states,
              transitions=old.get('transitions', 0) + trans)


# -------------------------------------------------------------------- parallel
def parallel(ctx, jobs, workers=None):
    """Run ``fn(sub_ctx, *args)`` jobs in forked children and merge results."""
    workers = workers or min(8, os.cpu_count() or 1)
    pending = list(enumerate(jobs))
    running, results = {}, {}
    while pending or running:
        while pending and len(running) < workers:
            i, (fn, *args) = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Ctx(ctx.pid, ctx.tier, ctx.seed)
                try:
                    fn(sub, *args)
                except Enough:
                    pass
                except BaseException:
                    sub.violations.append({
                        'space': getattr(fn, '__name__', 'job'),
                        'what': traceback.format_exc(), 'history': [],
                        'key': None})
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(sub.export(), f)
                os._exit(0)
            os.close(w)
            running[r] = (i, pid, b'')
        import select
        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            chunk = os.read(r, 1 << 20)
            i, pid, buf = running[r]
            if chunk:
                running[r] = (i, pid, buf + chunk)
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            results[i] = buf
    for i in sorted(results):
        if results[i]:
            ctx.merge(pickle.loads(results[i]))
        else:
            ctx.violations.append({'space': f'job {i}', 'history': [],
                                   'what': 'worker died', 'key': None})
    ctx.violations = ctx.violations[:MAX_REPORTED]
    if ctx.violations:
        raise Enough()


# -------------------------------------------------------------------- reporting
def finish(ctx, technique_note='', assumptions=()):
    evidence = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed,
        'level': 'model_checking',
        'coverage': {
            'states': ctx.states,
            'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.traces,
            'samples': ctx.samples,
            'exhaustive': not ctx.capped and not ctx.violations,
            'spaces': ctx.spaces,
            'capped': sorted(set(ctx.capped)),
            'explanation': technique_note,
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - ctx.started, 3),
        'violations': len(ctx.violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{ctx.pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')
    for key, what in sorted(ctx.known_hit.items()):
        print(f'KNOWN-FINDING: property={ctx.pid} {what} [{key}]')
    code = 0
    folder = os.path.join(ROOT, 'replays')
    for name in os.listdir(folder) if os.path.isdir(folder) else ():
        if name.startswith(ctx.pid + '-'):        # of an earlier run
            os.remove(os.path.join(folder, name))
    if ctx.violations:
        code = 1
        os.makedirs(folder, exist_ok=True)
        for i, v in enumerate(ctx.violations):
            path = os.path.join(folder, f'{ctx.pid}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': ctx.pid, **v}, f, indent=1)
            print(f'-- {v["space"]}: {" ; ".join(map(str, v["history"]))}')
            print('   ' + v['what'].strip().replace('\n', '\n   ')[:1500])
            print(f'VIOLATION property={ctx.pid} replay={path}')
    print(f'{ctx.pid} [{ctx.tier}] states={ctx.states} '
          f'transitions={ctx.transitions} traces={ctx.traces} '
          f'wall={time.time() - ctx.started:.1f}s '
          f'{"FAILED" if code else "ok"}')
    return code
