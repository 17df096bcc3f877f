"""A controlled scheduler: real threads, one of which runs at a time.

An actor is a function ``actor(pause)`` run in a thread of its own; every call
of ``pause(label)`` is a scheduling point at which any other actor may go on.
``explore_schedules`` enumerates every schedule depth first, re-executing the
program from scratch for each (stateless model checking), optionally bounding
the number of preemptions."""
import threading

WAIT_S = 60


class Abandoned(BaseException):
    """Ends a thread whose execution was given up."""


class Actor(threading.Thread):
    def __init__(self, run, fn, i):
        super().__init__(daemon=True)
        self.run_, self.fn, self.i = run, fn, i
        self.go = threading.Semaphore(0)
        self.finished = False
        self.error = None

    def run(self):
        self.go.acquire()
        try:
            if not self.run_.abandoned:
                self.fn(self.pause)
        except Abandoned:
            pass
        except BaseException as e:      # reported by the scheduler
            self.error = e
        self.finished = True
        self.run_.back.release()

    def pause(self, label=None):
        self.run_.back.release()
        self.go.acquire()
        if self.run_.abandoned:
            raise Abandoned()


class Execution:
    def __init__(self, actors):
        self.back = threading.Semaphore(0)
        self.abandoned = False
        self.actors = [Actor(self, fn, i) for i, fn in enumerate(actors)]
        for a in self.actors:
            a.start()

    def step(self, i):
        self.actors[i].go.release()
        if not self.back.acquire(timeout=WAIT_S):
            raise RuntimeError(f'actor {i} is blocked')

    def run(self, prefix, bound=None):
        """Follow ``prefix``, then keep to the actor that runs.
        -> the schedule and, for each step, the choices that were open"""
        schedule, options = [], []
        last, switches = None, 0
        try:
            while True:
                ready = [a.i for a in self.actors if not a.finished]
                if not ready:
                    break
                if len(schedule) < len(prefix):
                    i = prefix[len(schedule)]
                    if i not in ready:
                        raise RuntimeError(f'schedule {prefix} diverged')
                else:
                    i = last if last in ready else ready[0]
                open_ = ready
                if bound is not None and last in ready and switches >= bound:
                    open_ = [last]
                if last in ready and i != last:
                    switches += 1
                schedule.append(i)
                options.append(open_)
                self.step(i)
                last = i
        finally:
            self.abandoned = True
            for a in self.actors:
                if not a.finished:
                    a.go.release()
        for a in self.actors:
            a.join(WAIT_S)
        return schedule, options

    def errors(self):
        return [(a.i, a.error) for a in self.actors if a.error is not None]


def explore_schedules(make, bound=None, prefix=()):
    """``make() -> (actors, check, dispose)``; check(schedule) gives an error.
    -> (error, schedules, steps)"""
    prefix = list(prefix)
    count = steps = 0
    while True:
        actors, check, dispose = make()
        try:
            execution = Execution(actors)
            schedule, options = execution.run(prefix, bound)
            count += 1
            steps += len(schedule)
            errors = execution.errors()
            err = f'actor {errors[0][0]} raised {errors[0][1]!r}' \
                if errors else check()
        finally:
            dispose()
        if err:
            return f'schedule {schedule}: {err}', count, steps
        # the deepest step at which another actor has not been tried yet
        for d in range(len(schedule) - 1, -1, -1):
            # the default choice comes first, then the others in order
            order = choice_order(schedule, options, d)
            at = order.index(schedule[d])
            if at + 1 < len(order):
                prefix = schedule[:d] + [order[at + 1]]
                break
        else:
            return None, count, steps


def choice_order(schedule, options, d):
    ready = options[d]
    last = schedule[d - 1] if d else None
    first = last if last in ready else ready[0]
    return [first] + [i for i in ready if i != first]
