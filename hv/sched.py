"""Runs tasks in threads of which exactly one is running at a time; they are switched at explicit points following a
generated schedule, so every interleaving is reproducible."""
import threading

from h5py._objects import phil


class Stop(BaseException):
    pass


class Scheduler:
    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.cond = threading.Condition()
        self.turn = None
        self.live = []
        self.errors = []
        self.switches = 0
        self.stopped = False

    def _next(self, me=None):
        if not self.live:
            return None
        i = self.schedule.pop(0) if self.schedule else 0
        others = [t for t in self.live if t != me]
        if me in self.live and (i == 0 or not others):
            return me
        return others[i % len(others)]

    def point(self):
        """called by the running task: maybe let another one run"""
        me = getattr(threading.current_thread(), 'task', None)
        if me is None or phil._is_owned():
            return          # nobody else could do anything before the HDF5 lock is released
        with self.cond:
            nxt = self._next(me)
            if nxt == me:
                return
            self.switches += 1
            self.turn = nxt
            self.cond.notify_all()
            self._wait(me)

    def _wait(self, me):
        while self.turn != me:
            if self.stopped:
                raise Stop()
            self.cond.wait(30)
        if self.stopped:
            raise Stop()

    def run(self, tasks):
        def body(i, fn):
            try:
                with self.cond:
                    self._wait(i)
                fn()
            except Stop:
                pass
            except BaseException as e:
                self.errors.append(e)
            finally:
                with self.cond:
                    self.live.remove(i)
                    if self.errors:
                        self.stopped = True
                    self.turn = self._next()
                    self.cond.notify_all()
        threads = []
        for i, fn in enumerate(tasks):
            t = threading.Thread(target=body, args=(i, fn), daemon=True)
            t.task = i
            threads.append(t)
        self.live = list(range(len(tasks)))
        for t in threads:
            t.start()
        with self.cond:
            self.turn = self._next()
            self.cond.notify_all()
        for t in threads:
            t.join()
        if self.errors:
            raise self.errors[0]
