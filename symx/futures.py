"""Model of concurrent.futures with a schedule that can be chosen."""
import types


class Futures:
    """Stand-in for concurrent.futures: jobs are done when submitted, and
    they are completed in any order."""
    choose = None

    class Future:
        def __init__(self, fn, args, kwargs):
            self.value, self.err = None, None
            try:
                self.value = fn(*args, **kwargs)
            except Exception as err:
                self.err = err

        def result(self, timeout=None):
            if self.err is not None:
                raise self.err
            return self.value

        def cancel(self):
            return False

    class Executor:
        def __init__(self, *args, **kwargs):
            pass

        def submit(self, fn, *args, **kwargs):
            if Futures.choose is None:
                from .core import Inconclusive
                raise Inconclusive('multiprocessing')
            return Futures.Future(fn, args, kwargs)

        def map(self, fn, *its):
            return iter([fn(*a) for a in zip(*its)])

        def shutdown(self, *args, **kwargs):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass

    @staticmethod
    def as_completed(jobs, timeout=None):
        jobs = list(jobs)
        while jobs:
            yield jobs.pop(Futures.choose(len(jobs)) if len(jobs) > 1 else 0)


def futures():
    mod = types.ModuleType('concurrent.futures')
    mod.ThreadPoolExecutor = mod.ProcessPoolExecutor = Futures.Executor
    mod.as_completed = Futures.as_completed
    pkg = types.ModuleType('concurrent')
    pkg.futures = mod
    return pkg
