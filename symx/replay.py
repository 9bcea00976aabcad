"""Run harnesses concretely against the real (built) package.

Usage: replay.py CHECKFILE JOBS.json
Each job: {harness, params, values}; prints one JSON line per job."""
import importlib.util
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))


class Timeout(BaseException):
    pass


def onalarm(sig, frame):
    raise Timeout()


def loadcheck(path):
    spec = importlib.util.spec_from_file_location('check', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def runjob(check, job):
    from symx.ctx import ConcreteCtx, ConcreteViolation, Skip
    fn = check.HARNESSES[job['harness']]['fn']
    ctx = ConcreteCtx(job['values'], job['params'])
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(job.get('timeout', 20))
    try:
        fn(ctx)
        res = dict(status='ok')
    except ConcreteViolation as err:
        res = dict(status='violation', msg=str(err))
    except Skip:
        res = dict(status='skip')
    except Timeout:
        res = dict(status='timeout')
    except Exception as err:
        res = dict(status='exception', msg='%s: %s' % (
                type(err).__name__, err),
                tb=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    res['observed'] = ctx.observed
    return res


def main():
    check = loadcheck(sys.argv[1])
    with open(sys.argv[2]) as inp:
        jobs = json.load(inp)
    if isinstance(jobs, dict):
        jobs = [jobs]
    out = os.fdopen(os.dup(1), 'w')
    # keep output of the code under test out of the result stream
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for job in jobs:
        out.write(json.dumps(runjob(check, job)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
