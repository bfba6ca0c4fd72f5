"""Concrete runs of a harness on the unmodified /repo sources.

usage: replay.py FILE.json            one record: exit 1 if it reproduces
       replay.py --batch IN OUT       many records, results as JSON

Runs under the interpreter marsh is installed for; no solver, no rewriting.
"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
if sys.get_int_max_str_digits() < 100000:
    pass

from symx import concrete  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run(module, harness, params, record, limit=10):
    mod = importlib.import_module('harness.' + module)
    h = next(x for x in mod.HARNESSES if x.name == harness)
    g = concrete.G(record)
    # processor time, so that a busy machine is not taken for a run that does not end
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(limit * 6)
    status, detail = 'ok', ''
    try:
        h.fn(g, **params)
    except concrete.Assume:
        status = 'assume'
    except Timeout:
        status = 'timeout'
        g.failed.append('nontermination')
    except (Exception, SystemExit) as err:
        status = 'exception'
        detail = ''.join(traceback.format_exception(err))[-3000:]
        g.failed.append('uncaught')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    if hasattr(mod, 'reset'):
        mod.reset()
    return dict(status=status, failed=g.failed, known=g.known, detail=detail,
                checks=g.checks, covers=sorted(g.covers), missing=g.missing,
                observations=[[k, g.concretise(v)] for k, v in g.observations])


def pretty(record):
    out = {}
    for k, v in record.items():
        if v[0] == 'str':
            out[k] = ''.join(map(chr, v[1]))
        elif v[0] == 'bytes':
            out[k] = bytes(v[1])
        else:
            out[k] = v[1]
    return out


def main(argv):
    if argv[0] == '--batch':
        with open(argv[1]) as f:
            jobs = json.load(f)
        res = []
        for j in jobs:
            res.append(run(j['module'], j['harness'], j['params'], j['record'],
                           j.get('limit', 10)))
        with open(argv[2], 'w') as f:
            json.dump(res, f)
        return 0
    with open(argv[0]) as f:
        j = json.load(f)
    r = run(j['module'], j['harness'], j['params'], j['record'])
    print('property :', j.get('property'))
    print('harness  :', j['module'], j['harness'], j['params'])
    for k, v in pretty(j['record']).items():
        print(f'  {k} = {v!r}')
    print('expected :', j.get('label'))
    print('failed   :', r['failed'], '(status', r['status'] + ')')
    for k, v in r['observations']:
        print(f'  observed {k} = {v}')
    if r['detail']:
        print(r['detail'])
    return 1 if r['failed'] else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
