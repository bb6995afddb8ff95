"""Exhaustive exploration of the trace partitions of a scenario."""
import time

from .interp import (Interp, PyRaise, Unsupported, Pruned, Violation)
from .values import Term, show


class Result:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.bounded = {}
        self.undecided = []
        self.violations = []
        self.capped = False
        self.wall = 0.0
        self.obligations = 0


def explore(prog, scenario, max_paths=4000, max_time=60.0, name=''):
    it = Interp(prog)
    it.loading = False
    res = Result()
    t0 = time.time()
    work = [[]]
    while work:
        if res.paths + res.pruned >= max_paths or \
                time.time() - t0 > max_time:
            res.capped = True
            break
        prefix = work.pop()
        it.reset(prefix)
        n0 = len(Term._table)
        it.res = res
        try:
            scenario(it)
            res.paths += 1
        except Violation as v:
            res.paths += 1
            if it.imprecise:
                res.undecided.append('%s (imprecise: %s)'
                                     % (v, it.imprecise[0]))
            else:
                res.violations.append({
                    'rule': name, 'message': str(v),
                    'where': v.loc or it.last_loc or it.loc(),
                    'path': [dict(choice=c, of=n, cond=l, at=where)
                             for c, n, l, where in it.trace]})
        except Unsupported as e:
            res.undecided.append(str(e))
        except Pruned as e:
            res.pruned += 1
            if e.bounded:
                res.bounded[str(e)] = res.bounded.get(str(e), 0) + 1
        except PyRaise as e:
            res.paths += 1
            if it.imprecise or not e.loc:
                res.undecided.append('scenario let %s escape at %s'
                                     % (e.val, e.loc))
            else:
                res.violations.append({
                    'rule': name, 'message': 'the analysed code raises %s' % (
                        e.val.cls.name if hasattr(e.val, 'cls') else e.val),
                    'where': e.loc,
                    'path': [dict(choice=c, of=n, cond=l, at=where)
                             for c, n, l, where in it.trace]})
        except RecursionError:
            res.undecided.append('recursion')
        except Exception as e:
            import os
            if os.environ.get('ENGINE_DEBUG'):
                import traceback
                traceback.print_exc()
            res.undecided.append('engine: %s: %s at %s' % (
                type(e).__name__, e, it.loc()))
        for b in it.bounded:
            res.bounded[b] = res.bounded.get(b, 0) + 1
        trace = it.trace
        it.undo()
        for i in range(len(prefix), len(trace)):
            c, n, l, w = trace[i]
            for alt in range(n - 1, 0, -1):
                work.append([x[0] for x in trace[:i]] + [alt])
        if len(Term._table) > 400000:
            drop = list(Term._table)[n0:]
            for k in drop:
                del Term._table[k]
    res.wall = time.time() - t0
    return res
