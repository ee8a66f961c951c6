"""Runs the verifier on contracts of one dumped module."""
import json
import sys
import time
import traceback

sys.path.insert(0, __import__('os').path.dirname(__file__))
sys.setrecursionlimit(100000)
import z3

from terms import *
import engine
import hooks


def run_contract(module, name, deadline=300.0, trace=False, summaries=()):
    """returns a result dictionary for one contract function"""
    E = engine.Engine(module, hooks.HOOKS, deadline, trace)
    E.cstrs = {}
    E.index_terms = []
    t0 = time.time()
    res = {'contract': name, 'obligations': [], 'unsupported': None, 'covers': {}}
    try:
        st = engine.State()
        f = E.fns[name]
        args = []
        refs = []
        for i, a in enumerate(f.args):
            nm = f'in_{a["name"] or i}'
            if a['ty'] == 'ptr':
                r = z3.Int(nm)
                E.fact(st, z3.And(r > 0, r < engine.FRESH0))
                refs.append(r)
                args.append(Ptr(r, 0))
            elif a['ty'] in ('double', 'float'):
                args.append(z3.Real(nm))
            elif a['ty'] == 'i1':
                args.append(z3.Bool(nm))
            else:
                v = z3.Int(nm)
                E.index_terms.append(v)
                b = engine.INT_BITS[a['ty']]
                E.fact(st, z3.And(v >= -2 ** (b - 1), v < 2 ** (b - 1)))
                args.append(v)
        if len(refs) > 1:
            E.fact(st, z3.Distinct(*refs))
        outs = E.exec_func(st, f, args)
        nret = 0
        for s, kind, v in outs:
            if kind == 'ret':
                if E.feasible(s):
                    nret += 1
            elif kind == 'exc':
                if E.feasible(s):
                    E.prove(s, False, f'{name}/no uncaught exception ({v[0]})')
        E.covers['end of ' + name] = nret > 0
    except Unsupported as e:
        res['unsupported'] = str(e)
        if trace:
            traceback.print_exc()
    except RecursionError:
        res['unsupported'] = 'recursion depth of the verifier'
    except z3.Z3Exception as e:
        res['unsupported'] = 'solver: ' + str(e)[:200]
        if trace:
            traceback.print_exc()
    except Exception as e:
        res['unsupported'] = f'internal: {type(e).__name__} {e}'
        if trace:
            traceback.print_exc()
    for o in E.obls:
        res['obligations'].append({'name': o.name, 'status': o.status, 'time': round(o.time, 3), 'backend': o.backend,
                                   'reason': o.reason,
                                   'model': model_text(o.model) if o.model is not None and o.status != 'proved' else ''})
    res['covers'] = E.covers
    res['functions'] = sorted(set(E.fns[n].dem for n in E.funcs_used))
    res['contracts_used'] = sorted(E.contracts_used)
    res['assumptions'] = sorted(E.assumptions)
    res['solver_time'] = round(E.solver_time, 3)
    res['wall'] = round(time.time() - t0, 3)
    res['instructions'] = E.ninstr
    res['stack'] = getattr(E, 'lastfn', '')
    return res


def model_text(m):
    try:
        return str(m)[:3000]
    except Exception:
        return ''


if __name__ == '__main__':
    mod = json.load(open(sys.argv[1]))
    names = sys.argv[2:] or [k for k in mod['functions'] if k.startswith('vc_')]
    for n in names:
        r = run_contract(mod, n, trace=True)
        print(n, 'UNSUPPORTED ' + r['unsupported'] if r['unsupported'] else 'ok', 'wall', r['wall'], 'instr',
              r['instructions'], 'solver', r['solver_time'])
        for o in r['obligations']:
            print('   ', o['status'], o['name'], o['time'], o['backend'], o['reason'], o['model'][:1500])
        print('   ', r['covers'])
