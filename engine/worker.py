"""Runs one harness entry symbolically: worker.py LL ENTRY OPTS_JSON OUT_JSON SECONDS"""

import json
import os
import resource
import sys
import time
import traceback


def main():
    ll, entry, opts, out, secs = sys.argv[1:6]
    opts = json.loads(opts)
    mem = int(opts.get('mem', 7)) << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.setrecursionlimit(100000)
    t0 = time.time()
    from . import ir, symex
    from .dom import DomainError
    import z3
    with open(ll) as f:
        mod = ir.parse_module(f.read())
    z3.set_param('memory_max_size', 6000)
    if 'seed' in opts:
        z3.set_param('smt.random_seed', int(opts['seed']))
        z3.set_param('sat.random_seed', int(opts['seed']))
    ex = symex.Exec(mod, opts)
    res = {'entry': entry, 'status': 'ok'}
    if opts.get('blind'):
        # keep what was found so far, the solver may hang again
        def dump():
            r = dict(res, stats=ex.stats, functions=ex.funcs_used, inconclusive=['no answer in time'], missed=[],
                     weak=[], sites=len(ex.sites), notes=sorted(ex.notes), inputs=len(ex.inputs), witness=[],
                     violations=[dict(kind='unfinished', msg='no answer in time (inputs guessed)', inputs=ex.seen[0],
                                      more=ex.seen[1:], where='')], wall=time.time() - t0)
            with open(out + '.tmp', 'w') as f:
                json.dump(r, f)
            os.rename(out + '.tmp', out)
        ex.dump = dump
        try:
            ex.run(entry, float(secs))
        except Exception:
            pass
        return
    try:
        ex.run(entry, float(secs))
    except symex.Inconclusive as e:
        ex.inconcl.append(str(e))
    except (DomainError, symex.NeedSort, ir.IRError) as e:
        ex.inconcl.append('%s: %s' % (type(e).__name__, e))
        if opts.get('debug'):
            traceback.print_exc()
    except (MemoryError, z3.Z3Exception) as e:
        ex.inconcl.append('%s: %s' % (type(e).__name__, e))
        if opts.get('debug'):
            traceback.print_exc()
    except Exception as e:
        ex.inconcl.append('internal: %s: %s' % (type(e).__name__, e))
        traceback.print_exc()
    if ex.inconcl:
        ex.probe(ex.inconcl[-1])
    # vacuity guard: every assertion site of the functions executed must have been reached
    missed = []
    for name in ex.funcs_used:
        for blk in mod.funcs[name].code:
            for ins in blk:
                if ins.op == 'call' and ins.a in ('@vassert_', '@vclose_', '@vreach'):
                    s = ex.sites.get(id(ins))
                    if s is None:
                        missed.append(name + ': ' + ins.src[:120])
    weak = [s[1] for s in ex.sites.values() if s[2] != 'sat']
    res.update(stats=ex.stats, functions=ex.funcs_used, inconclusive=ex.inconcl, missed=missed,
               weak=weak, sites=len(ex.sites), notes=sorted(ex.notes), inputs=len(ex.inputs),
               witness=[{'at': s[1], 'inputs': dict(list(s[3].items())[:12])} for s in list(ex.sites.values())[:3]],
               violations=[dict(kind=v.kind, msg=v.msg, inputs=v.inputs, more=v.more, where=v.where)
                           for v in ex.viol],
               wall=time.time() - t0)
    with open(out, 'w') as f:
        json.dump(res, f)


main()
