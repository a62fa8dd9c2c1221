"""Worker process: imports the third-party stack and the package once, then runs
each requested scenario in pristine forked children.  JSON lines on fds 3/4."""
import importlib
import json
import os
import sys
import time
import traceback


BATCH = 6           # consecutive runs share their call specifications (and so their oracles)


def main():
    prop_id = sys.argv[1]
    rfd, wfd = int(sys.argv[2]), int(sys.argv[3])
    fin = os.fdopen(rfd, 'r', buffering=1)
    fout = os.fdopen(wfd, 'w', buffering=1)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dst import forkrun, rng

    def send(o):
        fout.write(json.dumps(o, default=str) + '\n')
        fout.flush()
    try:
        mod = importlib.import_module(f'dst.props.{prop_id.lower()}')
        prop = mod.Prop()
        prop.prepare()
    except BaseException:       # noqa: BLE001
        send({'fatal': traceback.format_exc()})
        return
    send({'ready': True, 'pid': os.getpid()})
    for line in fin:
        req = json.loads(line)
        t0 = time.monotonic()
        try:
            prop.fam_seed = (req.get('seed'), prop_id, 'family', (req.get('i') or 0) // BATCH)
            if req['cmd'] == 'gen_run':
                r = rng.rng_of(req['seed'], prop_id, req['i'])
                sc = prop.gen(r, req['i'], req['tier'])
                rep = prop.run(sc, timeout=req.get('timeout', 60.0))
                keep = bool(rep['viol']) or req.get('want_scenario')
                out = {'i': req['i'], 'rep': rep, 'sc': sc if keep else None}
            elif req['cmd'] == 'gen':
                r = rng.rng_of(req['seed'], prop_id, req['i'])
                out = {'i': req['i'], 'sc': prop.gen(r, req['i'], req['tier'])}
            elif req['cmd'] == 'run':
                rep = prop.run(req['sc'], timeout=req.get('timeout', 60.0), capture=req.get('capture', False))
                out = {'rep': rep}
            elif req['cmd'] == 'minimize':
                from dst import minimize
                out = minimize.minimize(prop, req['sc'], req['viol'], req['budget_s'])
            else:
                out = {'error': 'unknown command'}
        except forkrun.ChildTimeout as e:
            out = {'i': req.get('i'), 'timeout': str(e)}
        except BaseException:   # noqa: BLE001
            out = {'i': req.get('i'), 'error': traceback.format_exc()[-3000:]}
        out['wall'] = time.monotonic() - t0
        send(out)


if __name__ == '__main__':
    main()
