"""Executes scenarios inside one process. Results are JSON lines on the real stdout."""
import json
import os
import sys
import time

out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)      # stray C-level prints must not mix with results


def emit(d):
    out.write(json.dumps(d) + '\n')
    out.flush()


def main():
    pid, scratch, mode = sys.argv[1:4]
    os.environ['DST_SCRATCH'] = scratch
    from . import core, registry
    check = registry.CHECKS[pid]()
    repo = os.environ['DST_REPO']
    import tmdsimpy
    assert os.path.realpath(tmdsimpy.__file__).startswith(os.path.realpath(repo) + os.sep), tmdsimpy.__file__
    check.warmup()
    if mode == 'batch':
        tier, base, w, nw, nruns, soft = sys.argv[4:10]
        base, w, nw, nruns, soft = int(base), int(w), int(nw), int(nruns), float(soft)
        t0 = time.time()
        nv = 0
        for i in range(w, nruns, nw):
            sc = check.gen(core.make_rng(core.seed_for(pid, base, i)), i, tier)
            r = core.run_one(check, sc)
            r['i'] = i
            if i < 24 or r['violation'] or r['error']:
                r['sc'] = sc
            if not (i < 24 or r['violation']):
                r['trace'] = []
            emit(r)
            nv += bool(r['violation'])
            # the wall limits decide only how many runs are made, never what one run does
            if time.time() - t0 > soft or nv >= 4 or (nv and time.time() - t0 > 45):
                break
    elif mode == 'chain':
        with open(sys.argv[4]) as f:
            for sc in json.load(f):
                emit(core.run_one(check, sc))
    elif mode == 'shrink':
        with open(sys.argv[4]) as f:
            d = json.load(f)
        sc, kind, t0, tried = d['sc'], d['kind'], time.time(), 0
        progress = True
        while progress and time.time() - t0 < d['budget']:
            progress = False
            for cand in check.shrink(sc):
                if time.time() - t0 > d['budget']:
                    break
                tried += 1
                r = core.run_one(check, cand)
                if r['violation'] and r['violation']['kind'] == kind:
                    sc, progress = json.loads(json.dumps(cand)), True
                    break
        emit({'sc': sc, 'tried': tried})
    out.flush()
    sys.stdout.flush()
    os._exit(0)


main()
