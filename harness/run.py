#!/usr/bin/env python
"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--scale X]"""
import os
import sys
import json
import time
import argparse
import importlib
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--only')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')

    t0 = time.time()
    import vlib
    mod = importlib.import_module('props.%s' % args.property.lower())
    prop = mod.PROPERTY

    if args.replay:
        with open(args.replay) as fp:
            rep = json.load(fp)
        chk = [c for c in mod.CHECKS if c.name == rep['check']][0]
        try:
            vlib.run_one(chk, vlib.decode(rep['case']))
        except vlib.Violation as v:
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            print('  %s: %s' % (chk.name, v))
            return 1
        print('replay holds: %s %s' % (prop, chk.name))
        return 0

    budget = 500. if args.tier == 'quick' else 3 * 3600.
    rec = vlib.Recorder()
    violation = None

    # listed findings: probe each with its own specific input
    known = []
    for f in vlib.known_findings(prop):
        probe = getattr(mod, 'FINDINGS', {}).get(f['id'])
        if probe is None:
            continue
        still = probe()
        known.append(dict(id=f['id'], still_fails=bool(still)))
        if still:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['id'], f['what']))

    for chk in mod.CHECKS:
        if args.only and chk.name != args.only:
            continue
        n = chk.quick if args.tier == 'quick' else chk.thorough
        n = max(1, int(n * args.scale))
        t1 = time.time()
        violation = vlib.explore(chk, n, seed, rec, t0 + budget)
        pc = rec.per_check.setdefault(chk.name, dict(evaluations=0, nontrivial=0))
        pc['wall_s'] = round(time.time() - t1, 2)
        if violation:
            break

    replay = None
    if violation:
        msg, data = violation
        rdir = os.path.join(vlib.VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s-%s-%d.json' % (prop, chk.name, seed))
        with open(replay, 'w') as fp:
            json.dump(dict(property=prop, check=chk.name, seed=seed, message=msg,
                           how='python harness/run.py %s --replay <this file>' % prop,
                           case=vlib.encode(data)), fp, indent=1, default=str)
        rec.samples.append(dict(check=chk.name, violating_case=vlib.brief(dict(data)), message=msg))

    ev = dict(property=prop, tier=args.tier, seed=seed, level='exploration',
              wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=rec.evaluations,
                            distinct_nontrivial=len(rec.nontrivial),
                            rule=mod.RULE,
                            samples=rec.samples[:14],
                            per_check=rec.per_check,
                            labels=dict(sorted(rec.labels.items())),
                            known_findings=known,
                            violation=None if not violation else dict(message=violation[0], replay=replay)))
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vlib.VERIF, 'evidence', '%s.json' % prop), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)

    if violation:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        print('  %s: %s' % (chk.name, violation[0]))
        return 1
    print('ok property=%s evaluations=%d nontrivial=%d wall=%.1fs' % (
        prop, rec.evaluations, len(rec.nontrivial), time.time() - t0))
    for k, v in rec.per_check.items():
        print('   %-32s %s' % (k, v))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
