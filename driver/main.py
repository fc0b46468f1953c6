import json
import os
import sys
import traceback

import common
import simple
import stream

MODULE = {'C01': stream, 'C02': stream, 'C03': stream, 'C04': stream, 'C07': stream, 'C16': stream, 'C20': stream}
MODULE.update({p: simple for p in simple.SPECS})


def main(argv):
    if not argv or argv[0] not in MODULE:
        print(__import__('__main__').__doc__)
        sys.exit(2)
    prop = argv[0]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    tmp = common.scratch()
    code = 2
    try:
        mod = MODULE[prop]
        common.say('property %s, seed %d, tier %s' % (prop, seed, tier))
        if '--replay' in argv:
            path = argv[argv.index('--replay') + 1]
            with open(path) as f:
                sc = json.load(f)
            r = mod.replay(prop, sc, tmp)
            if r:
                print('%s: %s' % (r[0], r[1]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                code = 1
            else:
                print('the replay shows no violation')
                code = 0
        else:
            cov, violation, assume = mod.check(prop, seed, tier, tmp, '--keep-going' in argv)
            common.evidence(prop, tier, seed, cov.pop('level', 'exploration'), cov, assume, 1 if violation else 0)
            if violation:
                print('%s: %s' % (violation['class'], violation['detail']))
                print('VIOLATION property=%s replay=%s' % (prop, violation['path']), flush=True)
                code = 1
            else:
                for key, text in common.known_findings(prop):
                    if key in cov.get('known_findings_seen', []):
                        print('KNOWN-FINDING: property=%s %s' % (prop, text))
                common.say('%s held on %d runs' % (prop, cov['evaluations']))
                code = 0
    except common.HarnessError as e:
        print('harness error: %s' % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        common.rmtree(tmp)
    sys.stdout.flush()
    os._exit(code)
