"""Runs one shard of the cases of one check; results go to a pickle file.

    python -m mc.worker CID TIER SHARD NSHARDS OUT          explore a shard
    python -m mc.worker CID TIER replay CASEFILE            run one case, exit 1 on violation
"""
import importlib
import json
import os
import pickle
import signal
import sys
import traceback
import warnings


# cases a check shares with C36 to C39: scenarios under other names, representations and sizes
LABELS = {'names': 'c36', 'forms': 'c37', 'sizes': 'c38', 'units': 'c39'}


def all_cases(mod, tier):
    for case in mod.cases(tier):
        yield case
    for name in getattr(mod, 'SCENARIOS', ()):
        for other in sorted(LABELS.values()):
            for case in importlib.import_module('mc.checks.' + other).few(name):
                yield case


def on_alarm(signum, frame):
    from mc.core import Violation
    raise Violation('no answer within the time allowed for one case (hang)')


def run_case(mod, case, obs):
    """Returns None or the text of the violation."""
    from mc.core import Violation
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(mod, 'CASE_TIMEOUT', 300))
    try:
        if case.get('scenario') and case.get('kind') in LABELS:
            importlib.import_module('mc.checks.' + LABELS[case['kind']]).run(case, obs)
        else:
            mod.run(case, obs)
        return None
    except Violation as err:
        return str(err)
    except Exception:
        return 'unexpected exception:\n' + traceback.format_exc()
    finally:
        signal.alarm(0)


def main(argv):
    warnings.simplefilter('ignore')
    cid, tier = argv[0], argv[1]
    from mc.core import Obs
    mod = importlib.import_module('mc.checks.' + cid.lower())
    if argv[2] == 'replay':
        with open(argv[3]) as f:
            rep = json.load(f)
        for case in rep['cases']:
            text = run_case(mod, case, Obs())
            if text is not None:
                print(text)
                return 1
        return 0
    shard, nshards, out = int(argv[2]), int(argv[3]), argv[4]
    obs = Obs()
    violation = None
    ncases = 0
    done = []
    known = set(os.environ.get('MC_KNOWN', '').split())
    known_hit = []
    from mc.core import digest
    def safe_cases():
        # a failure to build the cases comes from the code under test
        try:
            for case in all_cases(mod, tier):
                yield case
        except Exception:
            yield {'failed': traceback.format_exc()}

    for i, case in enumerate(safe_cases()):
        if 'failed' in case:
            violation = {'index': i, 'case': None, 'text': case['failed'], 'digest': '', 'prefix': None}
            break
        case = json.loads(json.dumps(case))
        if i % nshards != shard:
            continue
        ncases += 1
        text = run_case(mod, case, obs)
        done.append(case)
        if text is None:
            obs.traces += 1
            if ncases <= 2:
                obs.sample({'case_index': i, 'case': case})
        else:
            d = digest([cid, case]).hex()
            if d in known:
                known_hit.append((d, text))
                continue
            violation = {'index': i, 'case': case, 'text': text, 'digest': d,
                         'prefix': done[:]}
            break
    with open(out + '.tmp', 'wb') as f:
        pickle.dump({'obs': obs.__dict__, 'violation': violation,
                     'ncases': ncases, 'known': known_hit}, f)
    os.rename(out + '.tmp', out)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
