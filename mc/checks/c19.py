"""C19: a restart file survives a crash or an I/O error at any point of a store."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from mc.core import Violation, require

LEVEL = 'fault_enumeration'
RULE = ('For each scenario (small, many, large and growing or shrinking states, no previous file; new or reused monitor): the '
        'process dies before every file-system operation of the store and within every write with five torn prefixes; every '
        'operation fails once with each of its errors; every write from each operation on fails; every transfer is short; pairs '
        '(an error, then an error or death during the handling of it); every distinct directory that a death leaves, then a second '
        'store in a new process that dies or fails at every operation; an exception at every executed line of the library. '
        'After each run the file is loaded in a fresh process and compared with the complete previous and new state, and '
        'storing again is tried in the same and in a fresh process. Files of others with similar names in the same directory stay as they are.')
ASSUMPTIONS = ['The process dies but the machine survives: writes completed before the death are not lost (no power failure).',
               'File operations are seen at the libc boundary by an LD_PRELOAD injector built from mc/fault/fault.c.',
               'After two faults only the loaded state is checked; a file left by a death may make the next store refuse.',
               'rename() is atomic, as POSIX promises.']
CASE_TIMEOUT = 800
SCEN = ['small', 'multi', 'shrink', 'grow', 'huge', 'first']


def cases(tier):
    for mode in ('crash', 'error', 'full', 'lines'):
        for s in SCEN:
            for how in ('new', 'reused'):
                if how == 'reused' and (mode == 'lines' or s == 'first'):
                    continue
                if tier == 'quick' and (s == 'huge' or how == 'reused' and s != 'small' or mode == 'lines' and s not in ('small', 'first')):
                    continue
                if mode == 'lines':
                    for p in range(4):
                        yield {'scenario': s, 'how': how, 'mode': mode, 'part': p, 'parts': 4}
                    continue
                yield {'scenario': s, 'how': how, 'mode': mode}
    for s in (['small'] if tier == 'quick' else ['small', 'multi', 'grow', 'first']):
        for p in range(8):
            yield {'scenario': s, 'how': 'new', 'mode': 'pairs', 'part': p, 'parts': 8}
    for s in (['small', 'first'] if tier == 'quick' else SCEN):
        parts = 4 if tier == 'quick' else 8
        for p in range(parts):
            yield {'scenario': s, 'how': 'new', 'mode': 'histories', 'part': p, 'parts': parts}


SO = []


def injector():
    if not SO:
        d = os.environ.get('MC_SCRATCH') or tempfile.gettempdir()
        so = os.path.join(d, 'fault_%d.so' % os.getpid())
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fault', 'fault.c')
        subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-o', so, src, '-ldl'], check=True)
        SO.append(so)
    return SO[0]


def run(case, obs):
    base = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    try:
        env = dict(os.environ, LD_PRELOAD=injector())
        p = subprocess.run([sys.executable, '-m', 'mc.fault.drive', json.dumps(case), base], env=env, cwd=base,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=CASE_TIMEOUT - 20)
        lines = [l for l in p.stdout.decode().splitlines() if l.startswith('RESULT ')]
        require(lines, 'the driver failed ({}):\n{}', p.returncode, p.stderr.decode()[-3000:].replace('{', '(').replace('}', ')'))
        res = json.loads(lines[0][7:])
        if 'violation' in res:
            raise Violation(res['violation'])
        obs.step(res['runs'])
        for k, n in res['outcomes'].items():
            obs.outcome(k)
            obs.count(k, n)
        for i in range(res['runs']):
            obs.state([case, i])
        obs.sample({'case': case, 'operations': res['log'][:400]})
    finally:
        shutil.rmtree(base, ignore_errors=True)
