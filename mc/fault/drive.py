"""Runs inside a process with the fault injector preloaded: explores the faults of one scenario.

Every store, load and comparison happens in a child forked from a process in
which no netCDF file was ever opened, so that runs cannot influence each other.
"""
import ctypes
import errno
import hashlib
import json
import os
import shutil
import signal
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
import numpy as np
from datetime import datetime, timedelta
import cftime
import netCDF4
import sympl
from sympl import RestartMonitor, DataArray
from mc.core import Violation
from mc.checks.c20 import same

LIB = ctypes.CDLL(None)
LIB.fault_log.restype = ctypes.c_char_p
CRASH, TORN, ERR, SHORT, ERRALL = 1, 2, 3, 4, 5
ERRORS = {'open': [errno.ENOSPC, errno.EACCES], 'open-trunc': [errno.ENOSPC, errno.EACCES], 'creat': [errno.ENOSPC], 'write': [errno.ENOSPC, errno.EIO], 'pwrite': [errno.ENOSPC, errno.EIO],
          'sendfile': [errno.ENOSPC, errno.EIO], 'copy_file_range': [errno.ENOSPC, errno.EIO], 'writev': [errno.EIO], 'pwritev': [errno.EIO],
          'ftruncate': [errno.EIO, errno.ENOSPC], 'truncate': [errno.EIO], 'rename': [errno.EACCES, errno.ENOSPC], 'link': [errno.EACCES], 'symlink': [errno.EACCES], 'unlink': [errno.EACCES],
          'mkdir': [errno.ENOSPC], 'fsync': [errno.EIO], 'fallocate': [errno.ENOSPC], 'flock': [errno.EWOULDBLOCK], 'close': [errno.EIO], 'read': [errno.EIO], 'pread': [errno.EIO]}
WRITES = ('write', 'pwrite', 'sendfile', 'copy_file_range')


def da(v, dims, units, **kw):
    return DataArray(np.array(v), dims=dims, attrs=dict(kw, units=units))


def small(i):
    return {'time': datetime(2000, 1, 1) + timedelta(hours=i), 'T': da(np.arange(6.).reshape(2, 3) + i, ['x', 'y'], 'degK'), 'n': da(np.array([i, 2], dtype='i4'), ['x'], '')}


def multi(i):
    st = small(i)
    for k in range(4):
        st['q%d' % k] = da(np.arange(8.) * k + i, ['z'], 'm', long_name='quantity')
    st['s'] = da(3.5 + i, [], 's')
    return st


def large(i):
    return {'time': timedelta(seconds=i), 'T': da(np.arange(40000.).reshape(200, 200) + i, ['x', 'y'], 'degK'), 'U': da(np.arange(40000.).reshape(200, 200) * 2 - i, ['x', 'y'], 'm/s')}


def huge(i):
    return {'time': cftime.DatetimeNoLeap(2000, 1, 1 + i), 'T': da(np.arange(200000.).reshape(20, 100, 100) * (i + 1), ['z', 'x', 'y'], 'degK')}


STATES = {'small': small, 'multi': multi, 'large': large, 'huge': huge}
# (old state, new state, third state); None: there is no restart file yet
SCENARIOS = {
    'small': (lambda: small(0), lambda: small(1), lambda: small(2)),
    'multi': (lambda: multi(0), lambda: multi(1), lambda: small(2)),
    'shrink': (lambda: large(0), lambda: small(1), lambda: multi(2)),
    'grow': (lambda: small(0), lambda: large(1), lambda: small(2)),
    'huge': (lambda: huge(0), lambda: huge(1), lambda: small(2)),
    'first': (None, lambda: multi(1), lambda: small(2)),
}


def fork(fn):
    """Run fn() in a child; returns (exit status, text sent back)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.alarm(60)
            text = fn() or ''
            code = 0
        except Violation as err:
            text, code = str(err), 98
        except BaseException:
            text, code = traceback.format_exc(), 99
        try:
            os.write(w, text.encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)), b''.join(chunks).decode(errors='replace')


# files of others in the same directory, which no store may touch
NEIGHBOURS = ['restart', 'restart.new', 'restart.old', 'other.nc', 'restart2.nc', 'estart.nc']


class Explorer(object):
    def __init__(self, scenario, base, how):
        self.old, self.new, self.third = SCENARIOS[scenario]
        self.name = scenario
        self.dir = os.path.join(base, 'd', '')
        self.path = os.path.join(self.dir, 'restart.nc')
        self.save = os.path.join(base, 'saved.nc')
        self.how = how
        self.runs = 0
        self.outcomes = {}
        if self.old:
            os.makedirs(self.dir)
            rc, text = fork(lambda: RestartMonitor(self.path).store(self.old()))
            self.expect(rc == 0, 'storing without faults failed:\n' + text)
            shutil.copyfile(self.path, self.save)

    def expect(self, ok, text):
        if not ok:
            raise Violation(text)

    def reset(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for name in NEIGHBOURS:
            with open(os.path.join(self.dir, name), 'wb') as f:
                f.write(b'of others')
        if self.old:
            shutil.copyfile(self.save, self.path)

    def neighbours(self, what):
        for name in NEIGHBOURS:
            path = os.path.join(self.dir, name)
            self.expect(os.path.exists(path) and open(path, 'rb').read() == b'of others', '{}: the file {} of others in the same directory was altered'.format(what, name))

    def which(self, what, allowed=None):
        """Load in a fresh process: which of the allowed states is there, complete, or a violation."""
        allowed = allowed or [('new', self.new), ('old', self.old)]

        def load():
            got = RestartMonitor(self.path).load()
            for label, st in allowed:
                if st is None:
                    continue
                try:
                    same(got, st(), label)
                    return label
                except Violation as err:
                    why = str(err)
            raise Violation('the loaded state is none of those that were stored completely: ' + why[:500])
        rc, text = fork(load)
        if rc != 0 and any(st is None for _, st in allowed) and not os.path.exists(self.path):
            return 'none'
        self.expect(rc == 0, '{}: loading afterwards gives\n{}'.format(what, text if rc != -14 else 'a hang'))
        self.neighbours(what)
        return text

    def again(self, what):
        """Storing again works in a fresh process."""
        def store():
            RestartMonitor(self.path).store(self.third())
            same(RestartMonitor(self.path).load(), self.third(), 'stored again')
        rc, text = fork(store)
        self.expect(rc == 0, '{}: storing again fails:\n{}'.format(what, text))

    def attempt(self, faults, inprocess):
        """Store with faults; status 0 returned, 50 exception, 137 crashed."""
        def go():
            mon = RestartMonitor(self.path)
            if self.how == 'reused' and self.old:
                mon.store(self.old())
            LIB.fault_clear()
            for f in faults:
                LIB.fault_add(*f)
            LIB.fault_arm(self.dir.encode())
            try:
                mon.store(self.new())
                failed = None
            except Exception as err:
                failed = err
            LIB.fault_disarm()
            text = LIB.fault_log().decode()
            if inprocess and failed is not None:
                # the process lives on: storing again with the same monitor works
                failed = None
                try:
                    mon.store(self.third())
                    same(mon.load(), self.third(), 'stored again in the same process')
                except Exception:
                    raise Violation('storing again in the same process fails:\n' + traceback.format_exc())
                return 'again'
            return ('failed ' if failed is not None else 'done ') + text
        return fork(go)

    def run(self, faults, desc, again=True):
        self.reset()
        self.runs += 1
        what = '{} {} {}'.format(self.name, self.how, desc)
        rc, text = self.attempt(faults, False)
        crashed = rc == 137
        if rc < 0:
            # the library itself aborted: the process died, the file has to be there
            crashed = True
        self.expect(crashed or rc == 0, '{}: {}'.format(what, text))
        got = self.which(what)
        failed = not crashed and text.startswith('failed')
        if not crashed and not failed:
            self.expect(got == 'new', '{}: store returned normally, but the {} state is loaded'.format(what, got))
        if again and not crashed:
            self.again(what)
        if failed and again:
            self.reset()
            rc, text2 = self.attempt(faults, True)
            self.expect(rc in (0, 98) or rc < 0, '{}: {}'.format(what, text2))
            self.expect(rc != 98, '{}: {}'.format(what, text2))
            if rc == 0:
                self.expect(text2.startswith('again'), '{}: not deterministic'.format(what))
        key = ('crash' if crashed else 'failed' if failed else 'done') + ' ' + got
        self.outcomes[key] = self.outcomes.get(key, 0) + 1
        return text

    def snapshot(self):
        out = {}
        for name in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, name), 'rb') as f:
                out[name] = f.read()
        return out

    def restore(self, snap):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for name, data in snap.items():
            with open(os.path.join(self.dir, name), 'wb') as f:
                f.write(data)

    def histories(self, part, parts):
        """What every death of a first store leaves behind, then a second store in a new
        process (another state) that dies or fails at any of its operations."""
        log = self.attempt_at(self.new, [])[1].split()[1:]
        left = {}
        for i in range(len(log)):
            for f in [(i, CRASH, 0)] + ([(i, TORN, k) for k in (1, 3)] if log[i] in WRITES else []):
                self.reset()
                self.attempt_at(self.new, [f])
                self.runs += 1
                snap = self.snapshot()
                key = hashlib.sha1(repr(sorted(snap.items())).encode()).hexdigest()
                left.setdefault(key, (snap, 'died at operation {} ({})'.format(i, log[i])))
        keys = sorted(left)
        self.outcomes['directories left by a death'] = len(keys)
        for key in keys[part::parts]:
            snap, desc = left[key]
            self.restore(snap)
            before = self.which(desc)
            labels = {'old': self.old, 'new': self.new, 'none': None}
            allowed = [('before', labels[before]), ('third', self.third)]
            rc, text = self.attempt_at(self.third, [])
            self.runs += 1
            self.expect(rc == 0, '{}, then a store: {}'.format(desc, text))
            got = self.which(desc + ', then a store', allowed)
            self.expect(text.startswith('failed') or got == 'third', '{}, then a store that returned: the {} state is loaded'.format(desc, got))
            ops = text.split()[1:]
            for j in range(len(ops)):
                faults = [(j, CRASH, 0), (j, ERR, ERRORS[ops[j]][0])] + ([(j, TORN, 2)] if ops[j] in WRITES else [])
                for f in faults:
                    self.restore(snap)
                    self.runs += 1
                    what = '{}, then a store with {} at operation {} ({})'.format(desc, 'an error' if f[1] == ERR else 'a death', j, ops[j])
                    rc, text = self.attempt_at(self.third, [f])
                    self.expect(rc == 0 or rc == 137 or rc < 0, what + ': ' + text)
                    got = self.which(what, allowed)
                    self.expect(rc != 0 or text.startswith('failed') or got == 'third', what + ': the {} state is loaded'.format(got))
                    k = 'history {} {}'.format('failed' if rc == 0 and text.startswith('failed') else 'done' if rc == 0 else 'crash', got)
                    self.outcomes[k] = self.outcomes.get(k, 0) + 1
        return len(log)

    def attempt_at(self, state, faults):
        def go():
            mon = RestartMonitor(self.path)
            LIB.fault_clear()
            for f in faults:
                LIB.fault_add(*f)
            LIB.fault_arm(self.dir.encode())
            try:
                mon.store(state())
                failed = None
            except Exception as err:
                failed = err
            LIB.fault_disarm()
            return ('failed ' if failed is not None else 'done ') + LIB.fault_log().decode()
        return fork(go)

    def trace_lines(self, part, parts):
        """An exception at every line of the library executed by a store."""
        root = os.path.dirname(os.path.abspath(sympl.__file__))

        def attempt(at, inprocess):
            def go():
                mon = RestartMonitor(self.path)
                n = [0]

                def tracer(frame, event, arg):
                    if not frame.f_code.co_filename.startswith(root):
                        return None
                    if event == 'line':
                        n[0] += 1
                        if n[0] == at:
                            sys.settrace(None)
                            raise MemoryError('injected')
                    return tracer
                st = self.new()
                sys.settrace(tracer)
                try:
                    mon.store(st)
                    failed = False
                except MemoryError:
                    failed = True
                finally:
                    sys.settrace(None)
                if failed and inprocess:
                    mon.store(self.third())
                    same(mon.load(), self.third(), 'stored again in the same process')
                return '{} {}'.format('failed' if failed else 'done', n[0])
            return fork(go)
        self.reset()
        rc, text = attempt(-1, False)
        self.expect(rc == 0, 'traced store failed: ' + text)
        total = int(text.split()[1])
        for at in range(1 + part, total + 1, parts):
            self.runs += 1
            what = '{}: MemoryError at line event {} of {}'.format(self.name, at, total)
            self.reset()
            rc, text = attempt(at, False)
            self.expect(rc == 0, what + ': ' + text)
            got = self.which(what)
            self.again(what)
            self.reset()
            rc, text = attempt(at, True)
            self.expect(rc == 0, what + ': ' + text)
            key = 'exception ' + text.split()[0] + ' ' + got
            self.outcomes[key] = self.outcomes.get(key, 0) + 1
        return total


def explore(case, base):
    ex = Explorer(case['scenario'], base, case['how'])
    log = ex.run([], 'no fault').split()[1:]
    n = len(log)
    if n < 5:
        raise Violation('only {} file operations were seen: the injector is not effective'.format(n))
    mode = case['mode']
    ops = log
    if mode == 'crash':
        for i in range(n):
            ex.run([(i, CRASH, 0)], 'dying before operation {} ({}) of {}'.format(i, ops[i], n))
            if ops[i] in WRITES:
                for k in (0, 1, 2, 3, 4):
                    ex.run([(i, TORN, k)], 'dying within operation {} ({}) of {}, {}/4 done'.format(i, ops[i], n, k))
    elif mode == 'error':
        for i in range(n):
            for e in ERRORS[ops[i]]:
                ex.run([(i, ERR, e)], 'error {} in operation {} ({}) of {}'.format(errno.errorcode[e], i, ops[i], n))
    elif mode == 'full':
        for i in range(n):
            for e in (errno.ENOSPC, errno.EIO):
                ex.run([(i, ERRALL, e)], 'error {} in every write from operation {} of {}'.format(errno.errorcode[e], i, n))
            if ops[i] in WRITES + ('read', 'pread'):
                ex.run([(i, SHORT, 0)], 'short transfer in operation {} ({}) of {}'.format(i, ops[i], n))
    elif mode == 'pairs':
        # an error, followed by another error or the death of the process in what the store does about it
        for i in range(case['part'], n, case['parts']):
            e = ERRORS[ops[i]][0]
            ex.reset()
            rc, text = ex.attempt([(i, ERR, e)], False)
            ops2 = text.split()[1:] if rc == 0 else ops
            for j in range(i + 1, len(ops2)):
                d = 'error in operation {} ({}) and '.format(i, ops[i])
                ex.run([(i, ERR, e), (j, CRASH, 0)], d + 'dying before operation {} ({})'.format(j, ops2[j]), again=False)
                ex.run([(i, ERR, e), (j, ERR, ERRORS[ops2[j]][0])], d + 'error in operation {} ({})'.format(j, ops2[j]), again=False)
    elif mode == 'histories':
        n = ex.histories(case['part'], case['parts'])
    elif mode == 'lines':
        n = ex.trace_lines(case['part'], case['parts'])
    return {'runs': ex.runs, 'ops': n, 'outcomes': ex.outcomes, 'log': ' '.join(log)[:2000]}


if __name__ == '__main__':
    case = json.loads(sys.argv[1])
    try:
        res = explore(case, sys.argv[2])
    except Violation as err:
        res = {'violation': str(err)}
    print('RESULT ' + json.dumps(res))
