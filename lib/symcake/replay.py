"""Replays of solver models on the real code (g++, address and undefined-behaviour sanitizers; clang + thread sanitizer)."""
import os, subprocess, concurrent.futures as cf, threading, time
from . import stage
VERIF = os.path.dirname(stage.LIB)
BASEF = ['-w', '-g', '-O1', '-fopenmp']
WRAP = ['-Wl,' + ','.join('--wrap=' + n for n in ('malloc', 'calloc', 'realloc', 'posix_memalign', 'free', 'popen', 'pclose'))]
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']

class Build:
    """compiles a replay driver with the current sources, in the background"""
    def __init__(self, d, driver='gemm.cpp', kind='asan'):
        self.d, self.driver, self.kind = d, driver, kind
        self.exe = None
        self.err = None
        self.t = threading.Thread(target=self.go, daemon=True)
        self.t.start()
    def go(self):
        try:
            od = os.path.join(self.d, 'rb.%s.%s' % (self.kind, self.driver))
            os.makedirs(od, exist_ok=True)
            inc = ['-I' + os.path.join(self.d, 'include')]
            if self.kind == 'asan': cc = ['g++'] + BASEF + stage.native(self.d) + ASAN
            else:
                cc = ['clang++'] + BASEF + stage.native(self.d) + ['-fsanitize=thread']
                inc = ['-I' + os.path.join(stage.LIB, 'stubs')] + inc
            srcs = [os.path.join(VERIF, 'replay', self.driver)] + stage.sources(self.d)
            if self.kind == 'tsan': srcs.append(os.path.join(VERIF, 'replay', 'kmpc.cpp'))
            objs = []
            with cf.ThreadPoolExecutor(8) as ex:
                js = []
                for f in srcs:
                    o = os.path.join(od, os.path.basename(f) + '.o')
                    objs.append(o)
                    js.append(ex.submit(stage.sh, cc + inc + ['-c', f, '-o', o], self.d))
                for j in js: j.result()
            exe = os.path.join(od, 'run')
            link = ['g++'] + ASAN + ['-fopenmp'] if self.kind == 'asan' else ['clang++', '-fsanitize=thread', '-lpthread']
            stage.sh(link[:1] + objs + ['-o', exe] + WRAP + link[1:], self.d)
            self.exe = exe
        except Exception as x:
            self.err = str(x)[-1500:]
    def wait(self):
        self.t.join()
        return self.exe

def run(exe, configs, lim=60, deadline=None, jobs=8, env=None):
    """[(config, 'ok' | message | None)]"""
    ev = dict(os.environ)
    ev['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1'
    ev['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    ev['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    ev['OMP_WAIT_POLICY'] = 'passive'
    if env: ev.update(env)
    res = {}
    def part(cs):
        t = 900 if deadline is None else max(5, deadline - time.time())
        try:
            p = subprocess.run([exe, str(lim)], input='\n'.join(cs) + '\n', env=ev, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, text=True, errors='replace')
            out, er = p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            out, er = (x.stdout or b''), ''
            if isinstance(out, bytes): out = out.decode(errors='replace')
        for l in out.splitlines():
            if l.startswith('RES '):
                _, i, rest = l.split(' ', 2)
                res[cs[int(i)]] = rest if rest == 'ok' else rest[4:]
        for l in er.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l:
                notes.append(l.strip()[:200])
    notes = []
    n = max(1, min(jobs, len(configs)))
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(part, [c for c in (configs[i::n] for i in range(n)) if c]))
    return [(c, res.get(c)) for c in configs], notes
