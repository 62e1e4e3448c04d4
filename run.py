#!/usr/bin/env python3
"""Driver of the property checks.

  run.py check <ID>          run the check of one property (VERIF_SEED, VERIF_TIER)
  run.py replay <file>       run a replay file again
  run.py setup               build every harness ahead of time
  run.py list                the properties with a check

Exit status of `check`: 0 the property held on everything explored, 1 violated (a VIOLATION line
on stdout), anything else: the check itself could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SCALE = float(os.environ.get('VERIF_SCALE', '1'))      # shorter or longer runs, for experiments
ONLY_VARIANTS = os.environ.get('VERIF_VARIANTS')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NCPU = os.cpu_count() or 4
PAGE = os.sysconf('SC_PAGE_SIZE')

sys.path.insert(0, VERIF)
from checks import CHECKS, DEFAULT_WRAPS, FLAGS  # noqa: E402

COMMON = ['-std=c++17', '-DLEARNLOG_USE_BUNDLED_FMT', '-w', '-pthread', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-fno-sanitize=alignment,vptr,nonnull-attribute,returns-nonnull-attribute,pointer-overflow']
FUZZER_LIB = next(iter(sorted(glob.glob('/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a'))), '-lfuzzer')
VARIANTS = {
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-DLEARNLOG_USE_TLS'] + SAN),
    'asan_notls': dict(cxx='g++', flags=['-O1', '-g1'] + SAN),
    'plain': dict(cxx='g++', flags=['-O2', '-g1', '-DNDEBUG', '-DLEARNLOG_USE_TLS']),
    'notls': dict(cxx='g++', flags=['-O2', '-g1', '-DNDEBUG']),
    'tsan': dict(cxx='g++', flags=['-O1', '-g1', '-DLEARNLOG_USE_TLS', '-fsanitize=thread', '-DPBT_TSAN']),
    # the Windows side, with stand-ins for the Windows calls; fmt is not the library's own
    'win': dict(cxx='g++', flags=['-O1', '-g1', '-DLEARNLOG_USE_TLS'] + SAN,
                pre=['-I' + os.path.join(HARNESS, 'win'), '-include', os.path.join(HARNESS, 'win', 'prelude.h')]),
    'fuzz': dict(cxx='clang++', flags=['-O1', '-g1', '-DLEARNLOG_USE_TLS', '-DPBT_FUZZ', '-fsanitize=fuzzer-no-link,address,undefined',
                                       '-fno-sanitize-recover=undefined',
                                       '-fno-sanitize=alignment,vptr,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,unsigned-integer-overflow'],
                 libs=[FUZZER_LIB]),
}
RUN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=0',
    'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:'
                    'detect_deadlocks=0',
    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
}
LOG_LIMIT = 1 << 20
MEMORY_LIMIT = 3500 << 20       # of one process of a harness
TOO_BIG = 'the case uses more than %d MB of memory' % (MEMORY_LIMIT >> 20)


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build

def repo_sources():
    """Every file of the library that a build may read, and the ones to compile."""
    files = []
    for sub in ('base', 'include', 'sinks', 'src', 'cmake'):
        for root, dirs, names in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for n in sorted(names):
                if n.endswith(('.h', '.hpp', '.cpp', '.cc', '.c', '.in', '.inl', '.ipp')):
                    files.append(os.path.join(root, n))
    files = [f for f in files if os.path.relpath(f, REPO) != 'include/version.h']
    comp = [f for f in files if f.endswith(('.cpp', '.cc'))
            and os.path.relpath(f, REPO).split('/')[0] in ('base', 'sinks', 'src')
            and not f.endswith('/fmt.cc')]
    return files, comp


def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(json.dumps(extra).encode())
    return h.hexdigest()[:20]


def gen_version(dst):
    os.makedirs(dst, exist_ok=True)
    src = os.path.join(REPO, 'cmake', 'version.h.in')
    text = ''
    if os.path.exists(src):
        text = open(src, encoding='utf-8').read()
    text = re.sub(r'@[A-Za-z_]*MAJOR@', '1', text)
    text = re.sub(r'@[A-Za-z_]*MINOR@', '0', text)
    text = re.sub(r'@[A-Za-z_]*PATCH@', '3', text)
    text = re.sub(r'@[A-Za-z_]+@', '1.0.3', text)
    with open(os.path.join(dst, 'version.h'), 'w', encoding='utf-8') as f:
        f.write(text or '#pragma once\n')


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        return '%s\n%s' % (' '.join(cmd), r.stdout[-6000:])
    os.replace(tmp, out)
    return None


def build(targets):
    """targets: set of (harness, variant). Returns {target: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    files, comp = repo_sources()
    hfiles = sorted(glob.glob(os.path.join(HARNESS, '*.h')) + glob.glob(os.path.join(HARNESS, 'win', '*.h')))
    version_dir = os.path.join(BUILD, 'gen')
    gen_version(version_dir)
    jobs = {}
    links = []
    repo_key = digest(files, [REPO])
    for variant in sorted({v for _, v in targets}):
        v = VARIANTS[variant]
        inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + version_dir]
        base = [v['cxx']] + COMMON + v['flags'] + inc
        pre = v.get('pre', [])
        key = hashlib.sha256(json.dumps([repo_key, base, pre, digest(hfiles, []) if pre else '']).encode()).hexdigest()[:16]
        odir = os.path.join(BUILD, 'obj', variant + '-' + key)
        os.makedirs(odir, exist_ok=True)
        objs = []
        for src in comp:
            o = os.path.join(odir, os.path.relpath(src, REPO).replace('/', '_') + '.o')
            objs.append(o)
            jobs[o] = base + ([] if src.endswith('/format.cc') else pre) + ['-c', src]
        for h in sorted(h for h, vv in targets if vv == variant):
            src = os.path.join(HARNESS, h + '.cpp')
            hk = digest([src] + hfiles, [key, DEFAULT_WRAPS.get(h, []), FLAGS.get(h, [])])
            o = os.path.join(odir, h + '-' + hk + '.o')
            jobs[o] = base + pre + FLAGS.get(h, []) + ['-I' + HARNESS, '-c', src]
            b = os.path.join(odir, h + '-' + hk)
            wraps = ['-Wl,--wrap=' + w for w in DEFAULT_WRAPS.get(h, [])]
            links.append(((h, variant), b, [v['cxx']] + COMMON + v['flags'] + [o] + objs + wraps + v.get('libs', []) + ['-lutil', '-ldl'], o))
    # the big ones first
    order = sorted(jobs.items(), key=lambda kv: (0 if '/harness/' in kv[1][-1] else 1, 0 if 'format.cc' in kv[1][-1] else 1))
    errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(compile_one, [(c, o) for o, c in order]):
            if e:
                errs.append(e)
        if errs:
            raise CheckError('build failed:\n' + '\n'.join(errs[:3]))
        for e in ex.map(compile_one, [(c, b) for _, b, c, _ in links]):
            if e:
                errs.append(e)
    if errs:
        raise CheckError('link failed:\n' + '\n'.join(errs[:3]))
    prune_builds()
    return {t: b for t, b, _, _ in links}


def prune_builds(keep=14):
    """Drops the least recently used object directories, so that the cache stays small."""
    try:
        dirs = sorted(glob.glob(os.path.join(BUILD, 'obj', '*')), key=os.path.getmtime)
        old = [d for d in dirs[:-keep] if time.time() - os.path.getmtime(d) > 1800]
        for d in old:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


# ------------------------------------------------------------------ running

def child_env(extra=None):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'USER')}
    env.update(RUN_ENV)
    env['VERIF_REPO'] = REPO
    env.update(extra or {})
    return env


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


def too_big(pid):
    """Whether a process that a check started, or a child of it, uses more memory than a case may."""
    pids = [str(pid)]
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
            pids += f.read().split()
    except OSError:
        pass
    for p in pids:
        try:
            with open('/proc/%s/statm' % p) as f:
                if int(f.read().split()[1]) * PAGE > MEMORY_LIMIT:
                    return True
        except (OSError, ValueError, IndexError):
            pass
    return False


class Worker:
    def __init__(self, work, part, binary, idx, secs, cases):
        self.part, self.binary, self.idx = part, binary, idx
        self.dir = os.path.join(work, '%s-%s-%s-%d' % (part['harness'], part['variant'], part['prop'], idx))
        os.makedirs(self.dir, exist_ok=True)
        self.scratch = os.path.join(self.dir, 'scratch')
        os.makedirs(self.scratch, exist_ok=True)
        self.tape = os.path.join(self.dir, 'tape')
        self.msg = os.path.join(self.dir, 'msg')
        self.out = os.path.join(self.dir, 'out.json')
        self.log = os.path.join(self.dir, 'log')
        salt = int(hashlib.sha256(('%s/%s/%s' % (part['harness'], part['variant'], part['prop'])).encode()).hexdigest()[:8], 16)
        self.cmd = [binary, 'run', '--prop', part['prop'], '--seed', str(SEED * 1000003 + salt), '--worker', str(idx),
                    '--cases', str(cases), '--secs', '%.2f' % secs, '--tape', self.tape, '--msg', self.msg,
                    '--out', self.out, '--scratch', self.scratch]
        self.secs = secs
        self.restarts = 0
        self.start()

    def start(self):
        self.t0 = time.time()
        self.big = False
        with open(self.log, 'wb') as f:
            self.p = subprocess.Popen(self.cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                      cwd=self.scratch, env=child_env(self.part.get('env')), preexec_fn=limits)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass


def read_tape(path):
    with open(path, 'rb') as f:
        data = f.read()
    import struct
    n = struct.unpack_from('<Q', data, 0)[0]
    n = min(n, (len(data) - 32) // 8)
    return list(struct.unpack_from('<%dQ' % n, data, 32))


def log_tail(path, n=200000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode('utf-8', 'replace')
    except OSError:
        return ''


def san_summary(text):
    out = []
    for line in text.splitlines():
        if re.search(r'ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|SUMMARY:|terminate called|what\(\)|Assertion', line):
            out.append(line.strip())
        elif re.match(r'\s+#\d+ .*(learnlog|/repo/)', line) and len(out) < 14:
            out.append(line.strip())
    return '\n'.join(out[:16])


def classify(rc):
    """-> 'pass' | 'fail' | 'hang' | 'crash' | 'infra' | 'discard'"""
    if rc == 0:
        return 'pass'
    if rc == 10:
        return 'fail'
    if rc == 11:
        return 'hang'
    if rc == 12:
        return 'discard'
    if rc == 13:
        return 'memory'
    if rc in (20, 2, -9, 137):
        return 'infra'
    return 'crash'


def replay_once(part, binary, tape, work, tag, repeat=1, timeout=None, want_note=False):
    d = os.path.join(work, 'rp-' + tag)
    scratch = os.path.join(d, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    with open(os.path.join(d, 'in'), 'w') as f:
        f.write('\n'.join(map(str, tape)) + '\n')
    cmd = [binary, 'replay', '--prop', part['prop'], '--in', os.path.join(d, 'in'), '--tape', os.path.join(d, 'tape'),
           '--msg', os.path.join(d, 'msg'), '--scratch', scratch, '--repeat', str(repeat)]
    if want_note:
        cmd += ['--note', os.path.join(d, 'note')]
    log = os.path.join(d, 'log')
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=scratch,
                             env=child_env(part.get('env')), preexec_fn=limits)
        rc, big, rounds = None, False, 0
        while rc is None and rounds < (timeout or 120) * 20:      # in rounds: a sandbox that is stopped is no timeout
            rounds += 1
            try:
                rc = p.wait(0.05)
            except subprocess.TimeoutExpired:
                if too_big(p.pid):
                    rc, big = 13, True
        if rc is None:
            rc = 20
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    kind = classify(rc)
    msg = ''
    if big:
        msg = TOO_BIG
    elif kind in ('fail', 'hang', 'memory') and os.path.exists(os.path.join(d, 'msg')):
        msg = open(os.path.join(d, 'msg'), errors='replace').read()
    elif kind == 'crash':
        msg = 'process died (status %d)\n%s' % (rc, san_summary(log_tail(log)))
    used = None
    if kind in ('fail', 'crash', 'hang', 'memory'):
        try:
            used = read_tape(os.path.join(d, 'tape'))
        except Exception:
            used = None
    note = ''
    if os.path.exists(os.path.join(d, 'note')):
        note = open(os.path.join(d, 'note'), errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    return kind, msg, used, note


def shrink(part, binary, tape, work, kind, repeat, budget):
    """Greedy tape shrinking: delete blocks, then lower values."""
    t_end = time.time() + budget
    best = list(tape)
    best_msg = None
    counter = [0]

    def attempt(cands):
        nonlocal best, best_msg
        """Runs the candidates in parallel; takes the first that still fails."""
        if not cands or time.time() > t_end:
            return False
        counter[0] += 1
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda ic: (ic[1],) + replay_once(part, binary, ic[1], work, 's%d-%d' % (counter[0], ic[0]),
                                                                repeat, 30), enumerate(cands)))
        for c, k, m, used, _ in res:
            if k == kind:
                best = c if used is None or len(used) > len(c) else used
                best_msg = m
                return True
        return False

    changed = True
    while changed and time.time() < t_end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(best) and time.time() < t_end:
                cands = []
                for k in range(NCPU):
                    j = i + k * size
                    if j < len(best):
                        cands.append(best[:j] + best[j + size:])
                if attempt(cands):
                    changed = True
                else:
                    i += NCPU * size
            size //= 2
        i = 0
        while i < len(best) and time.time() < t_end:
            cands = []
            for j in range(i, min(len(best), i + 4)):
                v = best[j]
                for nv in sorted({0, v // 2, v - 1}):
                    if 0 <= nv < v:
                        cands.append(best[:j] + [nv] + best[j + 1:])
            if cands and attempt(cands):
                changed = True
            else:
                i += 4
    return best, best_msg


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    """Lines `known: property=<id> match=/<regex>/ <what fails>` of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


# ------------------------------------------------------------------ a check

def check(pid):
    t0 = time.time()
    chk = CHECKS[pid]
    parts = [p for p in chk['parts'] if TIER == 'thorough' or not p.get('thorough_only')]
    if ONLY_VARIANTS:
        parts = [p for p in parts if p['variant'] in ONLY_VARIANTS.split(',')]
    bins = build({(p['harness'], p['variant']) for p in parts})
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    os.chmod(work, 0o755)
    try:
        return run_check(pid, chk, parts, bins, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(pid, chk, parts, bins, work, t0, t_build):
    known = known_findings(pid)
    workers = []
    for p in parts:
        n = p.get('workers', 2)
        secs = p.get('secs', 12.0) if TIER == 'quick' else p.get('thorough_secs', 240.0)
        secs *= SCALE
        cases = p.get('cases', 10 ** 9) if TIER == 'quick' else 10 ** 12
        for i in range(n):
            workers.append(Worker(work, p, bins[(p['harness'], p['variant'])], i, secs, cases))
    t_run = time.time()
    live = list(workers)
    bad = None
    infra = []
    rounds = 0
    while live:
        time.sleep(0.05)
        rounds += 1
        for w in list(live):
            rc = w.p.poll()
            if rc is None and rounds % 4 == 0 and too_big(w.p.pid):
                w.kill()
                rc, w.big = 13, True
            if rc is None:
                if time.time() - w.t0 > w.secs + 240:
                    w.kill()
                    live.remove(w)
                    infra.append('%s: no end %d s after its time' % (w.part['prop'], 240))
                elif os.path.exists(w.log) and os.path.getsize(w.log) > 200 * LOG_LIMIT:
                    with open(w.log, 'r+b') as f:
                        f.truncate(0)
                continue
            live.remove(w)
            kind = classify(rc)
            w.kill()
            if kind == 'pass' and os.path.exists(w.out):
                continue
            if kind == 'pass':
                kind = 'crash'      # it ended without a report: the library ended it
            if kind == 'memory' and replay_once(w.part, w.binary, read_tape(w.tape), work, 'mem', 1, 100)[0] == 'memory':
                bad = (w, kind, rc)     # not for want of memory in the sandbox
                break
            if kind in ('infra', 'discard', 'memory'):
                if w.restarts < 2 and time.time() - t_run < 120:
                    w.restarts += 1
                    time.sleep(0.5)
                    w.start()
                    live.append(w)
                else:
                    m = open(w.msg, errors='replace').read() if os.path.exists(w.msg) else ''
                    infra.append('%s: status %s %s' % (w.part['prop'], rc, m))
                continue
            bad = (w, kind, rc)
            break
        if bad:
            break
    for w in workers:
        w.kill()

    stats = dict(evaluations=0, discarded=0, nontrivial=0)
    labels, samples, hashes, per_part = {}, [], set(), {}
    for w in workers:
        if not os.path.exists(w.out):
            continue
        try:
            o = json.load(open(w.out))
        except ValueError:
            continue
        for k in stats:
            stats[k] += o[k]
        pk = '%s (%s)' % (w.part['prop'], w.part['variant'])
        per_part[pk] = per_part.get(pk, 0) + o['evaluations']
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
        hashes.update(w.part['prop'] + h for h in o['hashes'])
        for s in o['samples'][:1]:
            samples.append('%s: %s' % (w.part['prop'], s[:1500]))
    # one sample of every part first
    seen, first, rest = set(), [], []
    for s in samples:
        k = s.split(':')[0]
        (rest if k in seen else first).append(s)
        seen.add(k)
    samples = (first + rest)[:8]

    violation = None
    if bad:
        w, kind, rc = bad
        violation = report(pid, chk, w, kind, rc, work, known)
        if violation is None:      # a known finding
            bad = None

    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': chk['level'],
        'coverage': {
            'evaluations': stats['evaluations'],
            'distinct_nontrivial': len(hashes),
            'rule': chk['rule'],
            'samples': samples,
            'discarded': stats['discarded'],
            'labels': labels,
            'cases_per_part': per_part,
            'build_s': round(t_build, 2),
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    if infra:
        ev['coverage']['not_run'] = infra
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
    for _, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if violation:
        print(violation)
        return 1
    for i in infra:
        print('note: ' + i)
    if stats['evaluations'] == 0:
        print('error: no case was evaluated')
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s, build %.1f s' %
          (pid, stats['evaluations'], len(hashes), time.time() - t0, t_build))
    return 0


def report(pid, chk, w, kind, rc, work, known):
    part, binary = w.part, w.binary
    tape = read_tape(w.tape)
    if w.big:
        msg = TOO_BIG
    elif kind in ('fail', 'hang', 'memory'):
        msg = open(w.msg, errors='replace').read() if os.path.exists(w.msg) else ''
    else:
        msg = 'process died (status %d)\n%s' % (rc, san_summary(log_tail(w.log)))
    repeat = part.get('repeat', 1)
    note, reproduced, best = '', None, tape
    if kind != 'hang':
        reproduced = False
        for i in range(4):
            k, m, used, note = replay_once(part, binary, tape, work, 'c%d' % i, repeat, 100, want_note=True)
            if k == kind:
                reproduced = True
                break
        if reproduced:
            best, m2 = shrink(part, binary, tape, work, kind, repeat, 25 if TIER == 'quick' else 120)
            for i in range(3):
                k, m, used, n2 = replay_once(part, binary, best, work, 'f%d' % i, repeat, 100, want_note=True)
                if k == kind:
                    msg, note = m, n2
                    break
            else:
                best = tape
    for rx, what in known:
        if rx.search(msg):
            return None
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    rp = os.path.join(EVIDENCE, 'replay', '%s-%s.json' % (pid, hashlib.sha256(
        json.dumps([part['prop'], part['variant'], best]).encode()).hexdigest()[:12]))
    with open(rp, 'w') as f:
        json.dump(dict(property=pid, harness=part['harness'], variant=part['variant'], prop=part['prop'], kind=kind,
                       seed=SEED, tape=best, original_tape_len=len(tape), reproduced=reproduced, repeat=repeat,
                       message=msg, case=note), f, indent=1)
    print('--- %s: %s in %s (%s), tape of %d choices shrunk to %d' %
          (pid, kind, part['prop'], part['variant'], len(tape), len(best)))
    print('\n'.join('    ' + x for x in (msg + '\n' + note).splitlines()[:60]))
    return 'VIOLATION property=%s replay=%s' % (pid, rp)


def replay(path):
    r = json.load(open(path))
    part = next((p for c in CHECKS.values() for p in c['parts'] if p['harness'] == r['harness'] and p['prop'] == r['prop']
                 and p['variant'] == r['variant']), None)
    if part is None:
        part = dict(harness=r['harness'], variant=r['variant'], prop=r['prop'])
    b = build({(part['harness'], part['variant'])})[(part['harness'], part['variant'])]
    work = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        for i in range(6):
            k, m, _, note = replay_once(part, b, r['tape'], work, 'r%d' % i, r.get('repeat', 1), 200, want_note=True)
            if k in ('fail', 'crash', 'hang', 'memory'):
                print(m)
                print(note)
                print('VIOLATION property=%s replay=%s' % (r['property'], path))
                return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print('the replay passed')
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    try:
        if cmd == 'list':
            for k, c in sorted(CHECKS.items()):
                print(k, c['level'], ', '.join(sorted({p['prop'] for p in c['parts']})))
            return 0
        if cmd == 'setup':
            build({(p['harness'], p['variant']) for c in CHECKS.values() for p in c['parts'] if not p.get('thorough_only')})
            return 0
        if cmd == 'check':
            return check(sys.argv[2])
        if cmd == 'replay':
            return replay(sys.argv[2])
    except CheckError as e:
        print('error: %s' % e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
