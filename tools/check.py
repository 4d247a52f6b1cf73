#!/usr/bin/env python3
"""Run the check of one property: build from /repo, run the monitored
workloads, judge, write the evidence.

  python3 tools/check.py C01             (VERIF_SEED, VERIF_TIER honoured)

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: inconclusive / machinery problem.
"""
import array
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
import specs   # noqa: E402

VERIF = vbuild.VERIF
SYMB = '/usr/lib/llvm-18/bin/llvm-symbolizer'

SAN_RE = re.compile(
    r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer|'
    r'UndefinedBehaviorSanitizer): ([^\n(]+)|runtime error: ([^\n]+)')


def san_env(variant, extra=None):
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env.update({
        'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'TZ': 'UTC',
        'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:'
                        'allocator_may_return_null=1:handle_abort=0:'
                        'detect_stack_use_after_return=0:'
                        'quarantine_size_mb=32:check_printf=0:'
                        'max_allocation_size_mb=4096:'
                        'external_symbolizer_path=' + SYMB,
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1:'
                         'external_symbolizer_path=' + SYMB,
        'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:'
                        'history_size=4:external_symbolizer_path=' + SYMB
                        + ':suppressions='
                        + os.path.join(VERIF, 'tools', 'tsan.supp'),
    })
    env.update(extra or {})
    return env


class Worker:
    def __init__(self, run, idx, n, tmp, seed, tier, extra_args=()):
        self.run, self.idx = run, idx
        self.base = os.path.join(tmp, '%s.%s.%s.%d' % (
            run['harness'], run['variant'],
            run.get('tag', '') + (run.get('scenario') or '').replace(',', '+')[:40], idx))
        self.scratch = self.base + '.scratch'
        os.makedirs(self.scratch, exist_ok=True)
        self.args = [vbuild.bin_path(run['harness'], run['variant']),
                     '--seed', str(seed), '--worker', str(idx),
                     '--workers', str(n), '--out', self.base + '.json',
                     '--status', self.base + '.status',
                     '--scratch', self.scratch]
        if run.get('scenario'):
            self.args += ['--scenario', run['scenario']]
        if run.get('arg'):
            self.args += ['--arg', run['arg']]
        if tier == 'thorough':
            self.args += ['--thorough']
        self.args += ['--budget', str(run['budget'][tier])]
        scale = run.get('scale', 1.0) * float(
            os.environ.get('VERIF_SCALE', '1'))
        self.args += ['--scale', str(scale)]
        self.args += list(extra_args)
        self.watchdog = run['watchdog'][tier]
        self.env = san_env(run['variant'], run.get('env'))

    def start(self):
        # a file, not a pipe: background children must not block us
        self.log = open(self.base + '.log', 'wb')
        pre = self.run.get('preexec')
        self.proc = subprocess.Popen(
            self.args, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=subprocess.STDOUT, env=self.env, cwd=self.scratch,
            start_new_session=True, preexec_fn=pre)
        self.t0 = time.time()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def poll(self):
        rc = self.proc.poll()
        if rc is None and time.time() - self.t0 > self.watchdog:
            self.kill()
            self.proc.wait()
            self.timeout = True
            self.rc = None
            self.finish()
            return True
        if rc is None:
            return False
        self.timeout = False
        self.rc = rc
        self.kill()     # stray children of the harness
        self.finish()
        return True

    def finish(self):
        self.log.close()
        with open(self.base + '.log', 'rb') as fp:
            self.out = fp.read().decode(errors='replace')
        try:
            with open(self.base + '.status', 'rb') as fp:
                st = fp.read()
            self.status = st[:512].split(b'\0')[0].decode(errors='replace')
            tr = []
            for i in range(224):
                s = st[4096 + i * 256:4096 + i * 256 + 256]
                s = s.split(b'\0')[0].decode(errors='replace')
                if s:
                    n, _, txt = s.partition(' ')
                    tr.append((int(n), txt))
            self.trace = [t for _, t in sorted(tr)]
        except (OSError, ValueError):
            self.status, self.trace = '', []
        self.res = None
        try:
            with open(self.base + '.json') as fp:
                self.res = json.load(fp)
        except (OSError, ValueError):
            pass
        self.distinct = set()
        try:
            a = array.array('Q')
            with open(self.base + '.json.distinct', 'rb') as fp:
                a.frombytes(fp.read())
            self.distinct = set(a)
        except (OSError, ValueError):
            pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def judge(self):
        """None, or (kind, key, message)"""
        if self.timeout:
            return ('hang', 'hang:' + self.status.split(' ')[0],
                    'no progress within the watchdog in: ' + self.status)
        if self.rc == 0 and self.res and self.res['verdict'] == 'ok':
            return None
        if self.rc == 10 and self.res:
            return ('violation', self.res['key'], self.res['message'])
        if self.rc in (11, 12):
            return ('error', 'harness',
                    self.res['message'] if self.res else self.out[-2000:])
        m = SAN_RE.search(self.out)
        sc = self.status.split(' ')[0]
        if m:
            what = (m.group(2) or m.group(3) or '').strip()
            what = re.sub(r'0x[0-9a-f]+', 'X', what)
            what = re.sub(r'\b\d+\b', 'N', what)[:80]
            return ('violation', 'san:%s:%s' % (sc, what),
                    self.out[-12000:])
        return ('violation', 'crash:%s:rc=%s' % (sc, self.rc),
                self.out[-6000:] or 'died with status %s' % self.rc)


def run_all(workers, par):
    todo = list(workers)
    live = []
    try:
        while todo or live:
            while todo and len(live) < par:
                w = todo.pop(0)
                w.start()
                live.append(w)
            live = [w for w in live if not w.poll()]
            if live:
                time.sleep(0.02)
    finally:
        for w in live:
            w.kill()


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as fp:
            return json.load(fp)['findings']
    except FileNotFoundError:
        return []


def main():
    pid = sys.argv[1]
    spec = specs.SPECS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'), 0)
    except ValueError:
        seed = 1
    t0 = time.time()
    runs = [specs.norm(r) for r in spec['runs']
            if tier == 'thorough' or not r.get('thorough_only')]
    try:
        vbuild.build(sorted(set((r['harness'], r['variant']) for r in runs)))
    except (vbuild.BuildError, subprocess.CalledProcessError, OSError) as e:
        print('build failed: %s' % e)
        return 2
    tbuild = time.time() - t0

    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    replay_dir = os.path.join(vbuild.WORK, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    try:
        return explore(pid, spec, tier, seed, runs, tmp, replay_dir, t0,
                       tbuild)
    finally:
        subprocess.call(['chmod', '-R', 'u+rwx', tmp],
                        stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)


def explore(pid, spec, tier, seed, runs, tmp, replay_dir, t0, tbuild):
    workers = []
    ncpu = os.cpu_count() or 4
    groups = {}
    for r in runs:
        n = r['workers']
        groups.setdefault(r['par'], []).extend(
            Worker(r, i, n, tmp, seed, tier) for i in range(n))
    for par, ws in sorted(groups.items(), key=lambda x: x[0] or 0):
        run_all(ws, par or ncpu)
        workers += ws

    problems = []
    for w in workers:
        j = w.judge()
        if j is None:
            continue
        if j[0] == 'hang':
            # once more, alone and with more time, before believing it
            m = w.status.split(' ')
            run = dict(w.run)
            extra = []
            if len(m) == 3 and not w.run.get('replay_whole'):
                run['scenario'] = m[0]
                extra = ['--case-seed', m[2]]
            w2 = Worker(dict(run, tag='again'), w.idx, w.run['workers'], tmp,
                        seed, tier, extra)
            w2.watchdog = max(60, w2.watchdog)
            run_all([w2], 1)
            j2 = w2.judge()
            if j2 is None and extra:
                # the case alone completes: replay the whole worker
                w3 = Worker(dict(w.run, tag='again2'), w.idx,
                            w.run['workers'], tmp, seed, tier)
                w3.watchdog *= 2
                run_all([w3], 1)
                j2 = w3.judge()
                w2 = w3
            if j2 is None:
                w.res, w.distinct = w2.res, w2.distinct
                w.note = 'slow'
                continue
            if j2[0] == 'hang':
                j = ('violation', j2[1], j2[2])
            else:
                j = j2
                w.out, w.trace, w.status = w2.out, w2.trace, w2.status
                w.res = w2.res
        problems.append((w, j))

    known = [k for k in load_known()
             if k['property'] == pid and k['status'] == 'known']
    rc = 0
    seen_known = set()
    shown = set()
    nviol = 0
    for w, (kind, key, msg) in problems:
        if kind == 'error':
            print('inconclusive: harness error in %s: %s'
                  % (w.run['harness'], msg))
            rc = rc or 2
            continue
        hit = [k for k in known if re.fullmatch(k['key'], key)]
        if hit:
            seen_known.add(hit[0]['key'])
            continue
        nviol += 1
        if key in shown:
            continue
        shown.add(key)
        path = os.path.join(replay_dir, '%s-%s-%d.txt'
                            % (pid, re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:60],
                               w.idx))
        m = w.status.split(' ')
        if w.res and w.res.get('scenario') and w.rc == 10:
            m = [w.res['scenario'], str(w.res['case']),
                 str(w.res['case_seed'])]
        args = list(w.args)
        if len(m) == 3:
            args += ['--scenario', m[0], '--case-seed', m[2]]
        with open(path, 'w') as fp:
            fp.write('property %s tier=%s seed=%d\nkind %s key %s\n'
                     'one case: %s\nwhole worker: %s\n\n%s\n\n-- trace --\n'
                     '%s\n\n-- output --\n%s\n'
                     % (pid, tier, seed, kind, key, ' '.join(args),
                        ' '.join(w.args), msg, '\n'.join(w.trace),
                        w.out[-20000:]))
        print('violation: key=%s\n%s' % (key, msg[:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    if rc == 2 and nviol:
        rc = 1
    for k in known:
        if k.get('status') == 'known' and k['key'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # evidence
    ev = {'cases': 0, 'events': 0}
    distinct = set()
    counters = {}
    samples = []
    trunc = 0
    for w in workers:
        if not w.res:
            continue
        ev['cases'] += w.res['cases']
        ev['events'] += w.res['events']
        trunc += w.res['truncated']
        distinct |= set((w.run['harness'], w.run['variant'], d)
                        for d in w.distinct)
        for k, v in w.res['counters'].items():
            k = '%s.%s.%s' % (w.run['harness'], w.run['variant'], k)
            counters[k] = counters.get(k, 0) + v
        samples += w.res['samples'][:2]
    cov = {
        'evaluations': ev['cases'], 'distinct_nontrivial': len(distinct),
        'rule': spec['rule'],
        'samples': samples[:24] or ['none recorded'],
        'monitor_events': ev['events'],
        'counters': dict(sorted(counters.items())),
        'truncated_workers': trunc, 'workers': len(workers),
        'build_s': round(tbuild, 1),
    }
    if spec.get('exhaustive'):
        cov['exhaustive'] = False
    doc = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': spec.get('level', 'exploration'), 'coverage': cov,
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(doc, fp, indent=1)
        fp.write('\n')
    if rc == 0 and (ev['events'] == 0 or len(distinct) == 0):
        print('inconclusive: the monitors observed nothing')
        rc = 2
    print('%s: %s, %d cases, %d events, %d distinct, %.1fs (build %.1fs)%s'
          % (pid, {0: 'held', 1: 'VIOLATED', 2: 'inconclusive'}[rc],
             ev['cases'], ev['events'], len(distinct), time.time() - t0,
             tbuild, ', %d workers truncated' % trunc if trunc else ''))
    return rc


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        # a defect of the machinery says nothing about the property
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
