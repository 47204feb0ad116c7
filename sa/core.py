"""Check framework: findings, known findings, evidence, exit codes."""
import json
import mmap
import os
import pickle
import resource
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    pass


class TimeUp(BaseException):
    pass


def _alarm(sig, frame):
    raise TimeUp()


LIMIT_JOB, LIMIT_ALL, LIMIT_AFTER = 200, 650, 60      # seconds, quick tier; no new job starts LIMIT_AFTER once a violation is known


class Ctx(object):
    def __init__(self, prop, tier, project, seed=1):
        self.prop, self.tier, self.p, self.seed = prop, tier, project, seed
        self.findings = {}       # key -> dict
        self.obl = []            # (rule, construct, verdict, note)
        self.counts = {}
        self.functions = set()
        self.assumptions = []
        self.rules = {}
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.worker = False

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, note=''):
        self.obl.append((rule, construct, 'holds', note))

    def undecided(self, rule, construct, note=''):
        self.obl.append((rule, construct, 'undecided', str(note)[:200]))

    def violation(self, rule, construct, msg, where=''):
        key = '%s:%s' % (rule, construct)
        self.obl.append((rule, construct, 'violated', msg[:300]))
        if key not in self.findings:
            self.findings[key] = {'key': key, 'rule': rule, 'construct': construct, 'message': msg, 'where': where}

    def parallel(self, thunks, workers=None):
        """run thunks (each records into self) in forked workers and merge what they record"""
        workers = max(1, min(workers or min(8, os.cpu_count() or 1), len(thunks)))
        if workers == 1:
            for i, th in enumerate(thunks):
                self.guarded(i, th)
            return
        kids = []
        qr, qw = os.pipe()                       # job numbers, taken by whichever worker is free
        os.write(qw, b''.join(i.to_bytes(2, 'big') for i in range(len(thunks))))
        os.close(qw)
        flag = mmap.mmap(-1, 1)                  # set once something is reported
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.worker = True
                    signal.signal(signal.SIGALRM, _alarm)
                    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                    self.findings, self.obl, self.counts, self.functions = {}, [], {}, set()
                    out = {}
                    try:
                        while True:
                            q = os.read(qr, 2)
                            if len(q) < 2:
                                break
                            i = int.from_bytes(q, 'big')
                            n0 = len(self.obl)
                            if flag[0] and not self.thorough and time.time() - self.t0 > LIMIT_AFTER:
                                self.undecided('internal', 'task %d' % i, 'not run: violations already found')
                            else:
                                self.guarded(i, thunks[i])
                            if self.findings:
                                flag[0] = 1
                            out[i] = self.obl[n0:]
                        err = None
                    except AnchorLost as e:
                        err = str(e)
                    blob = pickle.dumps((out, self.findings, self.counts, self.functions, err))
                    with os.fdopen(wr, 'wb') as f:
                        f.write(blob)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        os.close(qr)
        got = {}
        fail = None
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, stat = os.waitpid(pid, 0)
            if stat or not data:
                fail = fail or 'worker failed'
                continue
            out, fi, co, fu, err = pickle.loads(data)
            if err:
                fail = AnchorLost(err)
                continue
            got.update(out)
            for k, v in fi.items():
                self.findings.setdefault(k, v)
            for k, v in co.items():
                self.count(k, v)
            self.functions |= fu
        if isinstance(fail, AnchorLost):
            raise fail
        if fail:
            raise RuntimeError(fail)
        for i in sorted(got):
            self.obl.extend(got[i])

    def guarded(self, i, th):
        """a construct the analyser cannot digest is undecided, never an alarm"""
        try:
            if self.worker:
                left = 3600 if self.thorough else max(1, min(LIMIT_JOB, LIMIT_ALL - (time.time() - self.t0)))
                signal.setitimer(signal.ITIMER_REAL, left)
            try:
                th()
            finally:
                if self.worker:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        except AnchorLost:
            raise
        except TimeUp:
            self.undecided('internal', 'task %d' % i, 'time limit')
            self.count('time limits')
        except (Exception, RecursionError):
            import traceback
            tb = traceback.format_exc().splitlines()
            self.undecided('internal', 'task %d' % i, ' | '.join(x.strip() for x in tb[-5:]))
            self.count('analyser failures')
            sys.stderr.write('analyser failure in task %d: %s\n' % (i, ' | '.join(x.strip() for x in tb[-7:])))

    def func(self, mod, qual):
        r = self.p.func(mod, qual)
        if r is None:
            raise AnchorLost('%s.%s' % (mod, qual))
        return r


def known():
    """{property: {key: text}} of recorded (unrepaired) findings"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l.startswith('KNOWN-FINDING:'):
                continue
            parts = l[len('KNOWN-FINDING:'):].strip().split(None, 2)
            pid = parts[0].split('=', 1)[1]
            key = parts[1].split('=', 1)[1]
            out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ''
    return out


def finish(ctx, t0, technique, level='other', selftest=None):
    kf = known().get(ctx.prop, {})
    new = [f for k, f in sorted(ctx.findings.items()) if k not in kf]
    old = [f for k, f in sorted(ctx.findings.items()) if k in kf]
    n = {'holds': 0, 'undecided': 0, 'violated': 0}
    for o in ctx.obl:
        n[o[2]] += 1
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
        'coverage': {
            'explanation': technique,
            'rules': ctx.rules,
            'obligations': len(ctx.obl), 'discharged': n['holds'], 'undecided': n['undecided'], 'violated': n['violated'],
            'functions_analysed': len(ctx.functions), 'functions': sorted(ctx.functions)[:400],
            'counts': ctx.counts,
            'undecided_list': ['%s %s: %s' % (a, b, d) for a, b, c, d in ctx.obl if c == 'undecided'][:200],
            'known_findings': [f['key'] for f in old],
            'sources_digest': ctx.p.digest() if ctx.p else '',
            'selftest': selftest or '',
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': ctx.assumptions,
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', ctx.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s (%s): %d obligations, %d hold, %d undecided, %d violated; %d functions analysed; %.1fs' % (
        ctx.prop, ctx.tier, len(ctx.obl), n['holds'], n['undecided'], n['violated'], len(ctx.functions), time.time() - t0))
    for k, v in sorted(ctx.counts.items()):
        print('  %s: %s' % (k, v))
    for f in old:
        print('KNOWN-FINDING: property=%s %s %s' % (ctx.prop, f['key'], f['message']))
    if new:
        rp = os.path.join(VERIF, 'evidence', ctx.prop + '.violations.txt')
        with open(rp, 'w') as f:
            for x in new:
                f.write('%(rule)s\n  construct: %(construct)s\n  where: %(where)s\n  %(message)s\n\n' % x)
        for x in new[:40]:
            print('  [%s] %s %s: %s' % (x['rule'], x['where'], x['construct'], x['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    return 0
