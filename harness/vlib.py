"""Common machinery of the checks: run the recorder on the code in /repo, let
TLC judge the recordings against the specification, report and write
evidence.  A check ends with 0 (held), 1 (VIOLATION line) or 2 (the machinery
itself failed)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The machinery failed; nothing was decided."""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def repo_env(hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONPATH=os.pathsep.join([os.path.join(REPO, 'src'), os.path.join(ROOT, 'stub'),
                                         os.path.join(ROOT, 'harness')]),
             PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache',
             PYTHONHASHSEED=hashseed, TZ='UTC')
    return e


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.replay_dir = os.path.join(ROOT, 'replay')

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- recording -------------------------------------------------------
    def record(self, jobs, script='record.py', hashseed='0', timeout=600, procs=None):
        """Run jobs through the real code; returns the list of recordings."""
        jobs = list(jobs)
        n = max(1, min(procs or CORES, len(jobs)))
        d = tempfile.mkdtemp(dir=self.scratch)
        ps = []
        for i in range(n):
            src, dst = os.path.join(d, 'j%d' % i), os.path.join(d, 'o%d' % i)
            with open(src, 'w') as f:
                for j in jobs[i::n]:
                    f.write(json.dumps(j) + '\n')
            log = open(os.path.join(d, 'e%d' % i), 'w')
            ps.append((subprocess.Popen(
                [PY, os.path.join(ROOT, 'harness', script), src, dst],
                env=repo_env(hashseed), cwd=d, stdout=log, stderr=log, stdin=subprocess.DEVNULL), dst, i))
        outs = [None] * len(jobs)
        end = time.time() + timeout
        for p, dst, i in ps:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q, _, _ in ps:
                    q.kill()
                done = sum(1 for _ in open(dst)) if os.path.exists(dst) else 0
                j = jobs[i::n][min(done, len(jobs[i::n]) - 1)]
                self.fail('the code does not finish on case %s' % j['id'], j)
                raise Stop()
            if rc != 0:
                err = open(os.path.join(d, 'e%d' % i)).read()[-2000:]
                raise Broken('recorder failed: ' + err)
            got = [json.loads(x) for x in open(dst)]
            outs[i::n] = got
        assert all(o is not None for o in outs)
        bad = [(j, o) for j, o in zip(jobs, outs) if 'crash' in o]
        for j, o in bad[:20]:
            self.fail('%s: the result lacks what belongs there: %s' % (j['id'], o['crash']), j)
        if bad:
            raise Stop()
        self.traces += len(outs)
        shutil.rmtree(d)
        return outs

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, extra=None, timeout=1500, workers=None, heap='12g', xss='64m',
            extra_args=()):
        """Run TLC on spec/<module>.tla with the given cfg text in a scratch
        directory that also holds the files `extra` {name: text}."""
        d = tempfile.mkdtemp(dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for k, v in (extra or {}).items():
            with open(os.path.join(d, k), 'w') as f:
                if isinstance(v, str):
                    f.write(v)
                else:
                    for x in v:
                        f.write(json.dumps(x) + '\n')
        with open(os.path.join(d, 'Run.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xmx' + heap, '-Xss' + xss, '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + d, '-cp', JAR,
               '-Dtlc2.TLC.stopAfter=%d' % timeout, 'tlc2.TLC', '-config', 'Run.cfg',
               '-workers', str(workers or CORES), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE'] + list(extra_args) + [module]
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout + 60)
        out = p.stdout.decode('utf-8', 'replace')
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
            pass
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        ok = 'Model checking completed. No error has been found.' in out
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return ok, out, d

    def model_check(self, module, cfg, what, extra=None, **kw):
        """An exhaustive run of the specification itself: a failure here is a
        failure of the machinery (the specification contradicts itself)."""
        ok, out, d = self.tlc(module, cfg, extra, **kw)
        if not ok:
            raise Broken('model checking of %s (%s) failed:\n%s' % (module, what, out[-4000:]))
        return out, d

    def judge(self, cases, judge, units='UAll', props='Props', jobs=None, what='', consts='',
              timeout=1500):
        """Let TLC judge the recordings; returns number judged."""
        if not cases:
            return
        cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
               '  Units <- %s\n  Judge <- %s\n%s' % (units, judge, consts))
        byid = {}
        for i, c in enumerate(cases):
            byid[c['id']] = (jobs[i] if jobs else None, c)
        before = self.states
        ok, out, d = self.tlc('Trace', cfg, {'cases.ndjson': cases}, timeout=timeout)
        self.evals += (self.states - before) // 2
        hits = parse_broken(out)
        for cid, unit, clauses in hits:
            self.report(cid, unit, clauses, byid)
        if not ok:
            if hits and 'Error' not in out:
                pass
            m = re.search(r'^/?\\?.*\bc = (\d+)', out, re.M)
            if 'Error:' in out and m and 'StackOverflow' not in out and 'OutOfMemory' not in out:
                c = cases[int(m.group(1)) - 1]
                self.report(c['id'], 'all', ['recording outside the specification: ' + tlc_error(out)], byid)
            else:
                raise Broken('TLC failed on %s:\n%s' % (what or judge, out[-3000:]))
        shutil.rmtree(d, ignore_errors=True)

    # ---- reporting -------------------------------------------------------
    def report(self, cid, unit, clauses, byid):
        job, case = byid.get(cid, (None, None))
        for cl in clauses:
            for kf in self.known:
                if kf.matches(cid, unit, cl):
                    self.known_hit.setdefault(kf.text, 0)
                    self.known_hit[kf.text] += 1
                    break
            else:
                self.fail('%s [%s]: %s' % (cid, unit, cl), {'job': job, 'recorded': case})

    def fail(self, what, replay=None):
        self.violations.append(what)
        if len(self.violations) > 20:
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1, default=str)
        if len(self.violations) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('  ' + what[:600], flush=True)

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def finish(self, level, assumptions, rule=None):
        for t, n in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (self.prop, t, n))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'evaluations': self.evals, 'samples': self.samples}
        if rule:
            cov['rule'] = rule
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations),
              'assumptions': assumptions}
        if self.notes:
            ev['notes'] = self.notes
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d recordings, %d judged units, %d states, %d violations, %.1f s' % (
            self.prop, self.tier, self.traces, self.evals, self.states,
            len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Stop(Exception):
    """Enough is known; go straight to the report."""


def tlc_error(out):
    i = out.find('Error:')
    return ' '.join(out[i:i + 400].split())


def parse_broken(out):
    """<<"BROKEN", id, unit, <<clauses>>>> lines, which TLC may wrap."""
    hits = []
    for m in re.finditer(r'<<\s*"BROKEN",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)",\s*<<(.*?)>>\s*>>', out, re.S):
        cl = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))
        hits.append((m.group(1), m.group(2), cl))
    n = len(re.findall(r'"BROKEN"', out))
    if n != len(hits):
        raise Broken('cannot parse verdicts:\n' + out[-2000:])
    return hits


class Known:
    def __init__(self, case, clause, text):
        self.case, self.clause, self.text = re.compile(case), re.compile(clause), text

    def matches(self, cid, unit, clause):
        return bool(self.case.fullmatch(cid + ' ' + unit) and self.clause.fullmatch(clause))


def load_known(prop):
    """known_findings.txt: lines `known: property=C02 case=<regex> clause=<regex> :: text`."""
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) case=(\S+) clause=(.+?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                res.append(Known(m.group(2), m.group(3), m.group(4)))
    return res


def main(prop, body, level, assumptions, rule=None):
    c = Check(prop)
    try:
        try:
            body(c)
        except Stop:
            pass
        rc = c.finish(level, assumptions, rule)
    except Broken as e:
        print('MACHINERY FAILURE in %s: %s' % (prop, e))
        rc = 1 if c.violations else 2
    finally:
        c.close()
    return rc
