"""Record what command lines do.  usage: record_cli.py JOBS OUT

Each job has the source directories, list files, an argv and the request the
specification reads from it.  The real script is run in a scratch directory,
then the stages of the compiler are called one by one with the values of the
request; both are recorded as digests of the files made."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
import record  # noqa: E402
import stages  # noqa: E402
from acetimetools import tzcompiler  # noqa: E402

SCRIPT = os.path.abspath(tzcompiler.__file__)


def tree(d):
    res = {}
    for top, _, files in os.walk(d):
        for f in files:
            p = os.path.join(top, f)
            res[os.path.relpath(p, d)] = stages.digest(open(p, 'rb').read())
    return res


def make(job, d):
    for name, files in job['sources'].items():
        record.write_files({'files': files}, os.path.join(d, name))
    for name in job['dirs']:
        os.makedirs(os.path.join(d, name), exist_ok=True)
    for name, lines in job['lists'].items():
        with open(os.path.join(d, name), 'w') as f:
            f.write('\n'.join(lines) + '\n')
    for name in job.get('stale', ()):
        with open(os.path.join(d, job['asked'].get('output', ''), name), 'w') as f:
            f.write('left by an earlier run\n' * 20000)


def library(job, d):
    q = job['asked']
    out = os.path.join(d, 'lib')
    os.makedirs(out)
    cfg = dict(q['cfg'])
    j = dict(cfg=cfg, ns=q['ns'], version=q['version'], json_file=q['json_file'], script=job['script'])
    invocation = ' '.join([SCRIPT] + job['argv'])
    begun = False
    try:
        ex = record.Extractor(os.path.join(d, q['input']))
        ex.parse()
        t = record.new_result(*ex.get_data())
        record.transformer(cfg).transform(t)
        if q['estimate'] and not stages.estimate(j, t)['ok']:
            return {'ok': False, 'begun': False, 'files': {}}
        stages.Commenter().transform(t)
        if q['ar']:
            stages.ArduinoTransformer(cfg['scope'], cfg['compress'], 'high' if cfg['scope'] == 'complete' else 'low').transform(t)
        if q['go']:
            stages.GoTransformer().transform(t)
        zidb = stages.zidb_of(j, t)
        begun = True
        for g in q['gens']:
            stages.generate(g, j, zidb, out, invocation)
    except Exception as e:
        return {'ok': False, 'begun': begun, 'files': {}, 'err': '%s: %s' % (type(e).__name__, e)}
    finally:
        files = tree(out)
        shutil.rmtree(out)
    return {'ok': True, 'begun': True, 'files': files}


def run(job, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    make(job, d)
    before = tree(d)
    env = dict(os.environ, ACETIME_SCRIPT=json.dumps(job['script']))
    p = subprocess.run([sys.executable, SCRIPT] + job['argv'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    after = tree(d)
    q = job['asked']
    out = q.get('output', '')
    new = {os.path.relpath(f, out or '.') if q['what'] == 'compile' else f: h for f, h in after.items() if before.get(f) != h}
    new.update({'gone ' + f: '' for f in before if f not in after})
    res = {'id': job['id'], 'argv': job['argv'], 'dirs': job['dirs'], 'lists': job['lists'], 'status': p.returncode, 'files': new,
           'tail': p.stdout.decode('utf-8', 'replace')[-300:],
           'lib': library(job, d) if q['what'] == 'compile' else {'ok': False, 'begun': False, 'files': {}}}
    shutil.rmtree(d)
    return res


def main():
    scratch = tempfile.mkdtemp(prefix='cli')
    try:
        with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as o:
            for line in f:
                o.write(json.dumps(run(json.loads(line), scratch)) + '\n')
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
