"""Record what the shell wrappers do.  usage: record_wrap.py JOBS OUT

Everything that runs from the repository runs as an unprivileged user, from a
copy of it inside a scratch directory which that user owns."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
import record  # noqa: E402
import stages  # noqa: E402
import vlib  # noqa: E402

NOBODY = 65534
SHIM = '''#!/bin/sh
%(guard)s%(real)s "$@"
rc=$?
%(then)s
exit $rc
'''
# Copying the root directory, or to it, is only said to be done.
GUARD = '''for a in "$@"; do [ "$a" = / ] && exit 0; done
'''
ARGS = ['--actions', 'zonedb,json,zonelist', '--languages', 'python', '--scope', 'extended']


def drop():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def sh(argv, cwd, env, out=None):
    p = subprocess.run(argv, cwd=cwd, env=env, preexec_fn=drop, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree(d):
    res = {}
    for top, dirs, files in os.walk(d):
        for f in dirs:
            p = os.path.join(top, f)
            res[os.path.relpath(p, d)] = 'link ' + os.readlink(p) if os.path.islink(p) else 'dir'
        for f in files:
            p = os.path.join(top, f)
            res[os.path.relpath(p, d)] = 'link ' + os.readlink(p) if os.path.islink(p) else stages.digest(open(p, 'rb').read())
    return res


def put(d, files):
    for f, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), 'w') as h:
            h.write(text)


def digests(files):
    return {f: stages.digest(t.encode()) for f, t in files.items()}


class Base:
    """What every scenario starts from: the tools, shims and a tz repository."""
    def __init__(self, top, states):
        self.top = top
        self.tools = os.path.join(top, 'the tools')
        os.makedirs(self.tools)
        for f in ('tzcompiler.sh', 'copytz.sh'):
            shutil.copy(os.path.join(vlib.REPO, f), self.tools)
        ign = shutil.ignore_patterns('__pycache__', '*.egg-info')
        shutil.copytree(os.path.join(vlib.REPO, 'src'), os.path.join(self.tools, 'src'), ignore=ign)
        shutil.copytree(os.path.join(vlib.ROOT, 'stub'), os.path.join(top, 'stub'), ignore=ign)
        os.makedirs(os.path.join(top, 'home'))
        self.env = {'HOME': os.path.join(top, 'home'), 'PATH': '/usr/local/bin:/usr/bin:/bin', 'TZ': 'UTC', 'PYTHONHASHSEED': '0',
                    'PYTHONPATH': os.pathsep.join([os.path.join(self.tools, 'src'), os.path.join(top, 'stub')]),
                    'PYTHONDONTWRITEBYTECODE': '1', 'GIT_CONFIG_NOSYSTEM': '1', 'LC_ALL': 'C',
                    'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@b', 'GIT_COMMITTER_NAME': 'a', 'GIT_COMMITTER_EMAIL': 'a@b'}
        self.shims('plain')
        self.repo = os.path.join(top, 'repo')
        os.makedirs(self.repo)
        self.own()
        self.git('init', '--quiet', '--template=', '-b', 'main')
        for tag in ('v1', 'v2', 'main', ''):
            for f in os.listdir(self.repo):
                if f != '.git':
                    p = os.path.join(self.repo, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            put(self.repo, states[tag])
            self.own()
            if tag:
                self.git('add', '-A')
                self.git('commit', '--quiet', '-m', tag)
                if tag != 'main':
                    self.git('tag', tag)

    def git(self, *a):
        rc, out = sh(['git'] + list(a), self.repo, self.env)
        if rc:
            raise vlib.Broken('git %s: %s' % (a, out))

    def own(self):
        for top, dirs, files in os.walk(self.top):
            for f in dirs + files:
                os.chown(os.path.join(top, f), NOBODY, NOBODY, follow_symlinks=False)
        os.chown(self.top, NOBODY, NOBODY)

    def shims(self, fault):
        """Directory with the programs the wrappers call, one of which fails
        or kills its caller."""
        d = os.path.join(self.top, 'bin ' + fault)
        if os.path.isdir(d):
            return d
        os.makedirs(d)
        then = {'copy fails': 'exit 1', 'killed at copy': 'kill -TERM $PPID', 'compiler fails': 'exit 3',
                'killed at compiler': 'kill -TERM $PPID'}
        for name, real in (('git', '/usr/bin/git'), ('cp', '/bin/cp'), ('python3', vlib.PY)):
            hit = fault in then and ('compiler' in fault) == (name == 'python3')
            p = os.path.join(d, name)
            with open(p, 'w') as f:
                f.write(SHIM % dict(guard=GUARD if name == 'cp' else '', real=real, then=then[fault] if hit else ':'))
            os.chmod(p, 0o755)
        return d


def run(job, base):
    s, where = job['s'], job['where']
    w = tempfile.mkdtemp(dir=base.top, prefix='w')
    comp = s['script'] == 'tzcompiler'
    place = {'cdpath': 'work', 'dash': 'work', 'dashes': 'work'}.get(where, where)
    cwd = os.path.join(w, place)
    name = 'tzfiles' if comp else {'my work': 'my tz', 'dash': '-', 'dashes': '--'}.get(where, 'tz')
    put(w, {'old/precious': 'p1', 'home/precious': 'p2', 'my/precious': 'p', 'work/tzfiles.txt': 'q', 'elsewhere/tz/precious': 'r', 'elsewhere/tzfiles/africa': 's', 'tzfiles/europe': 't'})
    put(cwd, {'mine.txt': 'u', 'work/tzfiles/precious': 'v', 'my/precious': 'x', 'zone': 'y'})
    if not (comp or where != 'my work'):
        put(cwd, {'tz/precious': 'z'})
    if s['exists'] == 'dir':
        put(cwd, {name + '/precious': '1', name + '/africa': '2'})
    elif s['exists'] == 'file':
        put(cwd, {name: '3'})
    elif s['exists'] == 'dangling':
        os.symlink('nothing', os.path.join(cwd, name))
    given = job['repo'].rstrip('/')
    src = os.path.normpath(os.path.join(cwd, given)) if given.startswith('..') else os.path.join(w, given)
    os.makedirs(os.path.dirname(src), exist_ok=True)
    subprocess.check_call(['cp', '-a', base.repo, src])
    asked = job['repo'] if given.startswith('..') else os.path.join(w, job['repo'])
    env = dict(base.env, HOME=os.path.join(w, 'home'), OLDPWD=os.path.join(w, 'old'), PATH=base.shims(s['fault']) + ':' + base.env['PATH'])
    if where == 'cdpath':
        env['CDPATH'] = os.path.join(w, 'elsewhere')
    base.own()
    argv = [os.path.join(base.tools, s['script'] + '.sh')]
    argv += ['--tag', s['tag']] if s['tag'] else []
    asked = '' if s['usage'] == 'empty repo' else asked
    if comp:
        argv += ['--tzrepo', asked] if s['usage'] != 'no repo' else []
        argv += ['--nocleanup'] if s['keep'] else []
        argv += ARGS
    else:
        argv += [] if s['usage'] == 'no repo' else [asked]
        argv += ['' if s['usage'] == 'empty target' else name if where != 'work' else os.path.join(cwd, name)]
        argv += ['more'] if s['usage'] == 'one too many' else []
    before = tree(w)
    rc, out = sh(argv, cwd, env)
    after = tree(w)
    ver = os.path.join(cwd, name, 'version.txt')
    version = open(ver).read().rstrip('\n') if os.path.isfile(ver) else 'none'
    res = {'id': job['id'], 's': s, 'status': rc, 'tags': job['tags'], 'work': job['work'], 'before': before, 'after': after,
           'cwd': os.path.relpath(cwd, w), 'target': os.path.join(os.path.relpath(cwd, w), name), 'version': version,
           'lib': {'ok': False, 'files': {}}, 'tail': out[-300:]}
    state = job['states'].get(s['tag'])
    if comp and state is not None:
        # the same compile without the wrapper
        shutil.rmtree(cwd)
        put(cwd, {'tzfiles/' + f: t for f, t in state.items() if f in record.FILES})
        base.own()
        had = set(tree(cwd))
        rc, _ = sh([os.path.join(base.tools, 'src/acetimetools/tzcompiler.py'), '--input_dir', os.path.join(cwd, 'tzfiles'),
                    '--output_dir', cwd, '--tz_version', s['tag'] or 'HEAD'] + ARGS, cwd, dict(env, PATH=base.shims('plain') + ':' + base.env['PATH']))
        res['lib'] = {'ok': rc == 0, 'files': {f: h for f, h in tree(cwd).items() if f not in had}}
    shutil.rmtree(w)
    return res


def main():
    top = tempfile.mkdtemp(prefix='wrap')
    os.chmod(top, 0o755)
    try:
        base = None
        with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as o:
            for line in f:
                job = json.loads(line)
                if base is None:
                    base = Base(top, job['states'])
                o.write(json.dumps(run(dict(job, tags={t: digests(x) for t, x in job['states'].items() if t},
                                            work=digests(job['states'][''])), base)) + '\n')
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    main()
