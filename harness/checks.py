"""What each check runs: the recordings it makes and how they are judged."""
import json
import random
import gen
import vlib

CHECKS = {}


def check(prop, level, assumptions, rule=None):
    def deco(f):
        CHECKS[prop] = (f, level, assumptions, rule)
        return f
    return deco


def run(prop):
    f, level, assumptions, rule = CHECKS[prop]
    return vlib.main(prop, f, level, assumptions, rule)


TRUST = ['TLC evaluates the specification correctly',
         'the recorder copies the values it is given (harness/record.py)']

CFG3 = [gen.cfg('basic'), gen.cfg('extended', 1980, 2200, strict=False), gen.cfg('complete', 1950, 2100)]


def sweep_jobs(fields, cfgs, want=('ext', 'tr')):
    for name, w in gen.sweep_worlds(fields):
        for i, c in enumerate(cfgs):
            yield gen.job('%s@%d' % (name, i), w, c, want)


def odd_jobs(cfgs, want=('ext', 'tr')):
    for name, w in gen.odd_worlds():
        for i, c in enumerate(cfgs):
            yield gen.job('odd:%s@%d' % (name, i), w, c, want)


def rand_jobs(seed, n, odd=0.03, want=('ext', 'tr'), mk=gen.rand_cfg):
    for i in range(n):
        rng = random.Random('%d/%d' % (seed, i))
        j = gen.job('rand%d.%d' % (seed, i), gen.rand_world(rng, odd), mk(rng), want)
        if i % 5 == 4:
            j['files'], j['cfg'] = gen.shifted(rng, j['files'], j['cfg'])
        yield j


def fill(j, r):
    """What the specification needs to know of the job, and what did not happen."""
    r['cfg'] = dict({'compress': True, 'ignore': False}, **j['cfg'])
    r['ns'], r['version'] = j.get('ns', 'zonedbvf'), j.get('version', '2025b')
    for x in ('tr', 'buf', 'ar', 'go', 'notes'):
        r.setdefault(x, {'ok': False})
    r.setdefault('zidb', {'ok': True})
    r['arAsked'] = bool({'ar', 'gen:arduino', 'gen:c'} & set(j['want']))
    for x in ('gen', 'asked', 'given'):
        r.setdefault(x, {})
    if 'script' in j:
        r['script'] = {n: j['script'].get(n, {'sizes': {}, 'default': 1, 'terminal': 0})
                       for n in r['tr'].get('zones', {})}


def speakable(j):
    """Can a command line ask for this?"""
    c = j['cfg']
    return ('tr' in j['want'] and not j.get('digest') and c['tiny'] == (c['scope'] != 'complete')
            and c['start'] >= {'basic': 1980, 'extended': 1974, 'complete': 1}[c['scope']] and c['start'] < c['until'] <= 32767
            and min(c['ug'], c['og'], c['dg']) > 0
            and all(n and n == n.strip() and not n.startswith('#') for n in c['include']))


def spoken(jobs, n):
    """Up to n of the jobs, to be asked for by a command line."""
    groups = {}
    for j in jobs:
        if speakable(j):
            groups.setdefault(tuple(j['cfg'][x] for x in ('scope', 'strict', 'ug', 'og', 'dg')) + (bool(j['cfg']['include']),), []).append(j)
    pick = []
    for g in groups.values():
        share = max(1, n // len(groups))
        pick += [g[(2 * i + 1) * len(g) // (2 * share)] for i in range(share)] if len(g) > share else g
    return [dict(j, id=j['id'] + '+cmd', via='command') for j in pick]


def run_jobs(c, jobs, judge, units='UAll', what='', batch=4000, commands=200, **kw):
    jobs = list(jobs)
    if commands:
        jobs += spoken(jobs, c.scale(commands, 10 * commands))
    for i in range(0, len(jobs), batch):
        part = jobs[i:i + batch]
        rec = c.record(part)
        for j, r in zip(part, rec):
            fill(j, r)
            if kw.get('with_files'):
                r['files'] = j['files']
        c.judge(rec, judge, units, jobs=part, what=what)
        c.sample('%s: %d recordings, e.g. %s' % (what or judge, len(part), part[len(part) // 2]['id']))



GENERAL = ['LineAccounting', 'Conserved', 'EraLossFlagged', 'Truthful']


def family_jobs(c, family, walk, count, invs, want=('ext', 'tr'), seed=None):
    """Explore `walk` worlds of a family step by step in the specification,
    with the invariants, and return `count` of them as jobs for the code."""
    cfgtext = ('INIT Init\nNEXT Next\nCONSTANTS\n Worlds <- Walked\n Family = "%s"\n Walk = %d\n'
               ' Count = %d\n Seed = %d\n' % (family, walk, count, c.seed if seed is None else seed))
    cfgtext += ''.join('INVARIANT %s\n' % i for i in GENERAL + list(invs)) + 'PROPERTY Monotone\n'
    out, d = c.model_check('Worlds', cfgtext, family)
    with open(d + '/worlds.ndjson') as f:
        jobs = [dict(json.loads(x), want=list(want)) for x in f]
    c.sample('model: %d behaviours of family %s, from source lines to result; %d worlds to the code' % (
        walk, family, len(jobs)))
    return jobs


def worlds(c, spec, invs, want=('ext', 'tr')):
    for fam, (walk, count) in spec.items():
        yield from family_jobs(c, fam, walk, count, invs, want)


def built(c, prop, fams, want, invs=()):
    """Explore the whole compiler in the specification, up to the tables and
    comments of the files, and return some of the worlds as jobs.
    fams: family -> (worlds explored, worlds run through the code)."""
    for fam, (walk, count) in fams.items():
        k = c.scale(1, 12)
        text = ('INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Worlds <- Walked\n Family = "%s"\n Walk = %d\n'
                ' Count = 1\n Seed = %d\nINVARIANT RefusedRight\n' % (fam, walk * k, c.seed))
        text += ''.join('INVARIANT %s\n' % i for i in ['Built' + prop] + list(invs))
        out, d = c.model_check('Build', text, fam)
        with open(d + '/worlds.ndjson') as f:
            jobs = [json.loads(x) for x in f]
        jobs = [dict(j, id='built:' + j['id'], want=want(j['cfg']['scope']) if callable(want) else list(want))
                for j in jobs if gen.plain_letters(j['files'])]
        jobs.sort(key=lambda j: j['id'])
        step = max(1, len(jobs) // (count * k))
        c.sample('model: %d compilers of family %s from source lines to files; %d worlds to the code' % (
            walk * k, fam, len(jobs[::step])))
        yield from jobs[::step]


TZ_QUICK = [('basic', 2000, 2100), ('extended', 1974, 2050), ('complete', 1950, 2000), ('complete', 2007, 2008)]


def tz(c, want=('ext', 'tr'), names=('rearguard',)):
    if c.thorough:
        return gen.tzdb_jobs(names=('rearguard', 'main'), want=want)
    return gen.tzdb_jobs(TZ_QUICK, names=names, want=want)


def calendar_jobs(c, n, want=('ext', 'tr')):
    r = random.Random('calendar%d' % c.seed)
    for i, (name, w) in enumerate(gen.calendar_worlds(r, n)):
        yield gen.job('%s.%d' % (name, c.seed), w, gen.cfg(r.choice(('complete', 'complete', 'extended')), 1895, 2110, strict=False, base=2000), want)


def transform_check(c, judge, units, invs, fields, cfgs, fams, odd=True, nrand=300, tzdb=True, calendar=0, **kw):
    k = c.scale(1, 15)
    if tzdb:
        run_jobs(c, tz(c), judge, units, 'tzdb')
    jobs = list(worlds(c, {f: (w * k, n * k) for f, (w, n) in fams.items()}, invs))
    if fields != ():
        jobs += sweep_jobs(fields, CFG3 if c.thorough else cfgs)
    if odd:
        jobs += odd_jobs(CFG3)
        jobs += [gen.job('crowded:%d@%d' % (n, i), w, x, ['ext', 'tr']) for i, x in enumerate(CFG3)
                 for n, w in gen.crowded_worlds((12, 40, 130) if c.thorough else (12, 40))]
    jobs += rand_jobs(c.seed, nrand * k)
    jobs += calendar_jobs(c, calendar * k)
    run_jobs(c, jobs, judge, units, 'generated', **kw)


@check('C01', 'model_checking', TRUST)
def c01(c):
    k = c.scale(1, 10)
    jobs = list(gen.tzdb_jobs(TZ_QUICK[:1], names=('rearguard', 'main'), want=['ext']))
    jobs += worlds(c, {'lines': (400 * k, 3000 * k)}, ['ReadRight'], ['ext'])
    jobs += sweep_jobs(None, CFG3[2:], ['ext'])
    jobs += odd_jobs(CFG3[2:], ['ext'])
    jobs += rand_jobs(c.seed, 500 * k, 0.2, ['ext'])
    jobs = [dict(j, want=['ext', 'labels']) for j in jobs]
    more = []
    for i, j in enumerate(jobs):
        # the same with other line ends, and without a last one
        if i % 3:
            more.append(dict(j, id=j['id'] + '+nl', nl='\r\n' if i % 3 == 1 else '\n', noeol=i % 2 == 0))
    run_jobs(c, jobs + more, 'C01', what='reading', with_files=True)


@check('C02', 'model_checking', TRUST)
def c02(c):
    transform_check(c, 'C02', 'ZoneUnits', ['InvC02'], None, CFG3[2:],
                    {'rules': (250, 1200), 'ordered': (150, 800), 'eras': (50, 300), 'priors': (150, 1200), 'shared': (100, 800)},
                    calendar=12)


@check('C23', 'model_checking', TRUST)
def c23(c):
    transform_check(c, 'C23', 'ByYearUnits', ['InvC23'], None, CFG3[2:],
                    {'rules': (60, 400), 'ordered': (60, 400), 'eras': (30, 200), 'priors': (60, 500), 'shared': (40, 300)},
                    nrand=200, calendar=4)


@check('C03', 'model_checking', TRUST)
def c03(c):
    transform_check(c, 'C03', 'FlagUnits', ['InvC03'], ['until', 'untilday', 'fromto'], CFG3[2:],
                    {'rules': (300, 1200), 'ordered': (200, 1000)})


@check('C04', 'model_checking', TRUST)
def c04(c):
    transform_check(c, 'C04', 'UAll', ['InvC04'], None, CFG3[:2],
                    {'names': (200, 800), 'fields': (200, 800), 'eras': (100, 500)})


@check('C05', 'model_checking', TRUST)
def c05(c):
    transform_check(c, 'C05', 'UAll', ['InvC05'], None, CFG3[1:],
                    {'rules': (100, 600), 'ordered': (100, 600), 'fields': (150, 800), 'names': (100, 300), 'priors': (100, 1000)}, calendar=4)


@check('C06', 'model_checking', TRUST)
def c06(c):
    transform_check(c, 'C06', 'UAll', ['InvC06'],
                    ['stdoff', 'rules', 'untiltime', 'at', 'save'], CFG3 + gran_cfgs(),
                    {'fields': (300, 1500)}, commands=800)


def gran_cfgs():
    return [gen.cfg('complete', 1950, 2100, strict=s, ug=u, og=o, dg=d)
            for s in (True, False) for u, o, d in ((900, 900, 900), (1800, 60, 3600), (60, 3600, 300), (7, 11, 13))] + [
                gen.cfg(s, 1980, 2100, strict=t, ug=u, og=o, dg=d) for s, t, u, o, d in (
                    ('basic', True, 1, 15, 60), ('extended', False, 15, 1, 60), ('extended', True, 900, 900, 3600))]


@check('C07', 'model_checking', TRUST)
def c07(c):
    basic = [gen.cfg('basic'), gen.cfg('basic', 1980, 2200, strict=False)]
    k = c.scale(1, 15)
    run_jobs(c, gen.tzdb_jobs([('basic', 2000, 2100), ('basic', 1980, 2200), ('basic', 2010, 2020)],
                              names=('rearguard', 'main') if c.thorough else ('rearguard',)), 'C07', what='tzdb')
    jobs = list(worlds(c, {f: (w * k, n * k) for f, (w, n) in
                           {'rules': (200, 600), 'eras': (200, 600), 'fields': (100, 600)}.items()}, ['InvC07']))
    for j in jobs:
        j['cfg'] = dict(j['cfg'], scope='basic', tiny=True)
    jobs += sweep_jobs(None, basic)
    jobs += odd_jobs(basic)
    jobs += rand_jobs(c.seed, 600 * k, mk=lambda r: dict(gen.rand_cfg(r), scope='basic', tiny=True))
    run_jobs(c, jobs, 'C07', what='basic')


@check('C10', 'model_checking', TRUST)
def c10(c):
    transform_check(c, 'C10', 'UAll', ['InvC10'], ['rules'], CFG3[2:], {'names': (400, 3000)})


def lists(c, jobs):
    """The same with a list of half of the names."""
    for j in jobs:
        names = sorted({x.split()[1] for ls in j['files'].values() for x in ls if x.startswith('Zone') and len(x.split()) > 1}
                       | {x.split()[2] for ls in j['files'].values() for x in ls if x.startswith('Link') and len(x.split()) > 2})
        r = random.Random('%d/%s' % (c.seed, j['id']))
        pick = [n for n in names if r.random() < 0.5] + (['Not/There'] if r.random() < 0.2 else [])
        yield dict(j, id=j['id'] + '+inc', cfg=dict(j['cfg'], include=pick or names[:1]))


@check('C16', 'model_checking', TRUST)
def c16(c):
    k = c.scale(1, 15)

    run_jobs(c, lists(c, tz(c)), 'C16', what='tzdb')
    jobs = list(worlds(c, {'names': (300 * k, 1500 * k)}, ['InvC16']))
    jobs += lists(c, rand_jobs(c.seed, 500 * k, 0.01))
    jobs += lists(c, odd_jobs(CFG3))
    jobs += lists(c, family_jobs(c, 'rules', 50 * k, 500 * k, ['InvC16']))
    run_jobs(c, jobs, 'C16', what='lists')


# ---- encodings and outputs ----------------------------------------------------
WIDE = gen.cfg('complete', 1800, 2100, strict=False)


def with_cfg(jobs, **over):
    for j in jobs:
        yield dict(j, cfg=dict(j['cfg'], **over))


@check('C08', 'model_checking', TRUST)
def c08(c):
    c.model_check('Codec', 'INIT Init\nNEXT Next\nCONSTANT Step = %d\nINVARIANT TimeCodec\nINVARIANT EraCodec\n'
                  'INVARIANT DeltaCodec\n' % c.scale(15, 1), 'codec')
    c.sample('model: every time, offset and saving of two days against what the fields can hold, both resolutions')
    want = ('ext', 'tr', 'ar')
    k = c.scale(1, 15)
    run_jobs(c, with_cfg(tz(c, want), compress=False), 'C08', what='tzdb')
    jobs = list(with_cfg(worlds(c, {'fields': (100 * k, 1500 * k), 'eras': (50, 300 * k)}, ['InvC06'], want), compress=False))
    fine = [gen.cfg(s, 1950, 2100, strict=t, ug=1, og=1, dg=1) for s in ('basic', 'extended', 'complete') for t in (True, False)]
    cfgs = [gen.cfg('extended', 1980, 2200, strict=False), gen.cfg('complete', 1950, 2100)] + fine
    for fields in (['stdoff', 'rules', 'untiltime', 'at', 'save', 'letter'], ['until']):
        jobs += with_cfg(sweep_jobs(fields, cfgs, want), compress=False)
    bases = [gen.cfg(s, a, b, strict=False, base=y) for s in ('basic', 'extended') for a, b, y in
             ((1974, 2300, 2100), (1980, 2200, 2000), (2000, 2100, 1950), (1980, 2200, 2226), (1974, 2300, 1850))]
    jobs += with_cfg(sweep_jobs(['until', 'fromto'], bases if c.thorough else bases[1:3], want), compress=False)
    jobs += with_cfg(rand_jobs(c.seed, 300 * k, 0.1, want, lambda r: dict(gen.rand_cfg(r), ug=r.choice([1, 15, 60, 900]),
                     og=r.choice([1, 15, 60, 900]), dg=r.choice([1, 60, 300, 900]), base=r.choice([2100, 2000, 1950, 2250]))),
                     compress=False)
    jobs += with_cfg(built(c, 'C08', {'fields': (120, 120), 'shared': (60, 60)}, want), compress=False)
    run_jobs(c, jobs, 'C08', what='values')
    run_jobs(c, [gen.job(n, w, dict(WIDE, compress=False), want) for n, w in gen.big_worlds()
                 if n.startswith(('letters', 'rules', 'eras'))], 'C08', what='sizes of tables')


@check('C12', 'model_checking', TRUST)
def c12(c):
    want = ('ext', 'tr', 'ar')
    k = c.scale(1, 10)
    cx = gen.cfg('complete')
    jobs = []
    for i, (n, w) in enumerate(gen.name_worlds()):
        for z in (True, False):
            jobs.append(gen.job('%s%s' % (n, '' if z else '-plain'), w, dict(cx, compress=z), want))
        if c.thorough or i % 6 == 0 or not n.startswith('tail'):
            jobs.append(gen.job(n + '-ar', w, gen.cfg('extended', strict=False), want + ('buf', 'gen:arduino')))
            jobs.append(gen.job(n + '-c', w, cx, want + ('buf', 'gen:c')))
            jobs.append(gen.job(n + '-plain-ar', w, dict(cx, compress=False), want + ('buf', 'gen:arduino', 'gen:c')))
    jobs += rand_names(c.seed, 300 * k, cx, want)
    jobs += rand_names(c.seed + 7, 12 * k, cx, want + ('buf', 'gen:arduino', 'gen:c'))
    jobs += worlds(c, {'names': (50 * k, 300 * k)}, ['InvC10'], want)
    jobs += built(c, 'C12', {'paths': (120, 120)}, want)
    jobs += worlds(c, {'paths': (20 * k, 400 * k)}, [], want)
    run_jobs(c, jobs, 'C12', what='names')
    run_jobs(c, [dict(j, want=list(want) + ['buf', 'gen:arduino'] + (['gen:c'] if j['cfg']['scope'] == 'complete' else []))
                 for j in tz(c)], 'C12', what='tzdb')


def rand_names(seed, n, cfg, want):
    """Zones and links with random names over few parts."""
    for i in range(n):
        r = random.Random('n%d/%d' % (seed, i))
        parts = ['Alpha', 'Bet', 'Beta', 'Face', 'Africa', 'Cab', 'D-D', 'E_e', 'F1', 'Alphabet', 'GMT+0', '0a', 'North_Dakota']
        parts = r.sample(parts, r.randint(2, 8))
        names = set()
        while len(names) < r.randint(5, 40):
            names.add('/'.join(r.choice(parts) for _ in range(r.randint(0, 3)))
                      + r.choice(['/', '/', '']) + r.choice(['x', 'a', '0', 'f', 'Q_']) + str(r.randint(0, 30)))
        names = [x.lstrip('/') for x in names]
        k = r.randint(0, len(names))
        w = gen.world(gen.UTC, [gen.zone(x, gen.era(str(j % 12), '-', 'X')) for j, x in enumerate(names[:k])],
                      [gen.link('Etc/UTC', x) for x in names[k:]])
        yield gen.job('names%d.%d' % (seed, i), w, dict(cfg, compress=r.random() < 0.8), want)


def output_jobs(c, gens, seed=None, nrand=10, scopes=('basic', 'extended', 'complete'), odd=True, want=('ext', 'tr', 'buf', 'ar')):
    """Worlds of every shape with the files of some languages."""
    seed = c.seed if seed is None else seed
    for name, w in list(gen.table_worlds()) + (list(gen.odd_worlds()) if odd else []):
        for s in scopes:
            if name in dict(gen.table_worlds()) or s == scopes[-1] or c.thorough:
                yield gen.job('%s@%s' % (name, s), w, gen.cfg(s, 1980, 2100, strict=False), list(want) + gens(s))
    for j in rand_jobs(seed, nrand * c.scale(1, 12), 0.01, want):
        if gen.plain_letters(j['files']):
            j['cfg']['strict'] = False
            yield dict(j, want=list(want) + gens(j['cfg']['scope']))


def scripted(jobs, seed):
    """The same with different sizes for every zone and year."""
    for j in jobs:
        r = random.Random('s%d/%s' % (seed, j['id']))
        names = sorted({x.split()[1] for ls in j['files'].values() for x in ls if x.startswith('Zone') and len(x.split()) > 1})
        c = j['cfg']
        lo, hi = c['start'] - 60, min(c['until'], 2300) + 60
        script = {}
        for n in names:
            style = r.randint(0, 5)
            top = r.choice([2, 5, 7, 8, 8]) if r.random() < 0.97 or style == 0 else r.choice([9, 12, 127, 300, 70000])
            default = r.randint(1, 2)
            term = r.choice([lo, c['start'] - 3, c['start'], c['start'] + 4, c['until'] - 1, c['until'] + 2, 2000, 2037, hi])
            sizes = {}
            pool = [c['start'] - 2, c['start'] - 1, c['start'], c['start'] + 1, c['until'] - 2, c['until'] - 1, c['until'],
                    c['until'] + 1, c['until'] + 2, term - 1, term, term + 1, 1999, 2000, 2001]
            for y in (pool if style < 2 else r.sample(pool, r.randint(0, 4)) if style < 5 else range(max(lo, 1900), hi)):
                if y < term + 2:
                    sizes[str(y)] = r.randint(1, top) if top < 100 or r.random() < 0.5 else r.choice([top, top - 1])
            if style == 4 and sizes:
                sizes[r.choice(sorted(sizes))] = top
            script[n] = {'sizes': sizes, 'default': default, 'terminal': term}
        yield dict(j, script=script)


def c_gens(s):
    return ['gen:arduino'] + (['gen:c'] if s == 'complete' else [])


def tz_outputs(c, gens, cfgs, want=('ext', 'tr', 'buf', 'ar')):
    for j in gen.tzdb_jobs(gen.TZDB_CFGS if c.thorough else cfgs, names=('rearguard', 'main') if c.thorough else ('rearguard',)):
        yield dict(j, want=list(want) + gens(j['cfg']['scope']))


TZ_OUT = [('basic', 2000, 2100), ('extended', 1980, 2200), ('complete', 1950, 2100)]


def many(want):
    """More than a thousand zones."""
    return [gen.job(n, w, WIDE, ['ext', 'tr', 'buf'] + [x for x in want if x not in ('gen:arduino', 'gen:c')])
            for n, w in gen.big_worlds() if n == 'zones:1300']


@check('C09', 'model_checking', TRUST)
def c09(c):
    g = lambda s: ['go', 'gen:go']
    want = ('ext', 'tr', 'buf')
    run_jobs(c, tz_outputs(c, g, TZ_OUT[2:], want), 'C09', what='tzdb')
    jobs = list(output_jobs(c, g, nrand=150, want=want))
    full = [gen.cfg('complete', 1950, 2100, strict=False)]
    for j in sweep_jobs(['stdoff', 'rules', 'untiltime', 'at', 'save', 'format', 'letter', 'until'], full):
        if gen.plain_letters(j['files']):
            jobs.append(dict(j, want=list(want) + g('')))
    jobs += [gen.job('names-' + n, w, gen.cfg('complete'), list(want) + g('')) for n, w in gen.name_worlds()
             if c.thorough or not n.startswith('tail')]
    jobs += built(c, 'C09', {'shared': (80, 80), 'paths': (60, 60)}, list(want) + g(''))
    run_jobs(c, scripted(jobs, c.seed), 'C09', what='worlds')
    run_jobs(c, [gen.job(n, w, WIDE, list(want) + g('')) for n, w in gen.big_worlds()
                 if c.thorough or not n.startswith('formats') and n != 'zones:4200'], 'C09', what='sizes of tables')
    run_jobs(c, [gen.job(n, w, WIDE, list(want) + ['go']) for n, w in gen.huge_worlds(c.scale([65536], [65534, 65535, 65536, 65537]))],
             'C09Fits', what='sizes of all tables')


@check('C11', 'model_checking', TRUST)
def c11(c):
    g = lambda s: c_gens(s) + ['go', 'gen:go', 'gen:python']
    run_jobs(c, tz_outputs(c, g, TZ_OUT), 'C11', what='tzdb')
    jobs = list(output_jobs(c, g, nrand=3))
    jobs += rand_names(c.seed, 25 * c.scale(1, 12), gen.cfg('complete'), ['ext', 'tr', 'buf', 'ar'] + g('complete'))
    jobs += rand_names(c.seed + 1, 500 * c.scale(1, 12), gen.cfg('complete'), ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:python'])
    jobs += built(c, 'C11', {'paths': (100, 60)}, ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:python'])
    jobs += many(g(''))
    run_jobs(c, jobs, 'C11', what='worlds')


@check('C13', 'model_checking', TRUST)
def c13(c):
    run_jobs(c, tz_outputs(c, c_gens, TZ_OUT), 'C13', what='tzdb')
    jobs = list(output_jobs(c, c_gens, nrand=60))
    r = random.Random(c.seed)
    sw = list(sweep_jobs(['stdoff', 'rules', 'untiltime', 'at', 'save', 'format', 'letter', 'until', 'on'],
                         [gen.cfg('basic', 1980, 2200, strict=False), gen.cfg('extended', 1980, 2200, strict=False, base=2050),
                          gen.cfg('complete', 1950, 2100, strict=False)]))
    for j in r.sample(sw, 100 * c.scale(1, 8)):
        jobs.append(dict(j, want=['ext', 'tr', 'buf', 'ar'] + c_gens(j['cfg']['scope'])))
    jobs += [dict(j, ns=r.choice(['zonedb', 'zonedbx', 'Vf_1']), version=r.choice(['2025b', '1999z', 'HEAD', '2024a'])) for j in jobs[:8]]
    for i, j in enumerate(jobs[-8:]):
        j['id'] += '+ns%d' % i
    jobs += built(c, 'C13', {'shared': (80, 12), 'fields': (80, 12)}, lambda s: ['ext', 'tr', 'buf', 'ar'] + c_gens(s))
    run_jobs(c, scripted(jobs, c.seed), 'C13', what='worlds')
    run_jobs(c, [gen.job(n, w, WIDE, ['ext', 'tr', 'buf', 'ar', 'gen:arduino', 'gen:c']) for n, w in gen.big_worlds()
                 if n in ('letters:127', 'letters:255', 'rules:253', 'eras:255', 'policies:256', 'zones:1300')], 'C13', what='sizes of tables')


@check('C14', 'model_checking', TRUST)
def c14(c):
    g = lambda s: ['gen:python', 'gen:json', 'gen:zonelist']
    want = ('ext', 'tr', 'buf')
    run_jobs(c, tz_outputs(c, g, TZ_OUT, want), 'C14', what='tzdb')
    jobs = list(output_jobs(c, g, nrand=200, want=want))
    for j in sweep_jobs(None, [gen.cfg('complete', 1950, 2100, strict=False)]):
        if c.thorough or len(jobs) % 2 or not j['id'].startswith('fromto'):
            jobs.append(dict(j, want=list(want) + g('')))
    r = random.Random(c.seed)
    jobs = [dict(j, version=r.choice(['2025b', '1999z', 'HEAD', '2024a', '2025'])) for j in jobs]
    run_jobs(c, scripted(jobs + many(g('')), c.seed), 'C14', what='worlds')


def notice_jobs(c, n, want):
    """Worlds in which much is removed and noted."""
    for i in range(n):
        r = random.Random('o%d/%d' % (c.seed, i))
        j = gen.job('notices%d.%d' % (c.seed, i), gen.rand_world(r, 0.12), dict(gen.rand_cfg(r), strict=r.random() < 0.2), want)
        if i % 4 == 3:
            j['files'], j['cfg'] = gen.shifted(r, j['files'], j['cfg'])
        if gen.plain_letters(j['files']):
            if r.random() < 0.3:
                j['cfg']['include'] = ['Zone/X', 'Zone/Y', 'Link/0', 'Etc/UTC']
            yield j


@check('C17', 'model_checking', TRUST)
def c17(c):
    k = c.scale(1, 12)
    g = lambda s: c_gens(s) + ['go', 'gen:go', 'gen:python', 'gen:json']
    run_jobs(c, tz_outputs(c, g, TZ_OUT), 'C17', what='tzdb')
    jobs = list(output_jobs(c, lambda s: ['go', 'gen:go', 'gen:python', 'gen:json'], nrand=50, want=('ext', 'tr', 'buf')))
    jobs += [dict(j, want=['ext', 'tr', 'buf', 'ar'] + g(j['cfg']['scope'])) for j in notice_jobs(c, 40 * k, ())]
    jobs += notice_jobs(c, 500 * k, ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:python', 'gen:json'])
    jobs += built(c, 'C17', {'shared': (80, 80), 'fields': (80, 80)}, ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:python', 'gen:json'])
    seen = set()
    jobs = [j for j in jobs if not (tuple(j['want']), j['id']) in seen and not seen.add((tuple(j['want']), j['id']))]
    for i, j in enumerate(jobs):
        j['id'] += '#%d' % i
    run_jobs(c, jobs, 'C17', what='worlds')


@check('C24', 'model_checking', TRUST)
def c24(c):
    k = c.scale(1, 12)
    def g(j):
        s = j['cfg']['scope']
        return dict(j, want=['ext', 'tr', 'buf', 'labels', 'ar', 'go', 'gen:arduino', 'gen:go', 'gen:python', 'gen:json'] + (
            ['gen:c'] if s == 'complete' else []))
    tz_ = gen.tzdb_jobs(gen.TZDB_CFGS if c.thorough else TZ_OUT[1:], names=('rearguard', 'main') if c.thorough else ('rearguard',))
    run_jobs(c, [g(j) for j in tz_], 'C24', what='tzdb', with_files=True)
    jobs = [g(j) for j in worlds(c, {'rules': (60 * k, 200 * k), 'eras': (60 * k, 200 * k), 'lines': (60 * k, 200 * k)}, [])]
    jobs += [g(j) for j in output_jobs(c, lambda s: [], nrand=120)]
    jobs += [g(j) for j in notice_jobs(c, 60 * k, ())]
    jobs += [dict(j, want=['ext', 'tr', 'buf', 'labels', 'go', 'gen:go', 'gen:python', 'gen:json']) for j in rand_jobs(c.seed + 7, 300 * k, 0.02)
             if gen.plain_letters(j['files'])]
    jobs += [dict(j, want=['ext', 'tr', 'labels']) for j in sweep_jobs(None, CFG3[2:])]
    jobs += [dict(j, want=['ext', 'tr', 'labels']) for j in odd_jobs(CFG3)]
    for i, j in enumerate(jobs):
        j['id'] += '#%d' % i
    run_jobs(c, jobs, 'C24', what='worlds', with_files=True)


@check('C18', 'model_checking', TRUST)
def c18(c):
    k = c.scale(1, 12)
    want = ['ext', 'tr', 'buf']
    for top, sizes, limit, zones in ((4, '{0, 1, 2}', 1, '{"a"}'), (2, '{1, 2}', 1, '{"a", "b"}')) if not c.thorough else (
            (5, '{0, 1, 2}', 1, '{"a"}'), (3, '{1, 2}', 1, '{"a", "b"}')):
        c.model_check('Estimate', 'SPECIFICATION Spec\nCONSTANTS\n Top = %d\n Sizes = %s\n Limit = %d\n Zones = %s\nINVARIANT InRange\n'
                      'INVARIANT Covers\nINVARIANT Refuses\nINVARIANT LastYear\n' % (top, sizes, limit, zones)
                      + ('PROPERTY Ends\n' if c.thorough else ''), 'estimator')
    c.sample('model: the loop over zones and years of the estimator, for every processor of few years and sizes')
    run_jobs(c, scripted(tz(c, want), c.seed), 'C18', what='tzdb')
    jobs = [dict(j, want=want) for j in output_jobs(c, lambda s: [], nrand=500, want=want)]
    jobs += [gen.job(n, w, gen.cfg('complete', 1750, 2100, strict=False), want) for n, w in gen.big_worlds()
             if n.startswith(('rules:', 'eras:'))]
    jobs += [gen.job('crowded:%d' % n, w, gen.cfg('complete', 1990, 2050, strict=False), want) for n, w in gen.crowded_worlds()]
    alone = gen.world(gen.zone('Only/One', gen.era('1', 'B', 'X%sT', '2005'), gen.era('2', '-', 'Y')), gen.POLICY_B)
    jobs += [gen.job('alone%d' % i, alone, gen.cfg(s, 2000, 2010, strict=False), want) for i in range(30 * k) for s in ('extended', 'complete')]
    for i, j in enumerate(jobs):
        r = random.Random('i%d/%d' % (c.seed, i))
        j['id'] += '#%d' % i
        j['cfg'] = dict(j['cfg'], ignore=r.random() < 0.4)
        a = r.choice([1980, 1999, 2000, 2001, 2010, 2036, 2050, 2098, 2130, 1850])
        if r.random() < 0.5:
            j['cfg'].update(start=a, until=a + r.choice([1, 2, 3, 10, 60]))
        if i % 25 == 0 and gen.plain_letters(j['files']):
            j['want'] = want + ['ar', 'go', 'gen:arduino', 'gen:go', 'gen:json'] + (
                ['gen:c'] if j['cfg']['scope'] == 'complete' else [])
    run_jobs(c, scripted(jobs, c.seed), 'C18', what='scripts')


@check('C21', 'model_checking', TRUST)
def c21(c):
    g = lambda s: c_gens(s) + ['go', 'gen:go', 'gen:python', 'gen:json', 'log']
    k = c.scale(1, 12)
    run_jobs(c, tz_outputs(c, g, TZ_OUT), 'C21', what='tzdb')
    jobs = list(output_jobs(c, lambda s: ['go', 'gen:go', 'gen:python', 'gen:json'], nrand=150))
    jobs += [dict(j, id=j['id'] + '+c', want=['ext', 'tr', 'buf', 'ar'] + g(j['cfg']['scope']))
             for j in output_jobs(c, g, seed=c.seed + 1, nrand=12, odd=c.thorough)]
    jobs += rand_names(c.seed, 8 * k, gen.cfg('complete'), ['ext', 'tr', 'buf', 'ar'] + g('complete'))
    jobs += rand_names(c.seed + 2, 200 * k, gen.cfg('complete'), ['ext', 'tr', 'buf', 'ar'] + ['go', 'gen:go'])
    jobs += built(c, 'C21', {'paths': (60, 60), 'eras': (60, 60)}, ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:python', 'gen:json'])
    jobs += notice_jobs(c, 60 * k, ['ext', 'tr', 'buf', 'go', 'gen:go', 'gen:json'])
    jobs += lists(c, [j for j in jobs if len(j['want']) > 6][::2])
    for i, j in enumerate(jobs):
        j['cfg'] = dict(j['cfg'], compress=i % 4 != 1)
        j['want'] = sorted(set(j['want']) | {'log'})
    run_jobs(c, scripted(jobs, c.seed), 'C21', what='worlds')
    run_jobs(c, [gen.job(n, w, WIDE, ['ext', 'tr', 'buf', 'ar', 'go', 'gen:go', 'gen:json']) for n, w in gen.big_worlds()
                 if c.thorough or n.startswith(('letters:', 'policies:126', 'zones:1300'))], 'C21', what='sizes of tables')


def shuffled(files, r):
    """The groups of a source in another order, over other files.  A group
    is a zone with its continuations, a policy, or a link."""
    groups, cur = {}, None
    for f in record_files():
        for x in files.get(f, []):
            p = x.split('#')[0].split()
            if p and p[0] == 'Link' and len(p) > 2:
                cur = 'L ' + p[2]
            elif p and p[0] in ('Zone', 'Rule') and len(p) > 1:
                cur = p[0] + ' ' + p[1]
            groups.setdefault(cur or '?', []).append(x)
    keys = list(groups)
    r.shuffle(keys)
    out = {}
    for key in keys:
        out.setdefault(r.choice(record_files()), []).extend(groups[key])
    return out


def record_files():
    return ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera', 'europe', 'northamerica', 'southamerica']


@check('C15', 'model_checking', TRUST + ['SHA-256 digests of equal length differ for different files'])
def c15(c):
    k = c.scale(1, 12)
    # the specification: no arrangement of a source changes the result
    bases = []
    for fam, walk, count in (('rules', 60, 150), ('ordered', 60, 150), ('names', 100, 250), ('fields', 60, 200)):
        text = ('INIT OrderInit\nNEXT OrderNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Worlds <- Walked\n Family = "%s"\n Walk = %d\n'
                ' Count = %d\n Seed = %d\nINVARIANT SameResult\n' % (fam, walk * k, count * k, c.seed))
        out, d = c.model_check('Order', text, 'order of ' + fam)
        with open(d + '/orders.ndjson') as f:
            bases += [json.loads(x) for x in f]
    c.sample('model: 4 arrangements of each of %d worlds give one result' % (280 * k))
    langs = lambda s: ['go', 'gen:go', 'gen:python', 'gen:json', 'gen:zonelist', 'gen:arduino'] + (['gen:c'] if s == 'complete' else [])
    want = lambda s: ['ext', 'tr', 'buf', 'ar'] + langs(s)
    groups = [(b['id'], b['base']['files'], b['base']['cfg'], [o['files'] for o in b['others']]) for b in bases]
    for n, w in list(gen.table_worlds()) + list(gen.name_worlds())[::c.scale(9, 1)]:
        for s in ('basic', 'extended', 'complete'):
            groups.append(('%s@%s' % (n, s), w, gen.cfg(s, 1980, 2100, strict=False), None))
    for j in list(notice_jobs(c, 250 * k, ())) + list(rand_jobs(c.seed, 100 * k, 0.05)):
        groups.append((j['id'], j['files'], j['cfg'], None))
    for j in tz(c):
        groups.append((j['id'], j['files'], j['cfg'], None))
    jobs, others = [], []
    for n, files, conf, arr in groups:
        r = random.Random('%d/%s' % (c.seed, n))
        one = gen.job(n, files, conf, want(conf['scope']), digest='bytes')
        if r.random() < 0.2 and 'compress' not in conf:
            one['cfg'] = dict(conf, compress=False)
        one = next(scripted([one], c.seed))
        jobs.append(one)
        others.append([dict(one, files=a) for a in (arr or [shuffled(files, r) for _ in range(3)])])
    base = c.record(jobs)
    seeds = [c.record(jobs, hashseed=s) for s in ('1', '12345', 'random')[:c.scale(2, 3)]]
    flat = [o for os_ in others for o in os_]
    moved = c.record(flat)
    # where files differ in bytes, compare what they say
    again, at = {}, 0
    said = [dict(j, id=j['id'] + '+cmd', via='command') for j in jobs[::max(1, len(jobs) // c.scale(60, 400))]
            if speakable(dict(j, digest=''))]
    told = c.record(said)
    heard = [c.record(said, hashseed=s) for s in ('7', '4321')]
    for i, os_ in enumerate(others):
        mine = moved[at:at + len(os_)]
        at += len(os_)
        others[i] = (os_, mine)
        if any(m.get('gen') != base[i].get('gen') for m in mine):
            again[i] = [dict(j, digest='content') for j in [jobs[i]] + os_]
    full = c.record([j for js in again.values() for j in js]) if again else []
    at = 0
    for i, js in again.items():
        again[i] = full[at:at + len(js)]
        at += len(js)

    def run(what, r, same):
        x = {'what': what, 'same': same}
        for key in ('ext', 'tr', 'buf', 'ar', 'go', 'zidb', 'notes'):
            x[key] = r.get(key, {'ok': False})
        x['gen'] = r.get('gen', {})
        if not x['tr'].get('ok'):
            x['tr'] = {'ok': False}
        if not x['ext'].get('ok'):
            x['ext'] = {'ok': False}
        x['ext'].pop('order', None)
        for key in ('zone_id_order', 'link_id_order'):
            x['tr'].pop(key, None)
        x['buf'].pop('order', None)
        for key in ('buf', 'ar', 'go', 'zidb', 'notes'):
            x[key] = {'ok': True} if x[key].get('ok', True) else {'ok': False}
        return x
    cases = []
    for i, j in enumerate(jobs):
        b = run('base', base[i], 'bytes')
        runs = [run('hash seed %d' % n, s[i], 'bytes') for n, s in enumerate(seeds)]
        os_, mine = others[i]
        runs += [run('arrangement %d' % n, m, 'content') for n, m in enumerate(mine)]
        k = {'id': j['id'], 'base': b, 'runs': runs, 'full': {}}
        if i in again:
            k['full'] = {'base': again[i][0].get('gen', {}), 'others': [x.get('gen', {}) for x in again[i][1:]]}
            off = len(seeds)
            for n, x in enumerate(again[i][1:]):
                runs[off + n]['content'] = x.get('gen', {})
        cases.append(k)
    c.judge([{'id': j['id'], 'base': run('base', told[i], 'bytes'), 'full': {},
              'runs': [run('hash seed %d' % n, h[i], 'bytes') for n, h in enumerate(heard)]} for i, j in enumerate(said)],
            'C15', jobs=said, what='command lines')
    for n in range(0, len(cases), 1500):
        c.judge(cases[n:n + 1500], 'C15', jobs=[dict(j, arrangements=[o['files'] for o in others[n + i][0]])
                                                for i, j in enumerate(jobs[n:n + 1500])], what='same')
    c.sample('%d sources, each under %d hash seeds and %d arrangements; %d compared by content' % (
        len(jobs), len(seeds) + 1, len(flat), len(again)))


def cli_sources():
    f = 'europe'
    base = gen.world(gen.zone('America/One', gen.era('-4:56:02', '-', 'LMT', '1983 Nov 18 12:03:58'), gen.era('-5:00', 'A')),
                     gen.link('America/One', 'US/One'), gen.UTC, gen.link('Etc/UTC', 'UTC'),
                     gen.zone('Europe/Two', gen.era('1:00', 'B', 'CE%sT', '2004'), gen.era('2:00', '-', 'EET')),
                     gen.zone('Asia/Three', gen.era('5:30', '-', 'IST')),
                     gen.rule('A', '1990', 'max', 'Mar', 'Sun>=8', '2:00', '1:00', 'D'),
                     gen.rule('A', '1990', 'max', 'Nov', 'Sun>=1', '2:00', '0', 'S'),
                     gen.rule('B', '1996', '2003', 'Mar', 'lastSun', '1:00u', '1:00', 'S'),
                     gen.rule('B', '1996', '2003', 'Oct', 'lastSun', '1:00u', '0', '-'))
    fine = gen.world(gen.zone('America/One', gen.era('-4:30:20', '-', 'A', '2003 May 1 2:00:30'), gen.era('-5:00', 'A')),
                     gen.link('America/One', 'US/One'), gen.UTC, gen.link('Etc/UTC', 'UTC'),
                     gen.zone('Europe/Two', gen.era('1:10', 'B', 'CE%sT', '2004'), gen.era('2:00', '0:20', 'EET')),
                     gen.zone('Asia/Three', gen.era('5:30', 'C', 'IS%sT')),
                     gen.rule('A', '1990', 'max', 'Mar', 'Sun>=8', '2:00', '1:00', 'D'),
                     gen.rule('A', '1990', 'max', 'Nov', 'Sun>=1', '2:00', '0', 'S'),
                     gen.rule('B', '1996', '2003', 'Mar', 'lastSun', '1:07', '0:20', 'S'),
                     gen.rule('B', '1996', '2003', 'Oct', 'lastSun', '1:00:30', '0', '-'),
                     gen.rule('C', '1996', 'max', 'Mar', 'lastSun', '1:15', '0:30', 'S'),
                     gen.rule('C', '1996', 'max', 'Oct', 'lastSun', '1:00', '0', '-'))
    small = {'America/One': {'sizes': {'2007': 5}, 'default': 3, 'terminal': 2010}}
    large = {'Europe/Two': {'sizes': {'2002': 9, '1999': 12}, 'default': 2, 'terminal': 2010}}
    return {'in1': base, 'in2': fine, 'in3': base}, {'in1': small, 'in2': small, 'in3': large}


@check('C19', 'model_checking', TRUST + ['SHA-256 digests of equal length differ for different files'])
def c19(c):
    out, d = c.model_check('Commands', 'INIT Init\nNEXT Next\nINVARIANT Decided\nCONSTANTS\n Count = %d\n Seed = %d\n' % (
        c.scale(600, 12000), c.seed), 'command lines')
    with open(d + '/commands.ndjson') as f:
        cmds = [json.loads(x) for x in f]
    sources, scripts = cli_sources()
    jobs, seen = [], set()
    for j in cmds:
        q = j['asked']
        if tuple(j['argv']) in seen:
            continue
        seen.add(tuple(j['argv']))
        if q['what'] == 'compile' and {'arduino', 'c'} <= set(q['gens']):
            continue
        jobs.append(dict(j, sources=sources, script=scripts.get(q.get('input'), {})))
        if len(jobs) % 3 == 0 and q['what'] == 'compile':
            jobs[-1]['stale'] = ['notes.txt', 'zone_infos.py', 'zone_infos.h', 'zone_policies.go', 'zonedb.json', 'zones.txt']
    rec = c.record(jobs, 'record_cli.py', timeout=800)
    c.judge(rec, 'C19', jobs=jobs, what='commands')
    n = {w: sum(1 for j in jobs if j['asked']['what'] == w) for w in ('compile', 'refused', 'help')}
    c.sample('%d command lines asking for a database (%d of them made), %d invalid, %d for help' % (
        n['compile'], sum(1 for r in rec if r['status'] == 0 and r['lib']['ok']), n['refused'], n['help']))
    c.sample('e.g. ' + ' '.join(jobs[len(jobs) // 2]['argv']))


@check('C20', 'model_checking', TRUST)
def c20(c):
    for init in ('Init', 'EdgeInit'):
        c.model_check('Bytes', 'INIT %s\nNEXT Next\nINVARIANT RoundTrip\n' % init, 'bytes')
    c.sample('model: every value of 8 and 16 bits and 17 x 65536 of 32 bits, written and read back')
    jobs = []
    for fn, bits in (('u8', 8), ('i8', 8), ('u16', 16), ('i16', 16), ('u32', 32), ('i32', 32)):
        r = random.Random('%s%d' % (fn, c.seed))
        edges = sorted({s * (1 << k) + d for k in range(0, 34) for s in (1, -1) for d in range(-3, 4)})
        vals = [r.randrange(-(1 << 32) - 1000, (1 << 33)) for _ in range(c.scale(3000, 100000))]
        vals += [r.randrange(-(1 << 31), 1 << 32) for _ in range(c.scale(3000, 100000))]
        if bits == 32:
            vals += [(r.randrange(256) << 24) + b for b in range(0, 65536, c.scale(17, 1))]
        vals = [v for v in vals + edges if -(1 << 40) < v < (1 << 40)]
        for a in range(-70000, 70000, 5000):
            jobs.append(dict(id='%s:%d' % (fn, a), fn=fn, range=[a, a + 5000], values=vals[:0]))
        for n in range(0, len(vals), 5000):
            jobs.append(dict(id='%s+%d' % (fn, n), fn=fn, range=[0, 0], values=vals[n:n + 5000]))
    jobs.append(dict(id='hex', hex=True))
    top = c.scale(40, 120)
    for n in range(0, top):
        jobs.append(dict(id='text%d' % n, texts=[[n, k, '\t\t'] for k in range(1, 45)]
                         + [[n * m, k, ''] for m in (3, 16) for k in (1, 4, 12, 14, 16, 255)]))
    rec = c.record(jobs, 'record_bytes.py')
    c.judge(rec, 'C20', jobs=jobs, what='writers')
    c.evals += sum(len(r['items']) + len(r['texts']) for r in rec)
    c.sample('%d writes and %d texts' % (sum(len(r['items']) for r in rec), sum(len(r['texts']) for r in rec)))


def wrap_states():
    """What is in the tz repository at each tag, and in its working tree."""
    base = cli_sources()[0]['in1']
    text = {f: '\n'.join(base.get(f, [])) + '\n' for f in record_files()}
    clutter = {'Makefile': 'all:\n', 'zic.c': 'int main;\n', 'private.h': '#\n', 'version': 'x\n', 'sub/africa': 'Zone\n',
               'africa2': 'Zone\n', 'europe.bak': 'Zone\n', 'factory': 'Zone Factory 0 - -00\n', '.hidden': '.\n', 'NEWS': 'new\n'}
    more = lambda i: gen.zone('Tag/V%d' % i, gen.era('%d:00' % i, '-', 'V%d' % i))[0] + '\n'
    states = {}
    for i, t in enumerate(['v1', 'v2', 'main', '']):
        states[t] = dict(text, **clutter)
        states[t]['asia'] = states[t]['asia'] + more(i + 1)
        states[t]['Makefile'] += '# %d\n' % i
    states['']['untracked.txt'] = 'u\n'
    return states


@check('C22', 'model_checking', TRUST + ['SHA-256 digests of equal length differ for different files'])
def c22(c):
    c.model_check('Wrap', 'SPECIFICATION Spec\nINVARIANT Untouched\nINVARIANT Cleaned\nINVARIANT Right\nINVARIANT Works\n'
                  'PROPERTY Ends\nCHECK_DEADLOCK FALSE\n', 'wrappers')
    rec_jobs = []
    for seed in range(c.seed, c.seed + c.scale(1, 6)):
        out, d = c.model_check('Wraps', 'SPECIFICATION Spec\nINVARIANT Untouched\nCHECK_DEADLOCK FALSE\n', 'scenarios', extra_args=['-seed', str(seed)])
        with open(d + '/wraps.ndjson') as f:
            rec_jobs += [dict(json.loads(x), states=wrap_states()) for x in f]
    c.sample('e.g. %(s)s in %(where)s of %(repo)s' % rec_jobs[len(rec_jobs) // 2])
    for i, j in enumerate(rec_jobs):
        j['id'] += '#%d' % i
    rec = c.record(rec_jobs, 'record_wrap.py', timeout=800 if not c.thorough else 6000)
    c.judge(rec, 'C22', jobs=rec_jobs, what='wrappers')
    c.sample('%d runs of the wrappers, %d of them succeeded' % (len(rec), sum(1 for r in rec if r['status'] == 0)))


_T = 'TLA+ specification checked with TLC; conformance of the real code by '
TECHNIQUE = {i: _T + 'replaying specification-generated worlds and judging recordings with TLC' for i in
             ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C10', 'C16', 'C23')}
TECHNIQUE.update({i: _T + 'recording it on generated worlds, reading the generated files back, and judging both with TLC' for i in
                  ('C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C18', 'C20', 'C21', 'C24')})
_N = ('Invariants are checked by TLC on the specification\'s state machine over a bounded family of source worlds; the '
      'real code is run on those worlds, on edge-value sweeps, random worlds and whole TZDB releases, and every '
      'recording is judged by the same TLA+ predicates. Bounded by the worlds generated; trusts TLC and the recorder.')
NOTE = {i: _N for i in TECHNIQUE}
_G = ('The real code is run on whole TZDB releases, table-shape worlds, edge-value sweeps, random worlds and worlds at the '
      'limits of the index types; what it generates is read back (compiled, imported or parsed) and every recording is judged '
      'by TLA+ predicates that decode the tables. Bounded by the worlds generated; trusts TLC, the recorder and the compilers.')
NOTE.update({i: _G for i in ('C09', 'C11', 'C12', 'C13', 'C14', 'C17', 'C18', 'C21', 'C24')})
NOTE['C15'] = ('TLC checks on the specification that no arrangement of the groups of a source changes its result; the real code is run '
               'on each source under several hash seeds and arrangements, all outputs compared by TLC. Sampled sources and arrangements.')
TECHNIQUE['C19'] = _T + 'running command lines the specification generates and decides, judged with TLC'
NOTE['C19'] = ('The specification reads a command line, decides what it asks for, and generates command lines; the real script is run '
               'on each, and TLC judges exit status and files against the request and the stages run one by one. Sampled command '
               'lines on three small sources; arduino and c in one directory are left out.')
TECHNIQUE['C22'] = _T + 'running the scripts on every scenario of the state machine, judged with TLC'
NOTE['C22'] = ('TLC checks the state machine of the wrappers over every combination of request, existing files, failure and kill; the '
               'real scripts are run (unprivileged, in a scratch copy) on each scenario and TLC judges every file before and after. '
               'Signals are sent at program boundaries only.')
NOTE['C20'] = ('TLC checks that the specified bytes of every 8 and 16 bit value, and of 17 x 65536 values of 32 bits, read back; '
               'the real writers are run on every value from -70000 to 70000 and on edges and random values beyond, the texts on '
               'every length and chunk size up to 40, and TLC judges each. 32-bit values are sampled.')
NOTE['C08'] = ('TLC checks the codec exhaustively (every time, offset and saving of two days in both resolutions), and judges '
               'recordings of the real encoder on edge-value sweeps, random worlds and tables at their limits. ' + _N[-71:])
