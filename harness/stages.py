"""Stages after extraction, driven through their public classes in the order
of the command line tool.  Snapshots only; nothing is judged here."""
import contextlib
import hashlib
import json
import logging
import os
import runpy
import shutil
import sys
import types

import decode
import record
from acetime import zone_processor
from acetimetools import tzcompiler
from acetimetools.bufestimator.bufestimator import BufSizeEstimator
from acetimetools.datatypes.attyping import create_zone_info_database
from acetimetools.extractor.extractor import Extractor
from acetimetools.generator.argenerator import ArduinoGenerator
from acetimetools.generator.cgenerator import CGenerator
from acetimetools.generator.gogenerator import GoGenerator
from acetimetools.generator.jsongenerator import JsonGenerator
from acetimetools.generator.pygenerator import PythonGenerator
from acetimetools.generator.zonelistgenerator import ZoneListGenerator
from acetimetools.transformer.artransformer import ArduinoTransformer
from acetimetools.transformer.commenter import Commenter
from acetimetools.transformer.gotransformer import GoTransformer

NS, VERSION = 'zonedbvf', '2025b'
INVOCATION = 'tzcompiler.py --scope x --strict'


def err(e):
    return {'ok': False, 'err': '%s: %s' % (type(e).__name__, e)}


def pairs(m):
    return [[k, list(v) if isinstance(v, tuple) else v] for k, v in m.items()]


LOW_RULE = {'code': 'at_time_code', 'mod': 'at_time_modifier', 'delta': 'delta_code_encoded', 'letter': 'letter_index',
            'from': 'from_year_tiny', 'to': 'to_year_tiny'}
HIGH_RULE = {'code': 'at_time_seconds_code', 'mod': 'at_time_seconds_modifier', 'delta': 'delta_minutes',
             'letter': 'letter_index', 'from': 'from_year', 'to': 'to_year'}
LOW_ERA = {'off': 'offset_code', 'delta': 'delta_code_encoded', 'code': 'until_time_code', 'mod': 'until_time_modifier',
           'year': 'until_year_tiny'}
HIGH_ERA = {'off': 'offset_seconds_code', 'rem': 'offset_seconds_remainder', 'delta': 'delta_minutes',
            'code': 'until_time_seconds_code', 'mod': 'until_time_seconds_modifier', 'year': 'until_year'}


def take(d, keys):
    return {k: d[v] for k, v in keys.items()}


def snap_ar(t, low):
    rk, ek = (LOW_RULE, LOW_ERA) if low else (HIGH_RULE, HIGH_ERA)
    return {'ok': True,
            'rules': {n: [take(r, rk) for r in p['rules']] for n, p in t.policies_map.items()},
            'eras': {n: [dict({'rem': 0}, **take(e, ek)) for e in z['eras']] for n, z in t.zones_map.items()},
            'letters': pairs(t.letters_map), 'formats': pairs(t.formats_map), 'fragments': pairs(t.fragments_map),
            'names': {n: [ord(ch) for ch in s] for n, s in t.compressed_names.items()},
            'mem8': dict(t.memory_map8), 'mem32': dict(t.memory_map32)}


def snap_notes(t):
    return {'merged': {n: [[x for x in v if isinstance(x, str)],
                           {p: list(r) for x in v if not isinstance(x, str) for p, r in x.items()},
                           sum(1 for x in v if not isinstance(x, str))]
                       for n, v in t.merged_notable_zones.items()},
            'zp': {n: sorted(v) for n, v in t.zones_to_policies.items()}}


def script_of(job):
    zone_processor.SCRIPT.clear()
    for n, s in job.get('script', {}).items():
        zone_processor.SCRIPT[n] = {'sizes': {int(y): (v, v) if isinstance(v, int) else tuple(v) for y, v in s['sizes'].items()},
                                    'default': (s['default'], s['default']), 'terminal': s['terminal']}


def estimate(job, t):
    c = job['cfg']
    script_of(job)
    del zone_processor.LOG[:]
    try:
        BufSizeEstimator(start_year=c['start'], until_year=c['until'],
                         ignore_buf_size_too_large=bool(c.get('ignore', False))).transform(t)
    except Exception as e:
        return err(e)
    return {'ok': True, 'sizes': {n: [v.number, v.year] for n, v in t.buf_sizes.items()}, 'max': t.max_buf_size,
            'order': list(t.buf_sizes), 'minYear': t.estimator_min_year, 'maxYear': t.estimator_max_year}


def infos_given():
    """The zone infos the processors were made from."""
    res = {}
    for e in zone_processor.LOG:
        if e[0] == 'new':
            z = e[1]
            res[z['name']] = [dict({k: v for k, v in er.items() if k != 'zone_policy'},
                                   policy_name='' if er['zone_policy'] is None else er['zone_policy']['name'],
                                   rules=[] if er['zone_policy'] is None else list(er['zone_policy']['rules']))
                              for er in z['eras']]
    return res


def asked():
    res = {}
    for e in zone_processor.LOG:
        if e[0] == 'init':
            res.setdefault(e[1], []).append(e[2])
    return res


def zidb_of(job, t):
    c = job['cfg']
    return create_zone_info_database(
        tz_version=job.get('version', VERSION), tz_files=Extractor.ZONE_FILES, scope=c['scope'], start_year=c['start'],
        until_year=c['until'], until_at_granularity=c['ug'], offset_granularity=c['og'], delta_granularity=c['dg'],
        strict=c['strict'], compress=c.get('compress', True), tresult=t)


def generate(lang, job, zidb, d, invocation=INVOCATION):
    c = job['cfg']
    ns = job.get('ns', NS)
    args = dict(invocation=invocation, db_namespace=ns, compress=c.get('compress', True), generate_tiny_years=c['tiny'],
                tiny_base_year=c['base'], zidb=zidb)
    if lang == 'arduino':
        g = ArduinoGenerator(**args)
    elif lang == 'c':
        g = CGenerator(**args)
    elif lang == 'go':
        g = GoGenerator(invocation=invocation, db_namespace=ns, zidb=zidb)
    elif lang == 'python':
        g = PythonGenerator(invocation=invocation, zidb=zidb)
    elif lang == 'zonelist':
        g = ZoneListGenerator(invocation=invocation, zidb=zidb)
    elif lang == 'json':
        g = JsonGenerator(zidb=zidb, json_file=job.get('json_file', 'zonedb.json'))
    g.generate_files(d)


def digest(b):
    return hashlib.sha256(b).hexdigest()[:24]


def big(v):
    """Numbers of more than 31 bits as two limbs."""
    return [v >> 16, v & 0xffff] if isinstance(v, int) and not isinstance(v, bool) else v


def read_json(path):
    with open(path, encoding='utf-8') as f:
        j = json.load(f)
    for k in ('zone_ids', 'link_ids'):
        j[k] = {n: big(v) for n, v in j[k].items()}
    for n, z in j['zones_map'].items():
        for e in z['eras']:
            for k, v in list(e.items()):
                e[k] = '' if v is None else v
            e['raw_line'] = e['raw_line'].split()
    for n, p in j['policies_map'].items():
        for r in p['rules']:
            for k, v in list(r.items()):
                r[k] = '' if v is None else v
            r['raw_line'] = r['raw_line'].split()
    return dict(j, ok=True)


def read_zonelist(path):
    lines = open(path, encoding='utf-8').read().split('\n')
    return {'ok': True, 'names': [x for x in lines if x and not x.startswith('#')],
            'count': [int(x.split(':')[1]) for x in lines if x.startswith('# numZones:')]}


def read_files(lang, job, d, names):
    """What the files of a language say."""
    c = job['cfg']
    files = sorted(os.listdir(d))
    g = {'ok': True, 'files': files}
    if job.get('digest'):
        g['sha'] = {f: digest(open(os.path.join(d, f), 'rb').read()) for f in files}
        if job['digest'] == 'bytes':
            return g
    try:
        if lang in ('arduino', 'c', 'go', 'python'):
            g['notes'], g['heads'], g['counts'] = {}, {}, {}
            for f in files:
                p = os.path.join(d, f)
                n = decode.notes(p)
                if n:
                    g['notes'][f] = n
                g['heads'][f] = decode.header(p)
                g['counts'][f] = decode.counts(p)
            if 'labels' in job['want']:
                all_ = [decode.labels(os.path.join(d, f), names) for f in files]
                g['heads4'] = [h for x in all_ for h in x[0] if h[4] or h[2] or h[3]]
                g['marks'] = [m for x in all_ for m in x[1]]
    except ValueError as e:
        g['notes'] = {}
        g['badnotes'] = str(e)
    if lang == 'arduino':
        g['db'] = decode.cxx(d, c['scope'], job.get('ns', NS), names)
    elif lang == 'c':
        g['db'] = decode.c(d, job.get('ns', NS), names)
    elif lang == 'go':
        g['db'] = decode.go(d)
    elif lang == 'python':
        g['db'] = decode.python(d, names)
    elif lang == 'json':
        try:
            g['db'] = read_json(os.path.join(d, job.get('json_file', 'zonedb.json')))
        except Exception as e:
            g['db'] = err(e)
    elif lang == 'zonelist':
        g['db'] = read_zonelist(os.path.join(d, 'zones.txt'))
    if job.get('digest'):
        g['content'] = digest(json.dumps([g.pop(x, None) for x in ('db', 'notes', 'badnotes', 'heads', 'counts')],
                                         sort_keys=True).encode())
    return g


def sweep_out(scratch):
    for x in os.listdir(scratch):
        if x.startswith(('out-', 'vfpy')):
            shutil.rmtree(os.path.join(scratch, x))


def outputs(job, t, out, scratch, langs):
    names = (sorted(t.zones_map), sorted(t.links_map), sorted(t.policies_map))
    try:
        zidb = zidb_of(job, t)
    except Exception as e:
        out['zidb'] = err(e)
        return
    out['gen'] = {}
    for lang in langs:
        d = os.path.join(scratch, 'out-' + lang, 'db')
        os.makedirs(d)
        try:
            try:
                generate(lang, job, zidb, d)
            except Exception as e:
                out['gen'][lang] = err(e)
                continue
            out['gen'][lang] = read_files(lang, job, d, names)
        finally:
            sweep_out(scratch)


# ---- the same through the command line ----------------------------------------
SCRIPT = os.path.abspath(tzcompiler.__file__)
DEFAULTS = {'basic': (60, 60, 900), 'extended': (60, 60, 900), 'complete': (1, 1, 60)}


def arguments(job, scratch, estimated, languages, actions, odir):
    """The command line that asks for the compile of a job."""
    c = job['cfg']
    a = ['--actions', ','.join(actions), '--languages', ','.join(languages), '--input_dir', 'in',
         '--output_dir', odir, '--scope', c['scope'], '--start_year', str(c['start']), '--until_year', str(c['until']),
         '--tz_version', job.get('version', VERSION), '--db_namespace', job.get('ns', NS)]
    given = (c['ug'], c['og'], c['dg'])
    if len(set(given)) == 1:
        a += ['--granularity', str(c['ug'])]
    else:
        for n, v, w in zip(('until_at', 'offset', 'delta'), given, DEFAULTS[c['scope']]):
            if v != w:
                a += ['--%s_granularity' % n, str(v)]
    a += [] if c['strict'] else ['--nostrict']
    a += [] if c.get('compress', True) else ['--nocompress']
    a += [] if c['base'] == 2100 else ['--tiny_base_year', str(c['base'])]
    a += ['--ignore_buf_size_too_large'] if c.get('ignore') else []
    a += [] if estimated else ['--skip_bufestimator']
    if 'json_file' in job:
        a += ['--json_file', job['json_file']]
    if c['include']:
        with open(os.path.join(scratch, 'include.txt'), 'w', encoding='utf-8') as f:
            f.write('# wanted\n\n' + '\n'.join(c['include']) + '\n')
        a += ['--include_list', 'include.txt']
    return a


class Heard(logging.Handler):
    """Keeps what a run logs."""

    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, r):
        try:
            self.lines.append(r.getMessage())
        except Exception as e:
            self.lines.append('unreadable: %s' % e)


def execute(argv, scratch, heard=None):
    """Run the script; None when it ends with success."""
    was, sys.argv = sys.argv, [SCRIPT] + argv
    home = os.getcwd()
    os.chdir(scratch)
    root = logging.getLogger()
    level = root.level
    if heard is not None:
        root.addHandler(heard)
        root.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
    try:
        with open(os.devnull, 'w') as sink, contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            runpy.run_path(SCRIPT, run_name='__main__')
    except SystemExit as e:
        return None if e.code in (0, None) else 'exit status %s' % e.code
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv = was
        os.chdir(home)
        if heard is not None:
            logging.disable(logging.CRITICAL)
            root.removeHandler(heard)
            root.setLevel(level)
    return None


def command(job, direct, scratch):
    """What a command line makes of a job, in the form of a recording.  When
    the stages one by one refuse it too, nothing new is known."""
    want = job['want']
    langs = [w[4:] for w in want if w.startswith('gen:')]
    estimated = 'buf' in want or bool(langs)
    need = {'arduino': 'arduino' in langs, 'c': 'c' in langs, 'go': 'go' in langs or 'go' in want, 'python': 'python' in langs}
    if 'ar' in want and not need['arduino'] and not need['c']:
        need['c' if job['cfg']['scope'] == 'complete' else 'arduino'] = True
    first = [x for x in need if need[x]] or ['python']
    # all at once or one by one; C and Arduino files share names
    apart = int(digest(job['id'].encode())[:4], 16)
    whole = [x for x in first if x != 'c' or 'arduino' not in first]
    runs = [[x] for x in first] if apart % 2 else [whole] if whole == first else [whole, ['c']]
    chosen = apart // 2 % len(runs)
    if 'json' in langs and whole not in runs:
        runs.append(whole)
    out = {'id': job['id'], 'ext': direct['ext'], 'gen': {}}
    refused = not direct['ext']['ok'] or any(not direct.get(x, {'ok': True})['ok'] for x in ('tr', 'buf', 'notes', 'ar', 'go', 'zidb'))
    refused = refused or any(not g['ok'] for g in direct.get('gen', {}).values())
    logging.getLogger().addHandler(logging.NullHandler())
    script_of(job)
    try:
        for i, ls in enumerate(runs):
            d = os.path.join(scratch, 'out-%d' % i, 'db')
            os.makedirs(d)
            del zone_processor.LOG[:]
            heard = Heard() if 'log' in want else None
            e = execute(arguments(job, scratch, estimated, ls, ['zonedb', 'json', 'zonelist'], 'out-%d/db' % i), scratch, heard)
            if heard is not None:
                out.setdefault('log', []).append(decode.log(heard.lines))
            if e is not None:
                return direct if refused else {'id': job['id'], 'ext': direct['ext'], 'tr': {'ok': False, 'err': e}}
            j = os.path.join(d, job.get('json_file', 'zonedb.json'))
            with open(j, encoding='utf-8') as f:
                t = types.SimpleNamespace(**json.load(f))
            if i == chosen:
                out['tr'] = dict(record.snap_tr(t, job['cfg']['tiny'], 'labels' in want), ok=True)
                if 'buf' in want:
                    out['buf'] = {'ok': True, 'sizes': {n: list(v) for n, v in t.buf_sizes.items()}, 'max': t.max_buf_size,
                                  'order': list(t.buf_sizes), 'minYear': t.estimator_min_year, 'maxYear': t.estimator_max_year}
                    out['asked'] = asked()
                    out['given'] = infos_given()
                out['notes'] = dict(snap_notes(t), ok=True)
            if 'arduino' in ls or 'c' in ls:
                out['ar'] = snap_ar(t, job['cfg']['scope'] != 'complete')
            if 'go' in ls:
                out['go'] = {'ok': True, 'mem': dict(t.go_memory_map)}
            names = (sorted(t.zones_map), sorted(t.links_map), sorted(t.policies_map))
            # each language by itself
            for lang in langs:
                mine = [f for f in sorted(os.listdir(d)) if language_of(f, ls, j) == lang]
                if lang not in out['gen'] and (ls == whole if lang == 'json' else i == chosen if lang == 'zonelist' else lang in ls):
                    o = os.path.join(scratch, 'out-' + lang, 'db')
                    os.makedirs(o)
                    for f in mine:
                        shutil.copy(os.path.join(d, f), o)
                    out['gen'][lang] = read_files(lang, job, o, names)
    finally:
        sweep_out(scratch)
    return out


def language_of(f, langs, json_file):
    if f == os.path.basename(json_file):
        return 'json'
    if f == 'zones.txt':
        return 'zonelist'
    for lang, ends in (('go', ('.go',)), ('python', ('.py',)), ('arduino', ('.cpp', '.h')), ('c', ('.c', '.h'))):
        if lang in langs and f.endswith(ends):
            return lang
    return ''


def run(job, ex, out, scratch):
    c = job['cfg']
    want = job['want']
    policies, zones, links = ex.get_data()
    t = record.new_result(policies, zones, links)
    try:
        record.transformer(c).transform(t)
    except Exception as e:
        out['tr'] = err(e)
        return out
    out['tr'] = dict(record.snap_tr(t, c['tiny'], 'labels' in want), ok=True)
    rest = [w for w in want if w not in ('ext', 'tr')]
    if not rest:
        return out
    langs = [w[4:] for w in want if w.startswith('gen:')]
    if 'buf' in want or langs:
        b = estimate(job, t)
        if 'buf' in want:
            out['buf'] = b
            out['asked'] = asked()
            out['given'] = infos_given()
        if not b['ok']:
            return out
    try:
        Commenter().transform(t)
        out['notes'] = dict(snap_notes(t), ok=True)
    except Exception as e:
        out['notes'] = err(e)
        return out
    if 'ar' in want or 'arduino' in langs or 'c' in langs:
        try:
            ArduinoTransformer(c['scope'], c.get('compress', True),
                               'high' if c['scope'] == 'complete' else 'low').transform(t)
            out['ar'] = snap_ar(t, c['scope'] != 'complete')
        except Exception as e:
            out['ar'] = err(e)
            langs = [x for x in langs if x not in ('arduino', 'c')]
    if 'go' in want or 'go' in langs:
        try:
            GoTransformer().transform(t)
            out['go'] = {'ok': True, 'mem': dict(t.go_memory_map)}
        except Exception as e:
            out['go'] = err(e)
            langs = [x for x in langs if x != 'go']
    if langs:
        outputs(job, t, out, scratch, langs)
    return out
