"""Recorder.  Runs under the repository's own interpreter with /repo/src on
PYTHONPATH, drives the real classes through their public entry points and
writes one JSON line per case.  Nothing here interprets results.

usage: record.py JOBS.ndjson OUT.ndjson
"""
import inspect
import json
import logging
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']

from acetimetools.extractor.extractor import Extractor  # noqa: E402
from acetimetools.transformer.transformer import Transformer  # noqa: E402
from acetimetools.datatypes import attyping  # noqa: E402
from acetimetools.datatypes.attyping import TransformerResult  # noqa: E402


YEARS = ('original_min_year', 'original_max_year', 'generated_min_year', 'generated_max_year',
         'max_buf_size', 'estimator_min_year', 'estimator_max_year')


def new_result(policies, zones, links):
    """What tzcompiler.py hands to the first stage."""
    given = {n: 0 for n in YEARS}
    given.update(zones_map=zones, policies_map=policies, links_map=links,
                 lower_truncated=False, upper_truncated=False,
                 start_year_accurate=attyping.MIN_YEAR,
                 until_year_accurate=attyping.MAX_UNTIL_YEAR)
    names = inspect.signature(TransformerResult).parameters.values()
    return TransformerResult(**{
        p.name: given[p.name] if p.name in given else {} for p in names
        if p.name in given or p.default is p.empty or not p.default})


RULE_RAW = ('from_year', 'to_year', 'in_month', 'on_day', 'at_time',
            'at_time_suffix', 'delta_offset', 'letter')
ERA_RAW = ('offset_string', 'rules', 'format', 'until_year',
           'until_year_only', 'until_month', 'until_day_string', 'until_time',
           'until_time_suffix')
RULE_OUT = ('from_year', 'to_year', 'in_month', 'on_day_of_week',
            'on_day_of_month', 'at_seconds', 'at_seconds_truncated',
            'at_time_suffix', 'delta_seconds', 'delta_seconds_truncated',
            'letter')
ERA_OUT = ('offset_seconds', 'offset_seconds_truncated', 'policy_name',
           'era_delta_seconds', 'era_delta_seconds_truncated', 'format',
           'format_short', 'until_year', 'until_month', 'until_day',
           'until_seconds', 'until_seconds_truncated', 'until_time_suffix')


def pick(d, keys, raw=False):
    r = {'raw': d['raw_line'].split()} if raw else {}
    for k in keys:
        v = d[k]
        r[k] = '' if v is None else v
    return r


def snap_ext(ex, raw=False):
    policies, zones, links = ex.get_data()
    return {
        'policies': {n: [pick(r, RULE_RAW, raw) for r in p['rules']]
                     for n, p in policies.items()},
        'zones': {n: [pick(e, ERA_RAW, raw) for e in z['eras']]
                  for n, z in zones.items()},
        'links': dict(links),
        'order': {'policies': list(policies), 'zones': list(zones),
                  'links': list(links)},
        'invalid': [ex.invalid_rule_lines, ex.invalid_zone_lines,
                    ex.invalid_link_lines],
        'ignored': [ex.ignored_rule_lines, ex.ignored_zone_lines,
                    ex.ignored_link_lines],
    }


def limbs(ids):
    return {n: [v >> 16, v & 0xffff] for n, v in ids.items()}


def snap_tr(t, tiny, raw=False):
    rk = RULE_OUT + (('from_year_tiny', 'to_year_tiny') if tiny else ())
    ek = ERA_OUT + (('until_year_tiny',) if tiny else ())
    return {
        'policies': {n: {'rules': [dict(pick(r, rk, raw),
                                        anchor=bool(r.get('anchor', False)))
                                   for r in p['rules']],
                         'lower': bool(p['lower_rule_truncated']),
                         'upper': bool(p['upper_rule_truncated'])}
                     for n, p in t.policies_map.items()},
        'zones': {n: {'eras': [pick(e, ek, raw) for e in z['eras']],
                      'lowerEra': bool(z['lower_era_truncated']),
                      'upperEra': bool(z['upper_era_truncated']),
                      'lower': bool(z['lower_zone_truncated']),
                      'upper': bool(z['upper_zone_truncated'])}
                  for n, z in t.zones_map.items()},
        'links': dict(t.links_map),
        'zone_ids': limbs(t.zone_ids), 'link_ids': limbs(t.link_ids),
        'zone_id_order': list(t.zone_ids), 'link_id_order': list(t.link_ids),
        'remZ': {k: sorted(v) for k, v in t.removed_zones.items()},
        'remP': {k: sorted(v) for k, v in t.removed_policies.items()},
        'remL': {k: sorted(v) for k, v in t.removed_links.items()},
        'noteZ': {k: sorted(v) for k, v in t.notable_zones.items()},
        'noteP': {k: sorted(v) for k, v in t.notable_policies.items()},
        'noteL': {k: sorted(v) for k, v in t.notable_links.items()},
        'origMin': t.original_min_year, 'origMax': t.original_max_year,
        'genMin': t.generated_min_year, 'genMax': t.generated_max_year,
        'lower': bool(t.lower_truncated), 'upper': bool(t.upper_truncated),
        'startAcc': t.start_year_accurate, 'untilAcc': t.until_year_accurate,
    }


def write_files(job, d):
    os.makedirs(d, exist_ok=True)
    nl = job.get('nl', '\n')
    for f in FILES:
        lines = job['files'].get(f, [])
        with open(os.path.join(d, f), 'w', encoding='utf-8', newline='') as h:
            h.write(nl.join(lines))
            if lines and not job.get('noeol'):
                h.write(nl)


def transformer(c):
    return Transformer(
        scope=c['scope'], start_year=c['start'], until_year=c['until'],
        until_at_granularity=c['ug'], offset_granularity=c['og'],
        delta_granularity=c['dg'], strict=c['strict'],
        generate_tiny_years=c['tiny'], tiny_base_year=c['base'],
        include_list=set(c['include']))


def run_case(job, scratch):
    out = {'id': job['id']}
    d = os.path.join(scratch, 'in')
    write_files(job, d)
    want = job['want']
    try:
        ex = Extractor(d)
        ex.parse()
        if 'ext' in want:
            out['ext'] = dict(snap_ext(ex, 'labels' in want), ok=True)
    except Exception as e:
        out['ext'] = {'ok': False, 'err': '%s: %s' % (type(e).__name__, e)}
        return out
    if 'tr' not in want:
        return out
    import stages
    return stages.run(job, ex, out, scratch)


SHAPE = (KeyError, AttributeError, TypeError, IndexError, ValueError, FileNotFoundError)


def unreadable(job, e):
    """A result in which something that belongs there is missing."""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return {'id': job['id'], 'crash': '%s: %s (%s:%d)' % (
        type(e).__name__, e, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)}


def main():
    jobs, dst = sys.argv[1:3]
    scratch = tempfile.mkdtemp(prefix='rec')
    try:
        with open(jobs) as f, open(dst, 'w') as o:
            for line in f:
                job = json.loads(line)
                try:
                    r = run_case(job, scratch)
                    if job.get('via') == 'command':
                        import stages
                        r = stages.command(job, r, scratch)
                except SHAPE as e:
                    r = unreadable(job, e)
                o.write(json.dumps(r) + '\n')
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
