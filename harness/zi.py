"""Expand the compact tzdata.zi form into the nine TZDB source files."""
import os, re
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']
DAY = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']


def _one(s, names):
    m = [n for n in names if n.lower().startswith(s.lower())]
    assert len(m) == 1, (s, m)
    return m[0]


def month(s):
    return _one(s, MON)


def day(s):
    if s.isdigit():
        return s
    if s.startswith('last'):
        return 'last' + _one(s[4:], DAY)
    m = re.match(r'([A-Za-z]+)([<>]=)(\d+)$', s)
    return _one(m.group(1), DAY) + m.group(2) + m.group(3)


def tm(s, pad=True):
    """Normalise 23s -> 23:00s, -0:16:8 -> -0:16:08, '-' -> 0:00."""
    suf = ''
    if s == '-':
        return '0:00'
    if s[-1].isalpha():
        suf = s[-1]
        s = s[:-1]
    sign = ''
    if s.startswith('-'):
        sign = '-'
        s = s[1:]
    p = s.split(':')
    if len(p) == 1:
        p.append('00')
    p = [p[0]] + ['%02d' % int(x) for x in p[1:]]
    return sign + ':'.join(p) + suf


REGION = {'Africa': 'africa', 'Antarctica': 'antarctica', 'Asia': 'asia',
          'Australia': 'australasia', 'Pacific': 'australasia',
          'Indian': 'asia', 'Europe': 'europe', 'Atlantic': 'europe',
          'Etc': 'etcetera', 'Arctic': 'europe'}
SOUTH = ('America/Argentina', 'America/Sao', 'America/Bogota', 'America/Lima')


def zone_file(name):
    if name.startswith(SOUTH):
        return 'southamerica'
    r = name.split('/')[0]
    if r == 'America':
        return 'northamerica'
    return REGION.get(r, 'etcetera' if '/' not in name else 'northamerica')


def expand(path, keep=None):
    """-> {file: [lines]}; keep: optional predicate on zone/link names."""
    out = {f: [] for f in FILES}
    rules, cur = [], None
    polfile = {}
    body = []
    for ln in open(path):
        ln = ln.rstrip('\n')
        if not ln or ln[0] == '#':
            continue
        t = ln.split()
        if t[0] == 'R':
            to = {'o': 'only', 'ma': 'max'}.get(t[3], t[3])
            rules.append((t[1], '\t'.join(
                ['Rule', t[1], t[2], to, '-', month(t[5]), day(t[6]),
                 tm(t[7]), tm(t[8]), t[9]])))
        elif t[0] == 'Z':
            cur = t[1]
            body.append(('Z', cur, _era(t[2:], polfile, cur)))
        elif t[0] == 'L':
            cur = None
            body.append(('L', t[2], t[1]))
        else:
            body.append(('C', cur, _era(t, polfile, cur)))
    for name, line in rules:
        out[polfile.get(name, 'africa')].append(line)
    for kind, a, b in body:
        if kind == 'L':
            if keep is None or keep(a):
                out['backward'].append('Link\t%s\t%s' % (b, a))
            continue
        if keep is not None and not keep(a):
            continue
        f = zone_file(a)
        if kind == 'Z':
            out[f].append('Zone\t%s\t%s' % (a, b))
        else:
            out[f].append('\t\t\t' + b)
    return out


def _era(t, polfile, zone):
    r = t[1]
    if r != '-' and not r[0].isdigit() and not (r[0] == '-'):
        polfile.setdefault(r, zone_file(zone))
    elif r != '-':
        r = tm(r)
    o = [tm(t[0]), r, t[2]]
    if len(t) > 3:
        o.append(t[3])
    if len(t) > 4:
        o.append(month(t[4]))
    if len(t) > 5:
        o.append(day(t[5]))
    if len(t) > 6:
        o.append(tm(t[6]))
    return '\t'.join(o)


def write(files, d):
    os.makedirs(d, exist_ok=True)
    for f in FILES:
        with open(os.path.join(d, f), 'w') as fh:
            fh.write('\n'.join(files.get(f, [])) + '\n')


if __name__ == '__main__':
    import sys
    write(expand(sys.argv[1]), sys.argv[2])
