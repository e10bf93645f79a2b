"""Generated TZDB sources: systematic sweeps of one field at a time around
plain worlds, and seeded random worlds.  A world is {file: [lines]}."""
import itertools
import os
import random
import re
import zi

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, '..', 'data')

SCOPES = {
    'basic': dict(ug=60, og=60, dg=900, tiny=True),
    'extended': dict(ug=60, og=60, dg=900, tiny=True),
    'complete': dict(ug=1, og=1, dg=60, tiny=False),
}


def cfg(scope, start=2000, until=2100, strict=True, base=2100, include=(),
        **over):
    c = dict(scope=scope, start=start, until=until, strict=strict, base=base,
             include=list(include), **SCOPES[scope])
    c.update(over)
    return c


# The vocabularies.  Each lists ordinary values first, then the edges.
STDOFF = ['0:00', '1:00', '-5:00', '5:30', '-3:30', '5:45', '-0:25:21', '12:45',
          '-4:30:20', '0:07', '0:00:01', '-0:00:01', '0:14:59', '-0:14:59',
          '-0:15', '0:15', '14:00', '-12:00', '25:00', '25:59', '-25:59',
          '26:00', '1', '-1', '-', '1:60', '1:00:60', '1:2:3:4', 'x', '1:',
          '-0:44:30', '4:51:16', '-7:28:22', '9:18:59']
RULES = ['-', 'A', 'B', '1:00', '0:30', '0:20', '-1:00', '-0:30', '2:00',
         '2:45', '2:30', '3:00', '0:00', '1:00:30', '0:15', '0:10', '-1:15',
         '2:07', '2:08', '2:09', '-2:08', '-2:09', '1:0x', 'Q', '26:00']
FORMAT = ['UTC', 'E%sT', 'EST/EDT', '%z', 'LMT', '-03/-02', '+0530', '%s',
          'A%zB', 'x%z', '%zT', '%s%s', 'GMT/BST/X', '%', 'EE%sT']
UNTIL_YEAR = ['', '1999', '2000', '2001', '2005', '1998', '1997', '2100',
              '2101', '2102', '2099', '1950', '2010', '2226', '2227', '1973',
              '1974', '1972', '2300', '32766', '0', '-1', 'x', '2005.5']
UNTIL_DAY = ['Mar 1', 'Mar 31', 'Oct lastSun', 'Mar Sun>=1', 'Nov Sun>=29',
             'Mar Sun<=7', 'Mar Sun<=1', 'Feb lastSun', 'Feb 29', 'Feb 28',
             'Jan Sun<=3', 'Jan Sun<=7', 'Dec Sun>=28', 'Dec Sun>=25',
             'Dec 31', 'Jan 1', 'Feb Sun>=29', 'Feb Mon>=30', 'Apr Fri<=31',
             'Mar Foo>=3', 'Mar lastFoo', 'Mar 0', 'Mar Sun=3', 'Mar x',
             'April 5', 'ma 3', 'Foo 3', 'Jun Thu<=2', 'Dec lastThu',
             'Jan Mon<=1', 'Feb Wed>=23', 'Sept 1', 'jan 5', 'DEC 9']
UNTIL_TIME = ['0:00', '2:00', '2:00s', '1:00u', '24:00', '25:00', '23:59:59',
              '0:20:08', '2:00:30', '12:03:58u', '26:00', '-1:00', '2:00g',
              '2:00z', '2:00w', '2:00q', '0', '7', '24:00s', '2:15', '2:07',
              '0:01', '0:14', '2:61', '2', '25:59:59', '0:00:59']
TO = ['only', 'max', '2005', '2000', '1999', '1998', '1997', '2100', '2101',
      '2102', '1990', '1951', '1950', '1949', '2226', '2225', '2227', '1973',
      '1974', '2009', '2010', '2011', 'x']
FROM = ['2000', '1999', '1998', '1997', '2001', '1990', '1950', '1951', '1949',
        '2005', '2010', '2009', '2011', '2100', '2101', '2102', '2099', '2150',
        '1900', '0', '1973', '1974', '2226', 'x']
IN = ['Mar', 'Apr', 'Oct', 'Jan', 'Dec', 'Feb', 'April', 'SEP', 'jul', 'June',
      'Au', 'Foo', 'MAY', 'Nov']
ON = ['1', '15', '31', 'lastSun', 'Sun>=1', 'Sun>=8', 'Fri<=7', 'Sat<=30',
      'lastThu', 'Mon>=15', 'Sun>=23', '29', '30', 'Sun<=1', 'Sun<=2',
      'Sun<=6', 'Sun<=8', 'Sun>=25', 'Sun>=26', 'Sun>=31', 'Tue<=5',
      'Wed>=30', 'Foo>=1', 'lastFoo', '0', 'Sun>=0', 'Sun=1', 'x', 'Fri<=1',
      'Sat>=29', 'Mon<=31']
AT = ['2:00', '0:00', '2:00s', '1:00u', '24:00', '25:00', '2:15', '2:07',
      '23:59:59', '2:00:30', '0:00:01', '26:00', '-1:00', '2:00g', '2:00z',
      '2:00q', '0:00s', '0:00u', '24:00u', '3:00w', '7', '-', 'w', '0:01',
      '25:59', '0:14:59', '2:61', '12:00:14s', '12:00:15s', '0:59u']
SAVE = ['0', '1:00', '0:30', '0:20', '2:00', '-1:00', '0:40', '1:30', '0:20s',
        '2:45', '2:59', '3:00', '-1:15', '-1:14', '-1:01', '1:00:30', '0:07',
        '2:07', '2:08', '-0:30', '0:00', '1', 'x', '-0:15', '0:14:59', '2:59:59',
        '1:00d', '-2:00', '-', '0:15', '2:30']
LETTER = ['S', 'D', '-', 'ST', 'DT', 'GMT', 'M', '~', 'd']


def rule(name, fr='2000', to='max', month='Mar', on='lastSun', at='2:00',
         save='1:00', letter='D'):
    return '\t'.join(['Rule', name, fr, to, '-', month, on, at, save, letter])


def era(off='-5:00', rules='A', fmt='E%sT', until=''):
    return '\t'.join([off, rules, fmt, until]).rstrip()


def zone(name, *eras):
    return ['Zone\t%s\t%s' % (name, eras[0])] + ['\t\t\t' + e for e in eras[1:]]


def link(target, name):
    return 'Link\t%s\t%s' % (target, name)


POLICY_A = [rule('A', '1967', '2006', 'Oct', 'lastSun', '2:00', '0', 'S'),
            rule('A', '1987', '2006', 'Apr', 'Sun>=1', '2:00', '1:00', 'D'),
            rule('A', '2007', 'max', 'Mar', 'Sun>=8', '2:00', '1:00', 'D'),
            rule('A', '2007', 'max', 'Nov', 'Sun>=1', '2:00', '0', 'S')]
POLICY_B = [rule('B', '1979', '1995', 'Sep', 'lastSun', '1:00u', '0', '-'),
            rule('B', '1981', 'max', 'Mar', 'lastSun', '1:00u', '1:00', 'S'),
            rule('B', '1996', 'max', 'Oct', 'lastSun', '1:00u', '0', '-')]


def world(*lines):
    """Spread lines over two files, in order: rules and zones, then links."""
    flat = []

    def add(x):
        if isinstance(x, str):
            flat.append(x)
        else:
            for y in x:
                add(y)
    add(lines)
    links = [x for x in flat if x.startswith('Link')]
    rest = [x for x in flat if not x.startswith('Link')]
    return {'northamerica': rest, 'backward': links}


PLAIN = [zone('America/One', era('-4:56:02', '-', 'LMT', '1883 Nov 18 12:03:58'),
              era('-5:00', 'A', 'E%sT', '1974'), era('-5:00', 'A', 'E%sT')),
         zone('Europe/Two', era('1:00', 'B', 'CE%sT')),
         zone('Etc/UTC', era('0', '-', 'UTC')),
         POLICY_A, POLICY_B, link('America/One', 'US/One'),
         link('Etc/UTC', 'UTC')]


def sweep_worlds(fields=None):
    """(name, world): one field of the zone Test/Zone or of a rule of policy A
    takes each value of its vocabulary."""
    base = [zone('Etc/UTC', era('0', '-', 'UTC')), POLICY_B]

    def ok(f):
        return fields is None or f in fields
    if ok('stdoff'):
        for v in STDOFF:
            yield 'stdoff=' + v, world(
                zone('Test/Zone', era(v, 'B', 'T%sT')), base)
            yield 'stdoff1=' + v, world(
                zone('Test/Zone', era(v, '-', 'TT', '2004'), era('1:00', '-', 'UU')), base)
    if ok('rules'):
        for v in RULES:
            yield 'rules=' + v, world(
                zone('Test/Zone', era('1:00', v, 'TT/UU')), base, POLICY_A)
            yield 'rules1=' + v, world(
                zone('Test/Zone', era('1:00', v, 'TT/UU', '2004'),
                     era('1:00', '-', 'UU')), base, POLICY_A)
    if ok('format'):
        for v in FORMAT:
            for r in ('A', '-', '1:00'):
                yield 'format=%s,%s' % (v, r), world(
                    zone('Test/Zone', era('-2:30', r, v)), base, POLICY_A)
    if ok('until'):
        for v in UNTIL_YEAR:
            yield 'until=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', v),
                     era('2:00', 'B', 'U%sT', '')), base)
            yield 'until1=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', '1970'),
                     era('2:00', 'B', 'U%sT', v), era('3:00', '-', 'VV')), base)
            yield 'until2=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', v)), base)
            yield 'until3=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', v + (' Feb 29 0:00u' if v else '')),
                     era('2:00', 'B', 'U%sT', '2101 Mar lastSun 1:00s'),
                     era('3:00', '-', 'VV')), base)
    if ok('untilday'):
        for v in UNTIL_DAY:
            for y in ('2004', '2005'):
                yield 'untilday=%s %s' % (y, v), world(
                    zone('Test/Zone', era('1:00', '-', 'TT', y + ' ' + v),
                         era('2:00', 'B', 'U%sT')), base)
            yield 'untildayx=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', '2003'),
                     era('2:00', 'B', 'U%sT', '2101 ' + v),
                     era('3:00', '-', 'VV')), base)
    if ok('untiltime'):
        for v in UNTIL_TIME:
            yield 'untiltime=' + v, world(
                zone('Test/Zone', era('1:00', 'B', 'TT/TU', '2004 Aug 3 ' + v),
                     era('2:00', '-', 'UU')), base)
            yield 'untiltime1=' + v, world(
                zone('Test/Zone', era('1:00', '-', 'TT', '2004 Aug 3 ' + v),
                     era('2:00', '-', 'UU', '2004 Aug 3 2:00s'),
                     era('2:00', '-', 'VV')), base)

    def pol(*rules):
        return world(zone('Test/Zone', era('-5:00', 'A', 'E%sT')), base, list(rules))
    std = rule('A', '1967', 'max', 'Oct', 'lastSun', '2:00', '0', 'S')
    if ok('fromto'):
        for f, t in itertools.product(FROM, TO):
            yield 'fromto=%s-%s' % (f, t), pol(std, rule('A', f, t))
        for f, t in itertools.product(FROM, TO):
            if (f, t) == (t, f) or t in ('only', 'max') or hash_pick(f + t, 3):
                yield 'fromto1=%s-%s' % (f, t), pol(
                    rule('A', f, t), rule('A', f, t, 'Sep', '1', '3:00', '0', 'S'))
    if ok('in'):
        for v in IN:
            yield 'in=' + v, pol(std, rule('A', month=v))
    if ok('on'):
        for v, m in itertools.product(ON, ('Jan', 'Feb', 'Apr', 'Dec')):
            yield 'on=%s %s' % (m, v), pol(std, rule('A', month=m, on=v))
    if ok('at'):
        for v in AT:
            yield 'at=' + v, pol(std, rule('A', at=v))
    if ok('save'):
        for v in SAVE:
            yield 'save=' + v, pol(std, rule('A', save=v))
            yield 'save1=' + v, pol(rule('A', '1990', '1995', save=v))
    if ok('letter'):
        for v in LETTER:
            yield 'letter=' + v, pol(std, rule('A', letter=v))
            yield 'letter0=' + v, pol(
                rule('A', '1967', 'max', 'Oct', 'lastSun', '2:00', '0', v), rule('A'))


def hash_pick(s, n):
    h = 0
    for ch in s:
        h = (h * 31 + ord(ch)) % 10007
    return h % n == 0


def odd_worlds():
    """Worlds about names, links, line shapes and record structure."""
    z = zone
    u = zone('Etc/UTC', era('0', '-', 'UTC'))
    yield 'plain', world(*PLAIN)
    yield 'empty', world()
    yield 'onlylinks', world(link('Etc/UTC', 'UTC'))
    yield 'link-missing', world(u, link('Etc/Nowhere', 'X/Y'), link('Etc/UTC', 'Z'))
    yield 'link-link', world(u, link('Etc/UTC', 'A/B'), link('A/B', 'C/D'))
    yield 'link-link-rev', world(u, link('A/B', 'C/D'), link('Etc/UTC', 'A/B'))
    yield 'link-self', world(u, link('A/B', 'A/B'))
    yield 'link-twice', world(u, link('Etc/UTC', 'A/B'), link('Etc/UTC', 'A/B'))
    yield 'link-twice-other', world(u, z('X', era('1', '-', 'X')), link('Etc/UTC', 'A/B'), link('X', 'A/B'))
    yield 'link-is-zone', world(u, z('A/B', era('1', '-', 'X')), link('Etc/UTC', 'A/B'))
    yield 'zone-twice', world(u, z('A/B', era('1', '-', 'X')), z('A/B', era('2', '-', 'Y')))
    yield 'zone-twice-ok', world(u, z('A/B', era('1', '-', 'X', '2005')), POLICY_B, z('A/B', era('2', '-', 'Y')))
    yield 'alike-zones', world(u, z('Etc/GMT-1', era('1', '-', 'X')), z('Etc/GMT_1', era('2', '-', 'Y')))
    yield 'alike-plus', world(u, z('Etc/GMT+1', era('-1', '-', 'X')), z('Etc/GMT_PLUS_1', era('2', '-', 'Y')))
    yield 'alike-not', world(u, z('Etc/GMT+1', era('-1', '-', 'X')), z('Etc/GMT-1', era('1', '-', 'Y')))
    yield 'alike-link', world(u, z('A/B_C', era('-1', '-', 'X')), link('Etc/UTC', 'A/B-C'))
    yield 'alike-links', world(u, link('Etc/UTC', 'A/B-C'), link('Etc/UTC', 'A/B/C'))
    yield 'alike-policies', world(u, z('T', era('1', 'P-1', 'X%sT', '2005'), era('2', 'P_1', 'Y%sT')),
                                  rule('P-1', save='0', letter='-'), rule('P_1', save='0', letter='-'))
    # 33 * ord(a) + ord(b) collide: 'bA' and 'ab' (98*33+65 = 97*33+98)
    yield 'collide', world(u, z('T/bA', era('1', '-', 'X')), z('T/ab', era('2', '-', 'Y')))
    yield 'collide-link', world(u, z('T/bA', era('1', '-', 'X')), link('Etc/UTC', 'T/ab'))
    yield 'collide-links', world(u, link('Etc/UTC', 'T/bA'), link('Etc/UTC', 'T/ab'))
    yield 'missing-policy', world(u, z('T', era('1', 'Nope', 'X')), link('T', 'L'))
    yield 'missing-policy-old', world(u, z('T', era('1', 'Nope', 'X', '1950'), era('2', '-', 'Y')))
    yield 'bad-era-mid', world(u, ['Zone\tT\t1:00\t-\tX\t1999', '\t\t\tbad', '\t\t\t2:00\t-\tY'])
    yield 'bad-era-last', world(u, ['Zone\tT\t1:00\t-\tX\t1999', '\t\t\t2:00\t-'])
    yield 'bad-era-all', world(u, ['Zone\tT\t1:00'])
    yield 'bad-rule', world(u, z('T', era('1', 'A', 'X%sT')), POLICY_A, 'Rule\tA\t2010\tmax\t-\tMar')
    yield 'no-std', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', 'max'), rule('N', '1990', 'max', 'Oct', save='0:30'))
    yield 'one-dst', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', 'only'))
    yield 'one-std', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', 'only', save='0', letter='S'))
    yield 'std-late', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', 'only', letter='W'),
                            rule('N', '2200', 'only', save='0', letter='S'))
    yield 'std-between', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1980', 'only', save='0', letter='X'),
                               rule('N', '1990', 'only', letter='W'),
                               rule('N', '1990', 'only', on='Sun>=1', at='3:00', save='2:00', letter='V'))
    yield 'two-in-month', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', '2005', 'Mar', '1', save='0', letter='S'),
                                rule('N', '2005', '2010', 'Mar', '15', letter='D'))
    yield 'two-in-month-not', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', '2004', 'Mar', '1', save='0', letter='S'),
                                    rule('N', '2005', '2010', 'Mar', '15', letter='D'))
    for f, t in (('1700', 'max'), ('1900', 'max'), ('1900', '2010'), ('1990', '9999'), ('1', 'max')):
        yield 'two-in-month-far%s-%s' % (f, t), world(
            u, z('T', era('1', 'N', 'X%sT')), z('V', era('1', 'M', 'X%sT')), rule('N', f, t, 'Mar', '1', save='0', letter='S'),
            rule('N', '2005', 'only', 'Mar', '15', letter='D'), rule('M', f, t, 'Mar', '1', save='0', letter='S'),
            rule('M', '2005', 'only', 'Apr', '15', letter='D'), rule('M', '2060', 'max', 'Mar', '20', letter='E'))
    yield 'jan1', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', '2005', 'Jan', '1', save='0', letter='S'),
                        rule('N', '1990', '2005', 'Jun', '1'))
    yield 'jan1-sun', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1990', '2005', 'Jan', 'Sun>=1', save='0', letter='S'),
                            rule('N', '1990', '2005', 'Jun', '1'))
    yield 'jan1-old', world(u, z('T', era('1', 'N', 'X%sT')), rule('N', '1950', '1960', 'Jan', '1', save='0', letter='S'),
                            rule('N', '1990', '2005', 'Jun', '1'), rule('N', '1990', '2005', 'Nov', '1', save='0', letter='S'))
    yield 'mono-equal', world(u, z('T', era('1', '-', 'X', '2005 Mar 1'), era('2', '-', 'Y', '2005 Mar 1'), era('3', '-', 'Z')))
    yield 'mono-secs', world(u, z('T', era('1', '-', 'X', '2005 Mar 1 1:00'), era('2', '-', 'Y', '2005 Mar 1 2:00'), era('3', '-', 'Z')))
    yield 'mono-down', world(u, z('T', era('1', '-', 'X', '2005 Mar 1 3:00'), era('2', '-', 'Y', '2005 Mar 1 2:00'), era('3', '-', 'Z')))
    yield 'mono-month', world(u, z('T', era('1', '-', 'X', '2005 Nov 1 3:00'), era('2', '-', 'Y', '2005 Mar 1 2:00'), era('3', '-', 'Z')))
    yield 'mono-day', world(u, z('T', era('1', '-', 'X', '2005 Mar lastSun'), era('2', '-', 'Y', '2005 Mar Sun>=8'), era('3', '-', 'Z')))
    for a, b in (('1:00:10', '1:00:50'), ('1:01', '1:14:59'), ('1:00:50', '1:00:10'), ('1:14', '1:15'), ('0', '0:00:59'), ('23:59', '24:00')):
        yield 'mono-near%s-%s' % (a, b), world(
            u, z('T', era('1', '-', 'X', '2005 Mar 1 ' + a), era('2', 'B', 'Y%sT', '2005 Mar 1 ' + b), era('3', '-', 'Z')), POLICY_B,
            z('V', era('1', 'N', 'X%sT')), rule('N', '1990', 'only', 'Mar', '1', a, save='0', letter='S'), rule('N', '1990', 'only', 'Mar', '1', b))
    # zones of several eras, one of which loses its policy
    for n in (3, 4, 6):
        for lost in ('Gone', 'N', 'M'):
            yield 'lost-policy%s-%d' % (lost, n), world(
                u, *[z('T/%s%d' % (lost, p), *[era(str(i % 5), lost if i == p else 'B' if i % 2 else '-', 'X%sT' if i == p or i % 2 else 'XX', str(1999 + i) if i < n - 1 else '')
                                  for i in range(n)]) for p in range(n)], POLICY_B,
                rule('N', '1990', 'max', 'Mar', '1', save='0', letter='S'), rule('N', '1990', 'max', 'Mar', '15', letter='D'),
                rule('M', '1990', 'max', 'Mar', '1', save='0:00:30', letter='S'), rule('M', '1990', 'max', 'Sep', '15', save='0'),
                link('T/%s0' % lost, 'L/First'), link('T/%s%d' % (lost, n - 1), 'L/Last'))
    # the earliest rule is not the one of the earliest month
    for a, b in (('Mar Fri<=1', 'Feb 28'), ('Oct Sun>=29', 'Nov 1'), ('Mar Sun>=29', 'Apr 2'), ('May Sun<=3', 'May 2'), ('Feb Sun<=2', 'Jan 30')):
        (am, ad), (bm, bd) = a.split(), b.split()
        for i, pair in enumerate((((am, ad, 'S'), (bm, bd, 'T')), ((bm, bd, 'T'), (am, ad, 'S')))):
            for y in ('1990', '1994'):
                yield 'earliest%s-%s-%s%d' % (a, b, y, i), world(u, z('T', era('1', 'N', 'X%sT')), *[
                    rule('N', y, 'only', m, d, '2:00', '0', t) for m, d, t in pair], rule('N', '1995', 'only', 'Jun', '1'))
    yield 'noend', world(u, z('T', era('1', '-', 'X', '2005'), era('2', '-', 'Y', '2050')))
    yield 'gap-now', world(u, z('T', era('1', '-', 'X', '1950'), era('2', '-', 'Y', '1960')))
    yield 'midrule', world(u, z('T', era('1', 'B', 'X%sT', '2005 Jul 1 0:00'), era('2', 'A', 'Y%sT', '2007 Mar 11 2:00'),
                              era('-5', 'A', 'Z%sT')), POLICY_A, POLICY_B)
    yield 'frag', world(u, *[z('Alpha/Beta/Z%d' % i, era('%d' % i, '-', 'X')) for i in range(5)])
    yield 'frag3', world(u, *[z('Alpha/Z%d' % i, era('%d' % i, '-', 'X')) for i in range(3)])
    yield 'frag4', world(u, *[z('Alpha/Z%d' % i, era('%d' % i, '-', 'X')) for i in range(4)])
    yield 'fragshort', world(u, *[z('Abc/Z%d' % i, era('%d' % i, '-', 'X')) for i in range(5)])
    yield 'fragtiny', world(u, *[z('Ab/Z%d' % i, era('%d' % i, '-', 'X')) for i in range(5)])
    # names longer than any in TZDB
    names = ['America/' + 'Abcdefghijklm/' * i + 'Port%d' % i for i in range(1, 9)] + ['X' * 33, 'X' * 64 + 'y', 'Z/' + 'q' * 130]
    yield 'long-names', world(u, *[z(n, era('%d:00' % (i + 1), '-', 'X')) for i, n in enumerate(names)],
                              *[link(n, 'Link/To/' + n) for n in names])
    # the same lines again, under other names
    for i, day in enumerate(('Mar Sun<=1', 'Mar Fri>=29', 'Jan Sun>=30', 'Dec lastSun', 'Mar 1')):
        tail = [era('1:00', '1:00', 'X', '2005 %s 24:00s' % day), era('2:00', 'A', 'Y%sT', '2010 %s' % day), era('3:00', '-', 'Z')]
        yield 'same-lines%d' % i, world(z('A/B', era('0:30', '-', 'V', '2001'), *tail), z('C/D', era('0:30', '-', 'V', '2001'), *tail),
                                        z('E/F', *tail[1:]), POLICY_A, [r.replace('Rule\tA', 'Rule\tD') for r in world(POLICY_A)['northamerica']],
                                        z('G/H', era('2:00', 'D', 'Y%sT', '2010 %s' % day), tail[2]), u)
    # a day in every year
    for i, day in enumerate(('Feb lastSun', 'Mar Sun<=6', 'Mar Sun>=1', 'Jan Sun>=25', 'Dec Sun<=8')):
        yield 'every-year%d' % i, world(z('A/B', *[era('%d:00' % (y % 2), '-', 'X', '%d %s' % (y, day)) for y in range(1897, 2112)],
                                          era('2:00', '-', 'Y')), u)
    # lines that do not fit into a buffer
    for n in (72, 128, 256, 1024, 4096, 8192):
        yield 'long%d' % n, world(u, '#' + 'x' * (n - 1) + 'Rule\tA\t1999\tonly\t-\tMar\t1\t2:00\t1:00\tW', POLICY_A,
                                  ' ' * n + '# Zone\tQ\t1\t-\tX',
                                  ['Zone\tT/Z\t1:00\tA\tX%sT\t2005' + '\t' * n + '# x', '#' + 'y' * (n - 1) + '\t\t\t7:00\t-\tQ\t2007',
                                   '\t\t\t2:00' + ' ' * n + 'A\tY%sT'])
    yield 'fraglink', world(u, *[link('Etc/UTC', 'Alpha/Z%d' % i) for i in range(5)])


def calendar_worlds(rng, n, per=40):
    """(name, world): day expressions of UNTIL and ON in every month of years
    of every kind (leap, common, century)."""
    days = ['last' + w for w in WEEK] * 4
    days += [w + op + str(d) for w in WEEK for op in ('>=', '<=') for d in range(1, 32)]
    years = ['1899', '1900', '1904', '1996', '1999', '2000', '2000', '2001', '2004', '2007', '2096', '2100', '2104']

    def on(m):
        # (what leaves the year is refused, here for the whole world)
        while True:
            d = rng.choice(days)
            if not (m == 'Jan' and '<' in d or m == 'Dec' and '>' in d and int(d[5:]) > 25 or '=' in d and int(d[5:]) > 28):
                return d
    for i in range(n):
        lines = []
        for k in range(per):
            y, m = rng.choice(years), rng.choice(MONTHS)
            if k % 3 == 0:
                y, m = rng.choice(('1900', '2000', '2000', '2004', '2100')), rng.choice(('Feb', 'Mar'))
                d = rng.choice(WEEK) + '<=%d' % rng.randint(1, 6) if m == 'Mar' else 'last' + rng.choice(WEEK)
            elif k % 3 == 1:
                d = 'last' + rng.choice(WEEK)
            else:
                d = on(m) if k % 5 else str(rng.randint(1, 29 if (y, m) in LEAP else 28 if m == 'Feb' else 30))
            lines += zone('C/Z%d' % k, era('1:00', '-', 'X', '%s %s %s %s' % (y, m, d, rng.choice(['', '0:00', '24:00', '23:00u']))),
                          era('2:00', 'P%d' % (k % 4), 'Y%sT'))
        for p in range(4):
            lines.append(rule('P%d' % p, '1890', 'max', 'Apr', '1', '2:00', '0', 'S'))
            for q in range(3):
                f, m = rng.choice(years), rng.choice(MONTHS)
                lines.append(rule('P%d' % p, f, rng.choice(['only', 'max', str(int(f) + 8)]), m,
                                  on(m), '2:00', rng.choice(['1:00', '0']), 'ABC'[q]))
        yield 'calendar%d' % i, world(lines)


WEEK = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
LEAP = {(str(y), 'Feb') for y in (1904, 1996, 2000, 2004, 2096, 2104)}
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')


def rand_world(rng, odd=0.05):
    """A random world; `odd` is how often a field takes an edge value."""
    def pick(voc, n):
        return rng.choice(voc) if rng.random() < odd else rng.choice(voc[:n])
    lines = []
    pols = ['A', 'B', 'C'][:rng.randint(1, 3)]
    for p in pols:
        for _ in range(rng.randint(1, 5)):
            f = rng.choice([1950, 1973, 1980, 1995, 1997, 1998, 1999, 2000, 2001, 2004, 2009, 2010, 2011, 2012, 2099, 2100, 2101])
            t = rng.choice(['only', 'max', str(f + rng.randint(0, 12))])
            lines.append(rule(p, str(f) if rng.random() > odd else rng.choice(FROM),
                              t if rng.random() > odd else rng.choice(TO),
                              rng.choice(['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']),
                              pick(ON, 11), pick(AT, 8), pick(SAVE, 5),
                              pick(LETTER, 4)))
    zones = []
    for i in range(rng.randint(1, 3)):
        n = 'Zone/%s' % 'XYZ'[i]
        y = rng.choice([1930, 1968, 1990, 1996, 1997, 1998, 1999, 2000])
        eras = []
        k = rng.randint(1, 4)
        for j in range(k):
            if j < k - 1:
                form = rng.random()
                until = '%d' % y
                if form > 0.4:
                    until += ' ' + pick(UNTIL_DAY, 13)
                    if form > 0.6:
                        until += ' ' + pick(UNTIL_TIME, 10)
                y += rng.choice([0, 1, 1, 2, 5, 10, 40, 98])
            else:
                until = '' if rng.random() > odd else '2050'
            r = rng.choice(['-', 'A', 'A', 'B', 'C', '1:00', '0:30']) if rng.random() > odd else rng.choice(RULES)
            if r in 'ABC' and r not in pols:
                r = 'A'
            fmt = rng.choice(['X%sT', 'A/B', 'YY', '%z', 'Q%s'] if r in pols else ['TT', '%z', 'A/B', '+03'])
            if rng.random() < odd:
                fmt = rng.choice(FORMAT)
            eras.append(era(pick(STDOFF, 10), r, fmt, until))
        zones += zone(n, *eras)
    links = [link(rng.choice(['Zone/X', 'Zone/Y', 'Zone/Z', 'Etc/UTC']), 'Link/%d' % i)
             for i in range(rng.randint(0, 2))]
    zones += zone('Etc/UTC', era('0', '-', 'UTC'))
    if rng.random() < 0.5:
        lines, zones = zones, lines
    return world(lines, zones, links)


def rand_cfg(rng):
    scope = rng.choice(['basic', 'extended', 'complete', 'complete'])
    start, until = rng.choice([(2000, 2100), (2000, 2010), (1998, 2002), (1980, 2200), (2009, 2010),
                               (1999, 2000), (2010, 2011), (1974, 2050), (2000, 10000), (2001, 2005)])
    c = cfg(scope, start, until, strict=rng.random() < 0.5)
    if rng.random() < 0.3:
        g = rng.choice([1, 30, 60, 300, 900, 1800, 3600])
        c.update(ug=g, og=rng.choice([1, 60, g]), dg=rng.choice([60, 900, g]))
    if rng.random() < 0.2:
        c['base'] = rng.choice([2000, 2100, 2050, 1980])
    return c


def shifted(rng, files, c):
    """The same world and request in other centuries."""
    far = [137, 120, 28] + ([-28, -100, -120, -237, -400, -1000, -1900] if c['scope'] == 'complete' else []) + (
        [] if c['until'] > 2300 else [200, 400, 1000, 5000])
    d = rng.choice(far)
    year = re.compile(r'(?<=[\t ])\d{4}(?=[\t ]|$)')
    moved = {f: [year.sub(lambda m: str(int(m.group(0)) + d), x) if not x.startswith('Link') else x for x in ls] for f, ls in files.items()}
    return moved, dict(c, start=c['start'] + d, until=c['until'] if c['until'] > 2300 else c['until'] + d, base=c['base'] + rng.choice([0, d]))


TZDB_CFGS = [
    ('basic', 2000, 2100), ('basic', 1980, 2200), ('extended', 1980, 2200),
    ('extended', 2000, 2010), ('extended', 1974, 2050), ('complete', 1800, 2100),
    ('complete', 1950, 2000), ('complete', 1943, 1946), ('complete', 2000, 10000),
    ('complete', 2007, 2008)]


def tzdb(name):
    return zi.expand(os.path.join(DATA, name + '.zi'))


def job(id_, files, c, want=('ext', 'tr'), **kw):
    return dict(id=id_, files=files, cfg=c, want=list(want), **kw)


def tzdb_jobs(cfgs=TZDB_CFGS, names=('rearguard', 'main'), strict=(False,), want=('ext', 'tr')):
    for n in names:
        f = tzdb(n)
        for s, a, b in cfgs:
            for st in strict:
                yield job('tzdb-%s-%s-%d-%d%s' % (n, s, a, b, '-strict' if st else ''),
                          f, cfg(s, a, b, strict=st), want)


# ---- encodings, names, tables -----------------------------------------------
UTC = zone('Etc/UTC', era('0', '-', 'UTC'))


def name_worlds():
    """Names that compression has to take apart and put together again."""
    def zs(*names):
        return [zone(n, era(str(i % 12), '-', 'X')) for i, n in enumerate(names)]
    for f in ('Alpha', 'Abcdef', 'Face', 'Bad', 'America', 'Etc', '012345', 'GMT+1', 'GMT-14'):
        for tail in ('abc', '0x', 'Fed', '9', 'A', 'f0', 'n', 'X41', 'Zed/e'):
            names = [f + '/' + tail] + [f + '/Q%d' % i for i in range(5)]
            if tail == 'A':
                names += [f + '/F' + x for x in '0123456789abcdefABCDEFgG']
            yield 'tail:%s/%s' % (f, tail), world(UTC, zs(*names))
    for n in (3, 4, 5, 28, 29, 30, 31, 32, 33):
        names = ['Region%02d/Q%d' % (i, k) for i in range(n) for k in range(4)]
        yield 'fragments:%d' % n, world(UTC, zs(*names))
    deep = ['Alpha/Beta/Gamma/Q%d' % i for i in range(4)] + ['Alpha/Beta', 'Alpha', 'Beta/Alpha/Q', 'Beta/Alpha/Alpha',
                                                             'Gamma/Beta/Alpha', 'Alpha/Alpha/Alpha/Alpha', 'BetaAlpha/x']
    yield 'deep', world(UTC, zs(*deep))
    yield 'deep-links', world(UTC, [link('Etc/UTC', n) for n in deep])
    yield 'prefixes', world(UTC, zs(*['Amer/Q1', 'America/Q1', 'America/Q2', 'Americas/Q1', 'America/America',
                                      'XAmerica/Q', 'America/Q3', 'America/Q4', 'America/XAmerica/Q', 'Q/America']))
    w = 'Argentina_North_Dakotaland'
    yield 'growing', world(UTC, zs(*['%s/Q%d' % (w[:n], k) for n in range(3, 26) for k in range(4 if n % 3 else 1)]))
    yield 'growing-long', world(UTC, zs(*['%s/Q%d' % ('Q' * n, k) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65) for k in range(4)]))
    yield 'cases', world(UTC, zs(*['%s/Q%d' % (w, k) for w in ('Alpha', 'ALPHA', 'AlphA', 'Alpha_', 'Alphaa', 'Alph') for k in range(4)]))
    yield 'ends', world(UTC, zs(*['Alpha/Q%d' % i for i in range(4)] + ['Alpha', 'Q/Alpha', 'Alpha_1', 'Q/Alpha/Q']))
    yield 'half', world(UTC, zs('Alpha/Z1', 'Alpha/Z2'), [link('Alpha/Z1', 'Alpha/Z3'), link('Alpha/Z1', 'Alpha/Z4')])
    yield 'long', world(UTC, zs(*['L%s/%s' % ('o' * 60, 'n' * k) for k in range(1, 7)]))


def letters_world(n, width=3, per=200):
    """n different letters over policies of at most `per` rules."""
    letters = [('%0*X' % (width, i)).translate(str.maketrans('0123456789ABCDEF', 'abcdefghijklmnop')) for i in range(n)]
    lines = list(UTC)
    for p in range(0, n, per):
        name = 'P%d' % p
        lines += zone('T/Z%d' % p, era('1', name, 'X%sT'))
        for i, lt in enumerate(letters[p:p + per]):
            lines.append(rule(name, str(1900 + i), 'only', 'Mar', '1', '2:00', '1:00' if i % 2 else '0', lt))
        lines.append(rule(name, '1901', 'max', 'Oct', '1', '2:00', '0', letters[p]))
    return world(lines)


def big_worlds():
    """Around the sizes of the index types."""
    for n in (83, 84, 85, 86, 126, 127, 128, 253, 254, 255, 256, 257):
        yield 'letters:%d' % n, letters_world(n)
    for n, w in ((60, 4), (63, 4), (64, 4), (120, 2), (127, 2), (128, 2)):
        yield 'letters:%d,%d' % (n, w), letters_world(n, w)
    for n in (252, 253, 254, 255, 256, 257):
        yield 'rules:%d' % n, world(UTC, zone('T', era('1', 'P', 'X%sT')),
                                    [rule('P', str(1800 + i), 'only', 'Mar', '1', '2:00', '1:00' if i % 2 else '0', 'S')
                                     for i in range(n)])
    for n in (253, 254, 255, 256, 257):
        yield 'eras:%d' % n, world(UTC, zone('T', *[era(str(i % 12), '-', 'X', str(1800 + i)) for i in range(n - 1)]
                                              + [era('1', '-', 'X')]))
    for n in (126, 252, 253, 254, 255, 256, 257):
        yield 'policies:%d' % n, world(UTC, [[zone('T/Z%d' % i, era('1', 'P%d' % i, 'X%sT')),
                                              rule('P%d' % i, '2000', 'max', 'Mar', '1', '2:00', '0', 'S'),
                                              rule('P%d' % i, '2000', 'max', 'Oct', '1', '2:00', '1:00', 'D')]
                                             for i in range(n)])
    for n in (600, 650, 660, 700):
        yield 'names:%d' % n, world(UTC, [link('Etc/UTC', 'N%s/%d' % ('a' * 95, 1000 + i)) for i in range(n)])
    for n in (1300, 4200):
        zs = ['T/%s%d' % ('ZYXWV'[i % 5], i) for i in range(n)]
        yield 'zones:%d' % n, world(UTC, [zone(x, *[era(str(i % 12), 'B' if i % 3 else '-', 'X%sT' if i % 3 else 'X', '19%d' % (80 + i % 15)), era('1', '-', 'X')])
                                          for i, x in enumerate(zs)], POLICY_B, [link(x, 'L/%s' % x) for x in zs[::20]])
    for n in (640, 655, 656, 657, 700):
        yield 'formats:%d' % n, world(UTC, zone('T', era('1', '-', 'X')),
                                      [zone('T/Z%d' % i, era('1', '-', 'F%s%d' % ('a' * 95, 1000 + i))) for i in range(n)])


def huge_worlds(sizes):
    """Around 65535 eras: zones of 1..256 eras each."""
    for n in sizes:
        count = [min(255, n - a) for a in range(0, n, 255)]
        yield 'alleras:%d' % n, world([zone('T/Z%d' % i, *[era('1', '-', 'X', str(1800 + j)) for j in range(m - 1)] + [era('1', '-', 'X')])
                                       for i, m in enumerate(count)])


def crowded_worlds(sizes=(12, 40, 130, 330)):
    """Many rules and eras in a few years."""
    months = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
    for n in sizes:
        yield n, world(UTC, zone('T/Z', era('1', 'P', 'X%sT', '2001'), era('2', 'P', 'X%sT', '2003 Feb 9 2:00'), era('1', 'P', 'X%sT')),
                       zone('T/E', *[era(str(i % 12), 'P' if i % 3 else '-', 'X%sT' if i % 3 else 'X', '2000 %s %d' % (months[i % 330 // 28], i % 28 + 1))
                                     for i in range(min(n, 250))] + [era('1', '-', 'X')]),
                       [rule('P', '1999', '2004', months[i // 28], str(i % 28 + 1), '2:00', '1:00' if i % 2 else '0', 'S') for i in range(n)])


def table_worlds():
    """Worlds whose tables share, repeat or skip what they hold."""
    yield 'plain', world(*PLAIN)
    yield 'no-links', world(*[x for x in PLAIN if not (isinstance(x, str) and x.startswith('Link'))])
    yield 'no-policies', world(UTC, zone('A/B', era('1', '-', 'X', '2005'), era('2', '1:00', 'X/Y', '2006'), era('3', '-', 'Z')),
                               link('A/B', 'C'))
    yield 'policies-alike', world(UTC, [[zone('T/%s' % p, era('1', p, 'X%sT'))] + [r.replace('\tA\t', '\t%s\t' % p) for r in POLICY_A]
                                         for p in ('A', 'AA', 'AB')])
    yield 'zones-alike', world([zone('T/%d' % i, era('1', 'A', 'X%sT', '2005'), era('2', 'B', 'X%sT')) for i in range(4)],
                               POLICY_A, POLICY_B)
    yield 'formats', world([zone('T/%d' % i, era('1', 'A' if '%' in f or '/' in f else '-', f)) for i, f in
                            enumerate(['X', 'XY', 'X/Y', 'X%s', '%sX', 'X%sY', 'X%sX', 'AB/ABC', '%s'])], POLICY_A)
    yield 'letters', world(zone('T/Z', era('1', 'P', 'X%sT')), zone('T/Y', era('1', 'Q', 'X%sT')),
                           [rule('P', str(1995 + i), 'only', letter=x, save='0' if i % 2 else '1:00')
                            for i, x in enumerate(['S', 'D', '-', 'SS', 'DD', 'A', 'DS', 'SD', 'WAT'])],
                           [rule('Q', str(1995 + i), 'only', letter=x, save='0' if i % 2 else '1:00')
                            for i, x in enumerate(['Z', 'D', '-', 'a', 'DD', 'B'])])
    # ids in every order against names; high and low halves
    yield 'ids', world(UTC, [zone(n, era('1', '-', 'X')) for n in
                             ('a', 'b', 'A', 'Z', 'zz', 'zzzz', 'Zone/A', 'Zone/B', 'Zone/C', 'M/N/O', 'Etc/GMT+0', 'Etc/GMT-0',
                              'Etc/GMT0', 'Z_Z', 'W-SU', 'GMT+0')],
                       [link('a', n) for n in ('c', 'B', 'zzz', 'Zone/D', 'Y', 'EST5EDT', 'l', 'zzzzz')])
    yield 'policy-order', world([zone('T/%s' % p, era('1', p, 'X%sT')) for p in ('b', 'A', 'B', 'a', 'Ab', 'aB', 'A-b', 'A_c')],
                                [rule(p, '1990', 'max', m, '1', '2:00', s, x) for i, p in
                                 enumerate(('b', 'A', 'B', 'a', 'Ab', 'aB', 'A-b', 'A_c'))
                                 for m, s, x in (('Mar', '1:00', 'D'), ('Oct', '0', 'S'), ('Nov', '0', 'ST'))[:2 + i % 2]])
    yield 'links-many', world(UTC, zone('A/B', era('1', 'A', 'X%sT')), POLICY_A,
                              [link(t, 'L%d/%s' % (i, t)) for i in range(6) for t in ('A/B', 'Etc/UTC')])
    yield 'negative', world(zone('T/Z', era('-0:25:21', 'N', 'X%sT', '2005'), era('-11:59:59', 'N', 'X%sT', '2007'),
                                 era('-0:00:01', '-', 'X', '2008'), era('15:13:42', '-1:00', 'A/B')),
                            rule('N', '1990', 'max', 'Mar', 'Sun<=7', '25:00', '-1:00', 'D'),
                            rule('N', '1990', 'max', 'Oct', 'lastSat', '23:59:59u', '0', 'S'))
    yield 'notices', world(UTC, zone('T/A', era('1:00:30', 'N', 'X%sT', '2005 Mar 1 2:00:30'), era('2', 'N', 'Y%sT', '2006 Jul 1'),
                                     era('2', 'M', 'Z%sT')),
                           zone('T/B', era('1', 'N', 'X%sT')), zone('T/C', era('26:00', '-', 'X')), zone('T/D', era('1', 'Z', 'X')),
                           zone('T/E', era('1', 'N', 'X%sT', '2001 Mar 3 2:07u'), era('1', '-', 'B', '2003'), era('2', '0:20', 'A/B')),
                           rule('N', '1990', 'max', 'Mar', 'Sun<=3', '2:00:30', '1:00', 'D'),
                           rule('N', '1990', 'max', 'Oct', '1', '2:07', '0', 'S'), rule('N', '2001', '2003', 'Oct', '15', '1:00s', '0:20', 'S'),
                           rule('M', '1990', 'max', 'Mar', '1', '2:07:01', '0:17', 'S'), rule('M', '1990', 'max', 'Jun', '1', '2:00', '0', 'S'),
                           rule('Q', '1990', 'max', 'Jun', '1', '2:00', '0', 'S'), rule('W', '1990', 'max', 'Jun', '1', '27:00', '0', 'S'),
                           zone('T/W', era('1', 'W', 'X%sT')),
                           link('T/C', 'L/C'), link('T/A', 'L/A'), link('Nope', 'L/N'), link('T/W', 'L/W'))


def plain_letters(world):
    """Go files have no room for the character ~ (a marker of theirs)."""
    return not any('~' in x for ls in world.values() for x in ls)
