"""Read generated files back: compile and run the C and C++ tables, import
the Python modules, parse the Go files and the comments.  Nothing here knows
what the files should contain."""
import importlib
import json
import os
import re
import subprocess
import sys

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'stub')


def symbol(name):
    return ''.join('_PLUS_' if ch == '+' else ch if ch.isascii() and ch.isalnum() else '_' for ch in name)


def cstr(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def compiled(cmd, d):
    p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def run_dump(exe, d):
    p = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=60)
    if p.returncode != 0:
        return {'ok': False, 'err': 'dump ended with %d' % p.returncode}
    try:
        return dict(json.loads(p.stdout.decode('latin-1'), strict=False), ok=True)
    except ValueError as e:
        return {'ok': False, 'err': 'unreadable tables: %s' % e}


def main_source(prefix, names, base, low):
    """`prefix` makes a symbol; names = (zones, links, policies)."""
    zones, links, policies = names
    s = ''.join('  {%s, &%s, %s, %s},\n' % (cstr(n), prefix('Zone' + symbol(n)), prefix('ZoneId' + symbol(n)),
                                         prefix('ZoneBufSize' + symbol(n)) if i < len(zones) else '-1')
                for i, n in enumerate(zones + links))
    src = 'static const InfoSym infos[] = {\n%s  {0, 0, 0, 0}};\n' % s
    s = ''.join('  {%s, &%s},\n' % (cstr(n), prefix('ZonePolicy' + symbol(n))) for n in policies)
    src += 'static const PolSym pols[] = {\n%s  {0, 0}};\n' % s
    src += 'int main(void) {\n  printf("{");\n'
    for key, r in (('registry', 'ZoneRegistry'), ('linkRegistry', 'ZoneAndLinkRegistry')):
        src += '  registry("%s", %s, (int) %s, (int) (sizeof(%s) / sizeof(%s[0])), infos);\n' % (
            key, prefix(r), prefix(r + 'Size'), prefix(r), prefix(r))
    src += '%s  dump(&%s, %s, infos, pols);\n  return 0;\n}\n' % (
        '' if low is None else '  printf("\\"tzver\\":"); str((const char*) %s); printf(",\\n");\n' %
        prefix('TzDatabaseVersion'), prefix('ZoneContext'), base)
    return src


def cxx(d, scope, ns, names):
    low = scope != 'complete'
    src = '#include <zoneinfo/infos.h>\n#include "zone_infos.h"\n#include "zone_policies.h"\n#include "zone_registry.h"\n'
    src += ''.join('typedef ace_time::%s::Zone%s %s;\n' % (scope, t, t.upper())
                   for t in ('Rule', 'Policy', 'Era', 'Info', 'Context'))
    src += '#define %s\n#include "dump.h"\n' % ('LOW' if low else 'HIGH')
    src += main_source(lambda x: 'ace_time::%s::k%s' % (ns, x), names,
                       'ace_time::%s::kZoneContext.baseYear' % ns, low)
    with open(os.path.join(d, 'dump_main.cpp'), 'w') as f:
        f.write(src)
    rc, out = compiled(['g++', '-std=c++11', '-O0', '-w', '-Werror=narrowing', '-Werror=overflow', '-I',
                        os.path.join(STUB, 'cxx'), '-I', STUB, '-I', d, 'zone_infos.cpp', 'zone_policies.cpp',
                        'zone_registry.cpp', 'dump_main.cpp', '-o', 'dump_exe'], d)
    if rc:
        return {'ok': False, 'err': 'does not compile: ' + errors(out)}
    return run_dump(os.path.join(d, 'dump_exe'), d)


def c(d, ns, names):
    src = '#include "zone_infos.h"\n#include "zone_policies.h"\n#include "zone_registry.h"\n'
    src += ''.join('typedef AtcZone%s %s;\n' % (t, t.upper()) for t in ('Rule', 'Policy', 'Era', 'Info', 'Context'))
    src += '#define HIGH\n#include "dump.h"\n'
    src += main_source(lambda x: 'k%s%s' % (ns, x), names, '0', None)
    with open(os.path.join(d, 'dump_main.c'), 'w') as f:
        f.write(src)
    link = os.path.join(os.path.dirname(d), 'zoneinfo')
    if not os.path.exists(link):
        os.symlink(os.path.join(STUB, 'c', 'zoneinfo'), link)
    rc, out = compiled(['gcc', '-std=c11', '-O0', '-w', '-Werror=overflow', '-I', STUB, '-I', d, 'zone_infos.c',
                        'zone_policies.c', 'zone_registry.c', 'dump_main.c', '-o', 'dump_exe'], d)
    if rc:
        return {'ok': False, 'err': 'does not compile: ' + errors(out)}
    return run_dump(os.path.join(d, 'dump_exe'), d)


def errors(out):
    e = [x for x in out.splitlines() if 'error' in x or 'undefined' in x]
    return ' | '.join(e[:3])[:400] or out[:300]


# ---- Go --------------------------------------------------------------------
GO_TOKEN = re.compile(r'''(?P<nl>\n)|(?P<ws>[ \t\r]+)|(?P<comment>//[^\n]*)|(?P<str>"(?:[^"\\\n]|\\.)*")
    |(?P<num>-?(?:0x[0-9a-fA-F]+|\d+))|(?P<id>[A-Za-z_][A-Za-z_0-9.]*)|(?P<op>\[\]|[-+=(){},:&*.])''', re.X)


def go_string(tok):
    """The bytes of an interpreted Go string literal."""
    res, i, s = [], 1, tok
    while i < len(s) - 1:
        ch = s[i]
        if ch != '\\':
            res += list(ch.encode('utf-8'))
            i += 1
            continue
        e = s[i + 1]
        if e == 'x':
            if not re.match(r'[0-9a-fA-F]{2}', s[i + 2:i + 4]):
                raise ValueError('bad escape')
            res.append(int(s[i + 2:i + 4], 16))
            i += 4
        elif e in 'abfnrtv\\"':
            res.append(ord({'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t',
                            'v': '\v', '\\': '\\', '"': '"'}[e]))
            i += 2
        else:
            raise ValueError('escape \\%s' % e)
    return res


class Go:
    """The declarations of one Go file: name -> (type, value)."""

    def __init__(self, text):
        self.t, pos = [], 0
        while pos < len(text):
            m = GO_TOKEN.match(text, pos)
            if not m:
                raise ValueError('not Go: %r' % text[pos:pos + 30])
            if m.lastgroup not in ('ws', 'comment'):
                self.t.append((m.lastgroup, m.group()))
            pos = m.end()
        self.i, self.decl = 0, {}
        self.file()

    def peek(self, skip=True):
        while skip and self.i < len(self.t) and self.t[self.i][0] == 'nl':
            self.i += 1
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def take(self, skip=True):
        x = self.peek(skip)
        self.i += 1
        return x

    def need(self, text):
        x = self.take()
        if x[1] != text:
            raise ValueError('expected %s, got %s' % (text, x[1]))

    def file(self):
        while self.peek()[0] != 'eof':
            kind, w = self.take()
            if w == 'package':
                self.decl['package'] = ('', self.take()[1])
            elif w == 'import':
                self.group()
            elif w == 'func':
                depth = 0
                while True:
                    x = self.take()[1]
                    depth += (x == '{') - (x == '}')
                    if x == '}' and depth == 0:
                        break
                    if x == '':
                        raise ValueError('func')
            elif w in ('const', 'var'):
                if self.peek()[1] == '(':
                    self.take()
                    while self.peek()[1] != ')':
                        self.one(w)
                    self.take()
                else:
                    self.one(w)
            else:
                raise ValueError('unexpected ' + w)

    def group(self):
        if self.take()[1] == '(':
            while self.take()[1] != ')':
                pass

    def one(self, kind):
        name = self.take()[1]
        typ = ''
        if self.peek()[1] != '=':
            typ = self.take()[1]
        self.need('=')
        t, v = self.expr()
        if name in self.decl:
            raise ValueError('declared twice: ' + name)
        self.decl[name] = (typ or t, v)
        if self.peek(False)[0] not in ('nl', 'eof'):
            raise ValueError('junk after ' + name)

    def expr(self):
        kind, w = self.take()
        if kind == 'str':
            v = go_string(w)
            while self.peek(False)[1] == '+':
                self.take()
                k2, w2 = self.take()
                if k2 != 'str':
                    raise ValueError('string expected')
                v += go_string(w2)
            return 'string', v
        if kind == 'num':
            return 'int', int(w, 0)
        if w == '[]':
            typ = '[]' + self.take()[1]
            return typ, self.body()
        if kind == 'id':
            if self.peek(False)[1] == '{':
                return w, self.body()
            return 'ref', w
        if w == '{':
            self.i -= 1
            return '', self.body()
        raise ValueError('expression expected: ' + w)

    def body(self):
        self.need('{')
        items, keyed = [], {}
        while self.peek()[1] != '}':
            k, v = self.expr()
            if self.peek(False)[1] == ':':
                self.take()
                if v in keyed:
                    raise ValueError('field twice: %s' % v)
                keyed[v] = self.expr()[1]
            else:
                items.append(v)
            if self.peek(False)[1] == ',':
                self.take()
            elif self.peek(False)[1] != '}':
                raise ValueError('comma expected')
        self.take()
        if keyed and items:
            raise ValueError('mixed literal')
        return keyed if keyed else items


GO_FILES = ('zone_policies.go', 'zone_policies_test.go', 'zone_infos.go', 'zone_infos_test.go',
            'zone_registry.go', 'zone_registry_test.go')


def text(v):
    return ''.join(chr(b) for b in v) if all(32 <= b < 127 for b in v) else v


def limbs(v):
    return [v >> 16, v & 0xffff]


def go(d):
    decl = {}
    try:
        for f in GO_FILES:
            with open(os.path.join(d, f), encoding='utf-8') as h:
                g = Go(h.read())
            pkg = g.decl.pop('package')[1]
            if decl.setdefault('package', pkg) != pkg:
                raise ValueError('packages differ')
            for k, v in g.decl.items():
                if k in decl:
                    raise ValueError('declared twice: ' + k)
                decl[k] = v
        Go(open(os.path.join(d, 'reader_test.go')).read())
        fmt = subprocess.run(['gofmt', '-e', '-l'] + [os.path.join(d, f) for f in GO_FILES], stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        if fmt.returncode:
            raise ValueError(fmt.stderr.decode()[:300])
        val = {k: v[1] for k, v in decl.items() if k != 'package'}
        out = {'ok': True, 'package': decl['package'],
               'ids': {k[len('ZoneID'):]: limbs(v) for k, v in val.items() if k.startswith('ZoneID')},
               'indexes': {k[len('ZoneInfoIndex'):]: v for k, v in val.items() if k.startswith('ZoneInfoIndex')},
               'version': text(val['TzDatabaseVersion'])}
        for k in ('LetterData', 'FormatData', 'NameData'):
            out[k] = text(val[k])
        for k in ('ZoneRulesData', 'ZonePoliciesData', 'ZoneErasData', 'ZoneInfosData', 'LetterOffsets',
                  'FormatOffsets', 'NameOffsets'):
            out[k] = val[k]
        out['types'] = {k: decl[k][0] for k in ('LetterOffsets', 'FormatOffsets', 'NameOffsets')}
        for k in ('Rule', 'Policy', 'Era', 'Info'):
            out['Zone%sCount' % k] = val['Zone%sCount' % k]
            out['Zone%sChunkSize' % k] = val['Zone%sChunkSize' % k]
            out['Zone%sRecords' % k] = val['Zone%sRecords' % k]
        for r in out['ZoneInfoRecords']:
            r['ZoneID'] = limbs(r['ZoneID'])
        for k in ('DataContext', 'RecordContext'):
            out[k] = val[k]
        return out
    except (ValueError, KeyError, OSError, IndexError, TypeError) as e:
        return {'ok': False, 'err': '%s: %s' % (type(e).__name__, e)}


# ---- Python ----------------------------------------------------------------
_seq = [0]


def python(d, names):
    """Import the package in directory d (its parent holds typing.py)."""
    zones, links, policies = names
    _seq[0] += 1
    top = 'vfpy%d_%d' % (os.getpid(), _seq[0])
    root = os.path.dirname(os.path.dirname(d))
    os.rename(os.path.dirname(d), os.path.join(root, top))
    d = os.path.join(root, top, os.path.basename(d))
    with open(os.path.join(root, top, 'typing.py'), 'w') as f:
        f.write('from typing import Any, Dict\n' + ''.join(
            '%s = Dict[str, Any]\n' % x for x in ('ZoneRule', 'ZonePolicy', 'ZoneEra', 'ZoneInfo', 'ZonePolicyMap',
                                                'ZoneInfoMap')))
    for p in (os.path.join(root, top), d):
        open(os.path.join(p, '__init__.py'), 'w').close()
    sys.path.insert(0, root)
    base = '%s.%s' % (top, os.path.basename(d))
    try:
        pol = importlib.import_module(base + '.zone_policies')
        inf = importlib.import_module(base + '.zone_infos')
        reg = importlib.import_module(base + '.zone_registry')
        pname = {id(getattr(pol, 'ZONE_POLICY_' + symbol(n))): n for n in policies}
        iname = {id(getattr(inf, 'ZONE_INFO_' + symbol(n))): n for n in zones + links}

        def era(e):
            e = dict(e)
            p = e.pop('zone_policy')
            e['policy_name'] = '' if p is None else pname.get(id(p), '?')
            return e

        def info(n):
            z = dict(getattr(inf, 'ZONE_INFO_' + symbol(n)))
            t = z.get('link_to')
            return {'name': z['name'], 'eras': [era(e) for e in z['eras']],
                    'target': '' if t is None else iname.get(id(t), '?'),
                    'keys': sorted(z), 'shared': t is not None and t['eras'] is z['eras']}
        out = {'ok': True,
               'policies': {n: {'name': getattr(pol, 'ZONE_POLICY_' + symbol(n))['name'],
                                'rules': list(getattr(pol, 'ZONE_POLICY_' + symbol(n))['rules'])} for n in policies},
               'infos': {n: info(n) for n in zones + links},
               'registry': [[k, iname.get(id(v), '?')] for k, v in reg.ZONE_REGISTRY.items()],
               'linkRegistry': [[k, iname.get(id(v), '?')] for k, v in reg.ZONE_AND_LINK_REGISTRY.items()],
               'extra': sorted([x for m in (pol, inf) for x in vars(m)
                                if x.startswith(('ZONE_POLICY_', 'ZONE_INFO_'))]),
               'context': {'start': inf.START_YEAR, 'until': inf.UNTIL_YEAR, 'startAcc': inf.START_YEAR_ACCURATE,
                           'untilAcc': inf.UNTIL_YEAR_ACCURATE, 'version': inf.TZDB_VERSION}}
        out['extra'] = sorted(set(out['extra']))
        json.dumps(out)
        return out
    except Exception as e:
        return {'ok': False, 'err': '%s: %s' % (type(e).__name__, e)}
    finally:
        sys.path.remove(root)
        for k in [k for k in sys.modules if k == top or k.startswith(top + '.')]:
            del sys.modules[k]
        importlib.invalidate_caches()


# ---- comments --------------------------------------------------------------
TITLE = re.compile(r'(Unsupported|Unsuported|Notable) (zones|links|policies|zone policies): (\d+)$')


def uncomment(line):
    m = re.match(r'(?://|#)( ?)(.*)$', line)
    return m.group(2) if m else None


def notes(path):
    """The removal and notice sections of a file: {kind: {count, items}}.
    An item is [name, [reasons], {policy: [reasons]}]."""
    sections, cur, state = {}, None, ''
    for line in open(path, encoding='utf-8').read().split('\n'):
        t = uncomment(line)
        if t is None:
            if line.strip() and state == 'body':
                cur, state = None, ''
            continue
        m = TITLE.match(t.strip())
        if m:
            kind = ('removed ' if m.group(1).startswith('Unsup') else 'noted ') + m.group(2).split()[-1]
            cur = {'count': int(m.group(3)), 'lines': []}
            sections.setdefault(kind, []).append(cur)
            state = 'title'
        elif re.match(r'-{20,}$', t.strip()):
            state = 'body' if state == 'title' else ''
            if state == '':
                cur = None
        elif state == 'body' and cur is not None and t.strip():
            cur['lines'].append(t)
    out = {}
    for kind, secs in sections.items():
        if len(secs) != 1:
            raise ValueError('section %s occurs %d times' % (kind, len(secs)))
        out[kind] = {'count': secs[0]['count'], 'items': items(secs[0]['lines'])}
    return out


def items(lines):
    """Parse `Name {reason}` and nested `Name {` ... `}` blocks."""
    i = 0

    def level(s):
        return len(s) - len(s.lstrip(' '))

    def block(ind):
        nonlocal i
        res = []
        while i < len(lines) and level(lines[i]) == ind and lines[i].strip() != '}':
            s = lines[i].strip()
            m = re.match(r'(\S+) \{(.*)\}$', s)
            if m:
                res.append([m.group(1), [m.group(2)], {}])
                i += 1
            elif re.match(r'(\S+) \{$', s):
                name = s[:-2]
                i += 1
                reasons, subs = [], {}
                while i < len(lines) and lines[i].strip() != '}':
                    if level(lines[i]) <= ind:
                        raise ValueError('indentation')
                    s2 = lines[i].strip()
                    if s2.endswith(','):
                        reasons.append(s2[:-1])
                        i += 1
                    else:
                        for n, r, sub in block(level(lines[i])):
                            if n in subs or sub:
                                raise ValueError('policy twice')
                            subs[n] = r
                if i >= len(lines) or level(lines[i]) != ind:
                    raise ValueError('block not closed')
                i += 1
                res.append([name, reasons, subs])
            else:
                raise ValueError('cannot read ' + s)
        return res
    res = block(level(lines[0])) if lines else []
    if i != len(lines):
        raise ValueError('cannot read ' + lines[i])
    return res


HEAD = re.compile(r'\s*([A-Za-z/ ()0-9-]+?):\s+(\[?-?\d.*|\[?(?:True|False).*)$')


def header(path):
    """The leading comment of a file: [[section, key, [numbers]]]."""
    out, section = [], ''
    for line in open(path, encoding='utf-8').read().split('\n'):
        t = uncomment(line)
        if t is None or t.strip() == 'DO NOT EDIT':
            break
        t = t.rstrip()
        m = re.match(r'([A-Z][A-Za-z0-9 ()-]*):$', t)
        if m:
            section = m.group(1)
        elif not t:
            section = ''
        else:
            m = HEAD.match(t)
            if m and not t.startswith('  ') or m and section:
                out.append([section, m.group(1), [int(x) if x[-1].isdigit() else int(x == 'True')
                            for x in re.findall(r'-?\d+|True|False', m.group(2))]])
    return out


COUNT = re.compile(r'([A-Za-z][A-Za-z ]*): (\d+)(?: \((\d+) zones, (\d+) links\))?$')


def counts(path):
    """The counts said in comments below the head: [[kind, name, key, [numbers]]],
    kind and name those of the record the comment block is about."""
    out, kind, name, head = [], '', '', True
    for line in open(path, encoding='utf-8').read().split('\n'):
        t = uncomment(line)
        if t is None:
            head, kind, name = False, '', ''
            continue
        if head:
            continue
        t = t.strip()
        m = re.match(r'(Policy|Zone|Link) name: (\S+)', t)
        if m:
            kind, name = m.groups()
            continue
        m = COUNT.match(t)
        if m:
            out.append([kind, name, m.group(1).lower(), [int(x) for x in m.groups()[1:] if x is not None]])
    return out


# ---- labels ----------------------------------------------------------------
# What comments say about the records beside them.
NAMED = re.compile(r'(Policy|Zone|Link) ?[nN]ame: (\S+)(?: -> (\S+))?$')
PLACED = re.compile(r'(?:Rule|Era) ?(Index|Count|count): (\d+)$')
SIDES = (re.compile(r'"(?P<text>.*)"$'), re.compile(r'(?P<over15>-?\d+) ?/ ?15$'), re.compile(r'(?P<mod15>-?\d+) ?% ?15$'),
         re.compile(r'k?(?:Atc)?Suffix(?P<suffix>[A-Z]) \+ \w+=(?P<rest>-?\d+)$'), re.compile(r'(?P<number>-?\d+)$'),
         re.compile(r'PolicyName: (?P<name>\S+)$'),
         re.compile(r'.*?(?:offsetMinute=(?P<minute>-?\d+).*?)?deltaMinutes=(?P<delta>-?\d+)'), re.compile(r'(?P<word>\S+)$'))


def side(field, t):
    for r in SIDES:
        m = r.match(t)
        if m:
            return [[field, k, int(v) if k not in ('text', 'suffix', 'name', 'word') else v]
                    for k, v in m.groupdict().items() if v is not None]
    return []


PREFIXES = ('kZone', 'kZoneId', 'kZoneBufSize', 'kAtcZoneId', 'Zone', 'ZoneId', 'ZoneID', 'ZoneInfoIndex', 'ZoneBufSize')


def labels(path, names):
    """[heads, marks]: heads are [kind, name, target, {index, count}, records]
    where a record is [words of the comment before it, what is said beside its
    values]; marks are [name, prefix, id, words] of names beside symbols."""
    zones, links, policies = names
    known = {}
    for n in zones + links:
        known.setdefault(symbol(n), n)
    heads, marks, cur, rec, last = [], [], None, None, None
    for line in open(path, encoding='utf-8').read().split('\n'):
        s = line.strip()
        t = uncomment(s)
        if t is not None:
            m = NAMED.match(t.strip())
            if m:
                cur, rec = [m.group(1), m.group(2), m.group(3) or '', {}, []], None
                heads.append(cur)
                continue
            m = PLACED.match(t.strip())
            if m and cur is not None:
                cur[3][m.group(1).lower()] = int(m.group(2))
            last = t.split()
            continue
        if s == '{' and last is not None:
            if cur is None:
                cur = ['', '', '', {}, []]
                heads.append(cur)
            rec = [last, []]
            cur[4].append(rec)
        elif line.startswith(('}', ']')):
            cur = rec = None
        elif rec is not None:
            m = re.match(r'\S.* /\*(\w+) \((.*)\)\*/,$', s) or re.match(r'(\w+): .*?, // (.*)$', s)
            if m:
                rec[1] += side(m.group(1).lower().replace('_', ''), m.group(2))
        if rec is None:
            m = re.match(r'(\S.*?)[;,]?\s+//\s(.*)$', s)
            found = {(known[w[i + len(p):]], p) for w in re.findall(r'\w+', m.group(1)) for p in PREFIXES
                     for i in (w.find(p),) if i >= 0 and w[i + len(p):] in known} if m else ()
            if len({n for n, _ in found}) == 1:
                n, p = max(found, key=lambda x: len(x[1]))
                words = m.group(2).split()
                id_ = limbs(int(words[0].rstrip(','), 16)) if re.match(r'0x[0-9a-fA-F]{1,8},?$', words[0]) else []
                marks.append([n, p, id_, words[1:] if id_ else words])
            elif m and re.match(r'\{RuleIndex: (\d+), RuleCount: (\d+)\}', m.group(1)):
                marks.append(['', 'policy', [int(x) for x in re.findall(r'\d+', m.group(1))], m.group(2).split()])
        if s:
            last = None
    return [heads, marks]


# ---- what a run says of itself ------------------------------------------------
SAID = [
    ('lines', r'Summary: Line count: (\d+) Rules, (\d+) Zones, (\d+) Links'),
    ('names', r'Summary: Name count: (\d+) Rules, (\d+) Zones, (\d+) Links'),
    ('rules read', r'Summary: Rule entry count: (\d+)'),
    ('eras read', r'Summary: Zone entry count: (\d+)'),
    ('ignored', r'Summary: Ignored lines: (\d+) Rules, (\d+) Zones, (\d+) Links'),
    ('invalid', r'Summary: Invalid lines: (\d+) Rules, (\d+) Zones, (\d+) Links'),
    ('years', r'Processing years \[(\d+), (\d+)\)'),
    ('found', r'Found (\d+) zones, (\d+) policies, (\d+) links'),
    ('zones', r'Summary: Zones: generated=(\d+); removed=(\d+); noted=(\d+)'),
    ('policies', r'Summary: Policies: generated=(\d+); removed=(\d+); noted=(\d+)'),
    ('links', r'Summary: Links: generated=(\d+); removed=(\d+); noted=(\d+)'),
    ('requested', r'Requested years: \[(\d+), (\d+)\)'),
    ('generated', r'Generated years: \[(-?\d+), (-?\d+)\]'),
    ('checking', r'Checking years: *\[(-?\d+), (-?\d+)\)'),
    ('largest', r'Found max_buffer_size=(\d+)'),
    ('terminal', r'max_terminal_year: (\d+)'),
    ('comments', r'Zones: (\d+); Comments: (\d+)'),
    ('arduino', r'Summary: (\d+) Zones; (\d+) Policies; (\d+) Links'),
    ('go', r'Summary: (\d+) Zones; (\d+) Policies[;:] (\d+) Letters; (\d+) Formats; (\d+) Names'),
]
REMOVED = re.compile(r'(Removed|Noted) (\d+) (?:zone )?(zone|info|link|polic)\w* ?')
FRAGMENT = re.compile(r"Ignoring fragment '(.*)' with count (\d+), too few")


def log(lines):
    """The numbers of the lines of a log that are known, in their order, with
    the names listed under them.  Other lines say nothing."""
    out = []
    under = None
    for x in lines:
        if under is not None:
            m = re.match(r'- (\S+) \(', x) if under['k'] != 'largest' else re.match(r' +(\S+) in (-?\d+)$', x)
            if m:
                under['s'].append(m.group(1))
                under['n'].extend(int(y) for y in m.groups()[1:])
                continue
            if x == '- [...]':
                under['all'] = False
                continue
            under = None
        for key, pattern in SAID:
            m = re.fullmatch(pattern, x.strip())
            if m:
                out.append({'k': key, 'n': [int(y) for y in m.groups()], 's': [], 'all': True})
                if key == 'largest':
                    under = out[-1]
                break
        else:
            m = REMOVED.match(x)
            f = FRAGMENT.fullmatch(x)
            if m:
                kind = {'zone': 'zones', 'info': 'zones', 'link': 'links', 'polic': 'policies'}[m.group(3)]
                if x.startswith(m.group(0)) and re.match(r'\w+ \d+ zone polic', x):
                    kind = 'policies'
                under = {'k': '%s %s' % (m.group(1).lower(), kind), 'n': [int(m.group(2))], 's': [], 'all': True}
                out.append(under)
            elif f:
                out.append({'k': 'fragment', 'n': [int(f.group(2))], 's': [f.group(1)], 'all': True})
    return out
