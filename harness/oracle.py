"""Compare the specification's timelines (Timeline.tla) with the system's
compiled zoneinfo files of the same TZDB release, instant by instant: an
independent check that the specification reads TZDB the way zic does."""
import datetime
import glob
import json
import os
import sys
import zoneinfo
import gen
import vlib

UTC = datetime.timezone.utc
DAY0 = (datetime.date(1970, 1, 1) - datetime.date(1, 1, 1)).days
# DayNum(1970,1,1) of the specification
SPEC0 = 719468


def stamp(at):
    return (at[0] - SPEC0) * 86400 + at[1]


def main(name='main', lo=1900, hi=2037):
    c = vlib.Check('oracle')
    try:
        j = gen.job('src', gen.tzdb(name), gen.cfg('complete', 1800, 2200, strict=False), ['ext'])
        r = c.record([j])[0]
        r['cfg'] = dict(j['cfg'], ug=1, og=1, dg=1)
        r['lo'], r['hi'] = lo, hi
        ok, out, d = c.tlc('Oracle', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'cases.ndjson': [r]})
        if not ok:
            print(out[-2000:])
            return 2
        bad = n = points = 0
        for f in glob.glob(os.path.join(d, 'tl-*.json')):
            t = json.load(open(f))
            try:
                z = zoneinfo.ZoneInfo(t['zone'])
            except Exception:
                continue
            n += 1
            segs = t['segs']
            for i, s in enumerate(segs):
                a = stamp(s['at'])
                b = stamp(segs[i + 1]['at']) if i + 1 < len(segs) else a + 86400 * 30
                for x in {a, (a + b) // 2, b - 1}:
                    dt = datetime.datetime.fromtimestamp(x, UTC).astimezone(z)
                    got = (int(dt.utcoffset().total_seconds()), dt.tzname())
                    want = (s['off'] + s['save'], s['abbr'])
                    points += 1
                    if got != want:
                        bad += 1
                        if bad < 20:
                            print(t['zone'], datetime.datetime.fromtimestamp(x, UTC), 'spec', want, 'system', got)
                        break
        print('%s: %d zones, %d instants, %d differ' % (name, n, points, bad))
        return 1 if bad else 0
    finally:
        c.close()


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:2]))
