"""Record what the byte writers do.  usage: record_bytes.py JOBS OUT"""
import json
import random
import sys

sys.dont_write_bytecode = True
from acetimetools.generator import byteutils  # noqa: E402
import decode  # noqa: E402


def item(fn, x, before):
    data = bytearray(before)
    try:
        getattr(byteutils, 'write_' + fn)(data, x)
        ok = True
    except Exception:
        ok = False
    return [fn, x >> 16, x & 0xffff, ok, list(before), list(data)]


def text(data, chunk, prefix):
    what = '%d bytes in chunks of %d' % (len(data), chunk)
    try:
        s = byteutils.convert_to_go_string(bytearray(data), chunk, prefix)
        got = decode.Go('package x\nconst (\n\tData = %s\n\tEnd = 1\n)\n' % s).decl
        read = got['Data'][1] if got['Data'][0] == 'string' and got['End'][1] == 1 else [-1]
    except (ValueError, KeyError) as e:
        read = ['%s: %s' % (type(e).__name__, e)]
    return {'what': what, 'bytes': list(data), 'read': read}


def hexed(data):
    try:
        read = decode.go_string('"%s"' % byteutils.hex_encode(bytearray(data)))
    except ValueError as e:
        read = [str(e)]
    return {'what': 'hex of %d bytes' % len(data), 'bytes': list(data), 'read': read}


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as o:
        for line in f:
            j = json.loads(line)
            r = random.Random(j['id'])
            items = [item(j['fn'], x, [r.randrange(256) for _ in range(r.choice([0, 0, 1, 5]))])
                     for x in list(range(*j['range'])) + j['values']] if 'fn' in j else []
            texts = []
            for n, c, p in j.get('texts', []):
                data = [r.randrange(256) for _ in range(n)]
                texts.append(text(data, c, p))
            if 'hex' in j:
                texts += [hexed([b]) for b in range(256)] + [hexed(list(range(256))), hexed([])]
                texts += [text(list(range(256)), c, '\t\t') for c in range(1, 258)]
            o.write(json.dumps({'id': j['id'], 'items': items, 'texts': texts}) + '\n')


if __name__ == '__main__':
    main()
