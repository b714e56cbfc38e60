#!/usr/bin/env python3
"""cross.py FILE...: every behaviour-preserving edit ('ok' blocks) against every check; prints alarms and missing answers."""
import sys, os, re, glob, concurrent.futures
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mut.py')).read()
exec(src[:src.rindex('\nmain()')].replace("__file__", repr(os.path.abspath(__file__))))
ids = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + '/pp/rules/c[0-9][0-9].py'))
ms = [m for f in sys.argv[1:] for m in parse(f) if m['kind'] == 'ok']
for m in ms:
    m['props'] = ids
bad = 0
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', '5'))) as ex:
    for m, res in ex.map(one, ms):
        b = [r for r in res if len(r) < 3 or r[1] != 0]
        bad += bool(b)
        print('ALARM' if b else 'quiet', m['src'], m['file'], m['note'], flush=True)
        for r in b:
            print('      ', r, flush=True)
print('%d edits, %d not quiet' % (len(ms), bad))
