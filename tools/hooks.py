#!/usr/bin/env python3
"""hooks.py IN.ll OUT.ll: in the code of osm-io, announce atomic loads and stores of words and the taking of locks to the
scheduler of the thread pool stand-in, so that it can switch threads there; and let it wait where a lock is held."""
import re, sys
src, dst = sys.argv[1:3]
access = re.compile(r'^\s+(?:%\S+ = load atomic (?:volatile )?i\d+, ptr |store atomic (?:volatile )?i\d+ [^,]*, ptr )(?:%|@\w*6osm_io)')
poison = re.compile(r'atomic i8[ ,].* monotonic')
lock = re.compile(r'^\s+%\S+ = cmpxchg (?:weak )?ptr (?:%|@\w*6osm_io)[^,]*, i32 0, i32 1 acquire')
held = re.compile(r'^\s+(?:(?:tail|musttail|notail) )?(?:call|invoke) .*@_R\w+14lock_contended\(.*?((?:%|@)[\w.]+)\)')
out = []; on = False; n = 0
for l in open(src):
    if l.startswith('define '):
        f = l.split('(')[0]; on = '6osm_io' in f and '5alloc4sync' not in f; other = '16command_executor' in f and not on
    elif 'lock_contended' in l:
        m = held.match(l)
        if m and not other: out.append('  call void @__osm_wait(ptr %s)\n' % m.group(1))
    elif on and ('atomic' in l or 'cmpxchg' in l):
        if lock.match(l) or access.match(l) and not poison.search(l): out.append('  call void @__osm_yield()\n'); n += 1
    out.append(l)
open(dst, 'w').writelines(out)
print('%d switch points' % n)
