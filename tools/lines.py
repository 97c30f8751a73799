import sys, subprocess, collections
exe, files = sys.argv[1], sys.argv[2:]
hit = collections.Counter()
for f in files:
    for l in open(f):
        a, h = l.split()
        hit[a] |= int(h)
pcs = list(hit)
out = subprocess.run(['llvm-symbolizer', '--obj=' + exe, '--inlines', '--functions=none'],
                     input='\n'.join(pcs) + '\n', capture_output=True, text=True).stdout
lines = {}
for a, blk in zip(pcs, out.split('\n\n')):
    for l in blk.splitlines():
        p = l.rsplit(':', 2)
        if '/repo/src' in p[0]:
            k = (p[0].split('/repo/')[1], int(p[1]))
            lines[k] = lines.get(k, 0) | hit[a]
src = {}
miss = sorted(k for k, v in lines.items() if not v)
print(len(lines), 'lines with blocks,', len(miss), 'never reached')
for f, n in miss:
    if f not in src:
        src[f] = open('/repo/' + f).read().split('\n')
    print(f'{f}:{n}: {src[f][n - 1].strip() if n else ""}')
