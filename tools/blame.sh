#!/bin/bash
# blame.sh ID...: for each planted bug, check that every line its patch removes is one of the original repository
base=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1); base=${BASE:-e3f43b0}
for id in "$@"; do
python3 - "$id" "$base" <<'P'
import re, subprocess, sys
bid, base = sys.argv[1:]
f = None; n = 0; bad = []
for l in open('/verif/seeded/%s/patch.diff' % bid):
    if l.startswith('--- a/'): f = l[6:].strip()
    elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n), base + '..HEAD', '--', f], capture_output=True, text=True).stdout
        if not o.startswith('^'): bad.append((f, n, o.strip()))
        n += 1
    elif l.startswith(' '): n += 1
print(bid, 'original' if not bad else bad)
P
done
