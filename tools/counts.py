"""Which planted bugs change lines of the original repository?"""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
for i in sorted(os.listdir(V + '/seeded')):
    f = n = own = orig = 0
    for line in open('%s/seeded/%s/patch.diff' % (V, i)):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], text=True).splitlines()
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            c = bl[n - 1].split()[0].lstrip('^')
            if line[1:].strip():
                if base.startswith(c): orig += 1
                else: own += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    if not orig or own:
        print(i, 'original lines', orig, 'own', own)
