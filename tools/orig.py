"""Which seeded changes remove lines of the original repository (base commit) - only those count."""
import re, subprocess, os
BASE = '21aba07'


def git(*a):
    return subprocess.run(['git', '-C', '/repo', *a], stdout=subprocess.PIPE, text=True).stdout


for i in sorted(os.listdir('/verif/seeded')):
    f, n, orig, mine, add = None, 0, 0, 0, 0
    for l in open('/verif/seeded/%s/patch.diff' % i):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            blame = [x.split()[0] for x in git('blame', '-s', '-l', 'HEAD', '--', f).splitlines()]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            if blame[n - 1].lstrip('^')[:7] == BASE[:7]:
                orig += 1
            else:
                mine += 1
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            add += 1
        elif l.startswith(' '):
            n += 1
    print('%-24s original lines changed %d, later lines %d, added %d' % (i, orig, mine, add))
