"""tools/heads.py: where an analysis spends its steps (import prof and call prof(ip))"""
import sys; sys.path.insert(0,'/verif')
from collections import Counter
def prof(ip, n=8):
    c=Counter()
    for k,e in ip.heads.items(): c[(ip.fidinfo[k[0]][1],k[1])]+=len(e)
    print('heads',c.most_common(n))
    c2=Counter()
    for k in ip.seen: c2[(ip.fidinfo[k[0]][1],k[1])]+=1
    print('joins',c2.most_common(n))
