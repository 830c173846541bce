# fills the table of planted bugs in DESIGN.md
import json,os
p='/verif/DESIGN.md'
t=open(p).read()
head='| planted bug | caught by | needs |\n|----|----|----|\n'
t=t[:t.index(head)]+head
S='/verif/seeded'
for d in sorted(os.listdir(S)):
    me=json.load(open(f'{S}/{d}/meta.json'))
    t+='| %s | %s quick | %s |\n'%(d,me['property'],me['needs'].replace('|','/'))
open(p,'w').write(t)
