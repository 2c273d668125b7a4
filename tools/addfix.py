import sys
p='/verif/known_findings.txt';L=open(p).read().split('\n')
i=[k for k,l in enumerate(L) if l.startswith('known: ')][0]
L.insert(i,'fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
open(p,'w').write('\n'.join(L))
