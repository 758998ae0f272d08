import sys, json, glob, collections
c=collections.Counter()
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1])):
    c[open(f).read()[:int(sys.argv[2]) if len(sys.argv)>2 else 600]]+=1
for k,v in list(c.items())[:4]: print(v,k,'\n')
