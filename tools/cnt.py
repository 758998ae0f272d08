import json,glob,collections,sys
print(collections.Counter(json.load(open(f))['key'] for f in glob.glob('/verif/evidence/replay/%s-*'%sys.argv[1])))
