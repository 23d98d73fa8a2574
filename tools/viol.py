import json,glob,sys
for f in sorted(glob.glob('/verif/replay/%s-*.json'%sys.argv[1])):
    d=json.load(open(f)); print(f,'key=',d['key'],'case=',d['case']); print('   ',d['detail'][:int(sys.argv[2]) if len(sys.argv)>2 else 700]);
    for h in (d['history'] or [])[:int(sys.argv[3]) if len(sys.argv)>3 else 12]: print('      |',h[:300])
    print()
