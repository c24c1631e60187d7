import json,sys
j=json.load(open(f'/tmp/{sys.argv[1]}.json')); n=int(sys.argv[2]) if len(sys.argv)>2 else 3; w=int(sys.argv[3]) if len(sys.argv)>3 else 400
seen={}
for v in j['violations']:
    if seen.setdefault(v['what'],0)>=n: continue
    seen[v['what']]+=1
    print('*',v['what'],v['idx']); print('   in:',v['input'][:w]); 
    for k,x in v['detail'].items(): print('   ',k,':',str(x)[:w])
if '-s' in sys.argv: print(j['stats'])
