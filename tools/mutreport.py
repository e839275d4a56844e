import sys,json,collections
c=collections.Counter()
for l in open(sys.argv[1]):
    r=json.loads(l); c[r['res'].split()[0]]+=1
    if r['res']=='SURVIVED' or 'odd' in r: print(r['res'],r['t'],r['id'][:150],'|',r['old'][:110],r.get('odd',''))
print(c)
