import json,sys
from run import render
d=json.load(open(f'build/run/{sys.argv[1]}/out.json'))
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
g={}
for v in d['violations']:
    g.setdefault((v['id'],v['job']),[]).append(v)
for (i,j),vs in sorted(g.items()):
    print(i,'job',j,'ints',vs[0]['params'][1:1+vs[0]['params'][0]],len(vs), vs[0].get('detail','')[-60:] if i=='panic' else '')
    st=max(1,len(vs)//n)
    for v in vs[::st][:n]:
        print('    ',*[repr(x) if len(x)<3 or '\n' in x else x for x in render(v['params'],v['model'])], sep='  ')
print(len(d['violations']))
