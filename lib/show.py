import json,sys
def show(rec):
    w,c,o=rec['w'],rec['c'],rec['o']
    print('CONF',{k:v for k,v in c.items() if k!='tg'}, [ (t['triple'],t['feats']) for t in c['tg']],'root',w['root'],'members',w['members'])
    for k,p in enumerate(w['pk'],1):
        print(f"#{k} {p['name']} {p['ver']} {p['url'] or p['dir']} rf={p['rf']}")
        for f in p['feats']:
            print('     feat',f['f'],'=',[{'dep':'dep:'+x['d'],'weak':x['d']+'?/'+x['g'],'strong':x['d']+'/'+x['g'],'simple':x['g']}[x['k']] for x in f['items']])
        for i,d in enumerate(p['deps'],1):
            print('     dep',i,d['toml'],'->',d['to'],d['kind'],'opt' if d['opt'] else '','def' if d['deff'] else 'nodef',d['feats'],d['cfgs'],'' if d['linked'] else 'UNLINKED')
    print({k:o[k] for k in ('status','msg','krates','filtered','feats','map') if k in o})
    for e in o['dep']: print('   E',e)
    print('  PF',o['pf']); print('  FN',[(x['q'],x['g']) for x in o['fnodes']]); print('  FF',[f"{x['q']}/{x['g']}->{x['r']}/{x['h']}" for x in o['ff']])
if __name__=='__main__':
    for l in open(sys.argv[1]):
        r=json.loads(l)
        if str(r['id'])==sys.argv[2]: show(r)
