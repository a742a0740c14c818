# harness/options.inc: the documented options (doc/C/options/all_table.rst) as a C++ table. Development tool: the committed
# table is the reference the check uses.
import re,sys
K={'opts_linearmodels':'da_handle_linmod','opts_principalcomponentanalysis':'da_handle_pca','opts_k-meansclustering':'da_handle_kmeans','opts_dbscanclustering':'da_handle_dbscan','opts_decisiontrees':'da_handle_decision_tree','opts_decisionforests':'da_handle_decision_forest','opts_nonlinearleastsquares':'da_handle_nlls','opts_nearestneighbors':'da_handle_nn','opts_supportvectormachines':'da_handle_svm','opts_interpolation':'da_handle_interpolation','opts_approximatenearestneighbors':'da_handle_approx_nn','opts_kernelprincipalcomponentanalysis':'da_handle_kernel_pca','opts_t-sne':'da_handle_tsne','opts_datastore':'-1'}
def num(s):
    s=s.strip().rstrip('.')
    m=re.fullmatch(r'(-?[\d.]*)\s*\\?(?:times|cdot)?\s*10\^\{?(-?\d+)\}?',s)
    if m: return repr(float((m[1] or '1')+'e'+m[2]))
    try: return repr(float(s))
    except: pass
    return None
rows=[];kind=None
for l in open(sys.argv[1] if len(sys.argv)>1 else '/repo/doc/C/options/all_table.rst'):
    m=re.match(r'\.\. _(opts_\S+):',l)
    if m: kind=K[m[1]]
    if not l.startswith('   "') or kind is None: continue
    f=re.findall(r'"((?:~.|[^"~])*)"',l)
    if len(f)<5: f=re.findall(r'"((?:[^"])*)"',l.replace('~"','@'))
    name,ty,de,desc,con=[x.replace('~~','~').replace('~"','"').replace('@','"') for x in f[:5]]
    if ty=='string':
        d=re.search(r'`s=` `(.*)`',de); d=d[1] if d else ''
        if d=='\\\\': d='\\'
        labs=re.findall(r'`([^`]+)`',con.replace(':math:`s=`',''))
        rows.append((kind,name,'s',d,labs))
    elif ty in('integer','real'):
        t=ty[0]
        m=re.match(r':math:`[ir]=(.*)`',de); d=num(m[1]) if m else None
        c=re.search(r':math:`(.*?)`',con)
        lo=hi=None;lt=ut=0
        if c and 'no constraints' not in con:
            mm=re.fullmatch(r'(?:(.+?)\s*(\\le|<)\s*)?[ir](?:\s*(\\le|<)\s*(.+))?',c[1].strip())
            if not mm: print('??',name,con)
            else:
                if mm[1]: lo=num(mm[1]);lt=2 if mm[2]=='\\le' else 1
                if mm[4]: hi=num(mm[4]);ut=2 if mm[3]=='\\le' else 1
                if (mm[1] and lo is None) or (mm[4] and hi is None): print('??bound',name,con)
        if d is None: print('?default',kind,name,de)
        rows.append((kind,name,t,d,(lo,lt,hi,ut)))
    else: print('??',l)
# nlls.cpp deliberately selects RALFit for a nonlinear least squares handle (and its own algorithm page says RALFit is the
# solver); the table prints the generic optimizer's default
rows=[(k,n,t,'ralfit' if (k,n)==('da_handle_nlls','optim method') else d,c) for k,n,t,d,c in rows]
q=lambda s:'"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
with open('/verif/harness/options.inc','w') as o:
    for r in rows:
        if r[2]=='s': o.write('{%s, %s, \'s\', 0, %s, 0, 0, 0, 0, {%s}},\n'%(r[0],q(r[1]),q(r[3]),', '.join(map(q,r[4]))))
        else:
            lo,lt,hi,ut=r[4]
            o.write('{%s, %s, \'%s\', %s, "", %s, %d, %s, %d, {}},\n'%(r[0],q(r[1]),r[2],r[3] or 'NAN',lo or 0,lt,hi or 0,ut))
print(len(rows))
