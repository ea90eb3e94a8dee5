#!/usr/bin/env python3
"""Mutates the Python scripts one place at a time and runs the Y checks against each mutant: pymut.py [SCRIPT] -> survivors"""
import ast,copy,os,sys,subprocess,shutil,concurrent.futures as cf
S='/repo/amzn-smt-prediction/scripts'
MAP={'get_solver_output':['Y01','Y05','Y03'],'get_word_counts':['Y02','Y05'],'get_word_count_features':['Y02','Y05'],'run_eager_v_lazy':['Y03'],'find_faster_fmf':['Y04'],
 'generate_predictions':['Y05','Y03'],'clean_eager_lazy_data':['Y07','Y05'],'clean_smt_comp_results':['Y07'],'modernize_benchmarks':['Y06']}
def sites(t):
    """(description, function mutating a fresh tree)"""
    nodes=list(ast.walk(t)); out=[]
    for i,n in enumerate(nodes):
        def add(d,f,i=i,n=n): out.append((f"{getattr(n,'lineno','?')}: {d}: {ast.unparse(n)[:90]!r}",i,f))
        if isinstance(n,ast.Compare):
            for o in {ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}.get(type(n.ops[0]),[]):
                add(o.__name__,lambda m,o=o: m.ops.__setitem__(0,o()))
        if isinstance(n,ast.BinOp):
            for o in {ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Add],ast.Div:[ast.Mult],ast.Pow:[ast.Mult]}.get(type(n.op),[]):
                add(o.__name__,lambda m,o=o: setattr(m,'op',o()))
        if isinstance(n,ast.Constant):
            if isinstance(n.value,bool): add('flip',lambda m: setattr(m,'value',not m.value))
            elif isinstance(n.value,(int,float)):
                for d in (1,-1): add(f'{d:+}',lambda m,d=d: setattr(m,'value',m.value+d))
            elif isinstance(n.value,str): add('string',lambda m: setattr(m,'value',m.value+'x'))
        if isinstance(n,ast.BoolOp):
            add('and/or',lambda m: setattr(m,'op',ast.Or() if isinstance(m.op,ast.And) else ast.And()))
            for k in range(len(n.values)): add(f'drop {k}',lambda m,k=k: m.values.pop(k) if len(m.values)>1 else None)
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): add('not',lambda m: setattr(m,'op',ast.Not()) or setattr(m,'operand',ast.UnaryOp(ast.Not(),m.operand)))
        if isinstance(n,ast.Call):
            for k in range(len(n.keywords)): add(f'drop {n.keywords[k].arg}',lambda m,k=k: m.keywords.pop(k))
            if isinstance(n.func,ast.Name) and n.func.id in('max','min','sum'): 
                for o in ('max','min','sum'):
                    if o!=n.func.id: add(o,lambda m,o=o: setattr(m.func,'id',o))
            if isinstance(n.func,ast.Attribute) and n.func.attr in ('strip','rstrip','flush','close','removesuffix'):
                add('drop call',lambda m: (setattr(m,'func',ast.Name('str',ast.Load())),setattr(m,'args',[ast.Constant('')]),setattr(m,'keywords',[])) if m.func.attr in('flush','close') else (setattr(m,'args',[m.func.value]),setattr(m,'func',ast.Name('str',ast.Load()))))
        if isinstance(n,ast.Slice):
            for a in('lower','upper'):
                if getattr(n,a) is not None: add('drop '+a,lambda m,a=a: setattr(m,a,None))
        for fld in('body','orelse'):
            b=getattr(n,fld,None)
            if isinstance(b,list) and not isinstance(n,ast.Module):
                for k in range(len(b)):
                    if isinstance(b[k],(ast.Expr,ast.Assign,ast.AugAssign,ast.Break,ast.Return,ast.If,ast.Try,ast.Raise)) and not(isinstance(b[k],ast.Expr) and ast.unparse(b[k]).startswith('print')):
                        out.append((f"{b[k].lineno}: delete {ast.unparse(b[k])[:70]!r}",i,lambda m,fld=fld,k=k: getattr(m,fld).__setitem__(k,ast.Pass())))
    return out
def run(job):
    f,k,d,src=job
    D=f'/tmp/mut/py/{f}.{k}'; s=D+'/amzn-smt-prediction/scripts'
    shutil.rmtree(D,ignore_errors=True); os.makedirs(s)
    for x in os.listdir(S):
        if x.endswith('.py'): shutil.copy(S+'/'+x,s)
    open(f'{s}/{f}.py','w').write(src)
    res='SURVIVED'
    for p in MAP[f]:
        try: r=subprocess.run(['python3','-B','/verif/pysim/dst.py','check',p,'--seeds',N,'--threads','1','--wall','60','--repo',D,'--replays',D,'--out',D+'/ev','--known','/verif/known-findings.json'],capture_output=True,text=True,timeout=150)
        except subprocess.TimeoutExpired: res='TIMEOUT'; continue
        if r.returncode==1: res='caught '+p; break
        if r.returncode!=0: res=f'rc {r.returncode} {r.stderr[-200:]!r}'
    shutil.rmtree(D,ignore_errors=True)
    return f,d,res
N='600'
jobs=[]
for f in (sys.argv[1:] or MAP):
    src=open(f'{S}/{f}.py').read(); t=ast.parse(src); base=ast.unparse(t)
    for k,(d,i,fn) in enumerate(sites(t)):
        u=copy.deepcopy(t); fn(list(ast.walk(u))[i])
        try: m=ast.unparse(ast.fix_missing_locations(u)); compile(m,f,'exec')
        except Exception as e: continue
        if m!=base: jobs.append((f,k,d,m))
print(len(jobs),'mutants',flush=True)
c={}
with cf.ProcessPoolExecutor(7) as ex:
    for f,d,r in ex.map(run,jobs):
        c[r.split()[0]]=c.get(r.split()[0],0)+1
        if not r.startswith('caught'): print(f,d,'=>',r,flush=True)
print(c)
