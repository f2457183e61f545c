#!/usr/bin/env python3
"""plant.py BATCH.py [ids...]: creates /verif/seeded/<id> from batch definitions, confirms and runs checks."""
import sys, os, subprocess, json, shutil, tempfile, runpy, time
SEED=os.environ.get('SEED','/verif/seeded')   # OCaml-only changes go to /verif/seeded_ml
DEMO='''#!/bin/bash
# exit 0: behaviour as it should be; 1: the defect shows
D=$(cd "$(dirname "$0")" && pwd)
DEPS=/opt/cryptokit-deps
export PATH=$DEPS/usr/bin:/usr/local/bin:/usr/bin:/bin OCAMLPATH=$DEPS/usr/lib/ocaml CAML_LD_LIBRARY_PATH=$DEPS/usr/lib/ocaml/stublibs
unset OCAMLPARAM OCAMLRUNPARAM
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
cp "$D"/demo.ml "$S"/ && cd "$S" || exit 2
B=/repo/_build/default/src
ocamlfind ocamlopt -w -a -package zarith,unix,threads.posix -thread -linkpkg -I $B -I $B/.cryptokit.objs/byte -I $B/.cryptokit.objs/native $B/cryptokit.cmxa demo.ml -o demo > log 2>&1 || { cat log; exit 2; }
timeout 250 ./demo
'''
HEAD=DEMO.split('cp "$D"')[0]
BYTE='''cp "$D"/* "$S"/ && cd "$S" || exit 2
B=/repo/_build/default/src
ocamlfind ocamlc -w -a -custom -package zarith,unix,threads.posix -thread -linkpkg -I $B -I $B/.cryptokit.objs/byte $B/cryptokit.cma demo.ml -o demo > log 2>&1 || { cat log; exit 2; }
timeout 250 ./demo
'''
CDEMO='''cp "$D"/demo.c "$S"/ && cd "$S" || exit 2
gcc -O1 -g -w -msse2 -maes -mpclmul -I/repo/src -I$DEPS/usr/lib/ocaml -I/usr/lib/ocaml demo.c -o demo > log 2>&1 || { cat log; exit 2; }
timeout 250 ./demo
'''
SHIM='''cp "$D"/* "$S"/ && cd "$S" || exit 2
B=/repo/_build/default/src
gcc -shared -fPIC -O1 -w shim.c -o shim.so -ldl || exit 2
ocamlfind ocamlopt -w -a -package zarith,unix,threads.posix -thread -linkpkg -I $B -I $B/.cryptokit.objs/byte -I $B/.cryptokit.objs/native $B/cryptokit.cmxa demo.ml -o demo > log 2>&1 || { cat log; exit 2; }
LD_PRELOAD=$S/shim.so timeout 250 ./demo
'''
PRE='''open Cryptokit
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let fail fmt = Printf.ksprintf (fun s -> prerr_endline ("DEFECT: " ^ s); exit 1) fmt
let check what b = if not b then fail "%s" what
'''
os.makedirs("/tmp/pl",exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- . && bash /opt/vp/build.sh')
def passed():
    sh('bash /opt/vp/test.sh /tmp/pl/out.json')
    j=json.load(open('/tmp/pl/out.json')); base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(base-set(j['passed']))
def make(b):
    d=os.path.join(SEED,b['id'])
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f,o,n in b['edits']:
        p='/repo/'+f; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'EDIT MATCHES',s.count(o),repr(o[:60])); clean(); return False
        open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    kind=b.get('kind','ml')
    if kind=='c': open(d+'/demo.c','w').write(b['demo'])
    else: open(d+'/demo.ml','w').write(PRE+b['demo'])
    for f,t in b.get('files',{}).items(): open(d+'/'+f,'w').write(t)
    open(d+'/demo.sh','w').write({'ml':DEMO,'bc':HEAD+BYTE,'c':HEAD+CDEMO,'shim':HEAD+SHIM}[kind]); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    return True
def confirm(i):
    d=os.path.join(SEED,i)
    sh('git -C /repo checkout -- .; bash /opt/vp/build.sh')
    r=sh('bash %s/demo.sh'%d,cwd='/repo')
    if r.returncode!=0: print(i,'DEMO FAILS ON CLEAN TREE',r.returncode,r.stdout[-500:]); return False
    a=sh('git -C /repo apply %s/patch.diff'%d)
    if a.returncode: print(i,'patch',a.stdout); return False
    try:
        bd=sh('bash /opt/vp/build.sh')
        if bd.returncode: print(i,'BUILD FAILS',bd.stdout[-800:]); return False
        m=passed()
        if m: print(i,'TESTS FAIL',m[:5]); return False
        r=sh('bash %s/demo.sh'%d,cwd='/repo')
        if r.returncode in (0,2): print(i,'DEMO DOES NOT SHOW IT',r.returncode,r.stdout[-500:]); return False
    finally: clean()
    return True
def checks(i, props):
    d=os.path.join(SEED,i)
    sh('git -C /repo apply %s/patch.diff'%d)
    res={}
    try:
        for p in props:
            t=time.time(); r=sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick'%p)
            v=[l for l in r.stdout.splitlines() if l.startswith('  [')]
            res[p]=(r.returncode, (v or r.stdout.splitlines()[-1:] or [''])[0][:170], round(time.time()-t,1))
    finally: sh('git -C /repo checkout -- .')
    return res
if __name__=='__main__':
    args=sys.argv[1:]
    if args and args[0].endswith('.py'):
        bs=runpy.run_path(args[0])['B']; ids=args[1:]
        todo=[]
        for b in bs:
            if ids and b['id'] not in ids: continue
            if make(b) and confirm(b['id']): todo.append((b['id'],[b['prop']]+b.get('also',[])))
            else: shutil.rmtree(os.path.join(SEED,b['id']),ignore_errors=True)
    else:
        ids=args or sorted(os.listdir(SEED)); todo=[(i,[json.load(open('%s/%s/meta.json'%(SEED,i)))['property']]) for i in ids]
    ok=0
    for i,ps in todo:
        r=checks(i,ps)
        for p,(rc,msg,t) in r.items(): print('%-28s %s %s %5.1fs %s'%(i,p,{1:'CAUGHT',0:'MISSED'}.get(rc,'rc%d'%rc),t,msg)); sys.stdout.flush()
    clean()
    print(sh('git -C /repo status --short').stdout)
