#!/usr/bin/env python3
"""Development only: systematic small mutations of the code under test.
mutate.py list                 -> /tmp/mut/list.json
mutate.py work K N             -> worker K of N (inside a mount namespace where /repo and /verif are copies)
mutate.py run N [regex]        -> starts N workers
Results: one line of JSON per mutant in /tmp/mut/res.K"""
import re, os, sys, json, subprocess, hashlib, time
M='/tmp/mut'
def code_mask(s):
    """positions inside comments, strings and chars are False"""
    ok=[True]*len(s); i=0
    while i<len(s):
        if s.startswith('//',i):
            j=s.find('\n',i); j=len(s) if j<0 else j
            for k in range(i,j): ok[k]=False
            i=j
        elif s.startswith('/*',i):
            j=s.find('*/',i)+2
            for k in range(i,j): ok[k]=False
            i=j
        elif re.match(r'r#*"',s[i:i+5]) and (i==0 or not s[i-1].isalnum()):
            h=re.match(r'r(#*)"',s[i:]).group(1); j=s.index('"'+h,i+len(h)+2)+len(h)
            for k in range(i,j+1): ok[k]=False
            i=j+1
        elif s[i]=='"':
            j=i+1
            while s[j]!='"': j+=2 if s[j]=='\\' else 1
            for k in range(i,j+1): ok[k]=False
            i=j+1
        elif s[i]=="'" and re.match(r"'(\\.[^']*|[^\\'])'",s[i:]):
            m=re.match(r"'(\\.[^']*|[^\\'])'",s[i:])
            for k in range(i,i+m.end()): ok[k]=False
            i+=m.end()
        else: i+=1
    return ok
SUBS=[(r' == ',[' != ']),(r' != ',[' == ']),(r' < ',[' <= ',' > ']),(r' > ',[' >= ']),(r' <= ',[' < ']),(r' >= ',[' > ']),
 (r' && ',[' || ']),(r' \|\| ',[' && ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'(?<![\w\]\)])!(?=[\w\(])',['']),
 (r'(?<=[ (\[=-])0(?![\w.])',['1']),(r'(?<=[ (\[=-])1(?![\w.])',['0','2']),(r' \+ ',[' - ']),(r' - ',[' + ']),
 (r'\.is_some\(',['.is_none(']),(r'\.is_none\(',['.is_some(']),(r'\.all\(',['.any(']),(r'\.any\(',['.all(']),(r'\.min\(',['.max(']),(r'\.max\(',['.min(']),
 (r'\.first\(',['.last(']),(r'\.last\(',['.first(']),(r'\.rev\(\)',['']),(r'\bstarts_with\b',['ends_with']),(r'\bends_with\b',['starts_with']),(r'\.\.=',['..']),
 (r'\.trim\(\)',['','.trim_start()','.trim_end()']),(r'\.trim_start\(\)',['']),(r'\.trim_end\(\)',['']),(r'\.end\b(?!\()',['.start']),(r'\.start\b(?!\()',['.end']),(r'\bcontinue;',['break;']),(r'\bbreak;',['continue;'])]
def gen():
    out=[]
    root='/repo/src'
    files=[]
    for d,_,fs in os.walk(root):
        for f in fs:
            if f.endswith('.rs'): files.append(os.path.relpath(os.path.join(d,f),'/repo'))
    for f in sorted(files):
        s=open('/repo/'+f).read(); ok=code_mask(s)
        def add(a,b,new,kind): out.append(dict(file=f,a=a,b=b,old=s[a:b],new=new,kind=kind,line=s.count('\n',0,a)+1))
        for pat,news in SUBS:
            for m in re.finditer(pat,s):
                if not all(ok[m.start():m.end()] or [True]): continue
                if m.end()>m.start() and not ok[m.start()]: continue
                for n in news: add(m.start(),m.end(),n,'sub')
        # statements
        pos=0
        for line in s.split('\n'):
            t=line.strip()
            st=pos+len(line)-len(line.lstrip())
            if t.endswith(';') and ok[st] and re.match(r'[a-z_][\w.:]*\s*(\(|\+=|-=|=[^=]|\.|!\()',t) and not re.match(r'(let|return|use|pub|const|static|mod|type|break|continue|extern|unreachable|panic)\b',t) and t.count('(')==t.count(')') and t.count('{')==t.count('}'):
                add(st,st+len(t),'','delete')
            if t.endswith(';') and re.match(r'return\b',t) and ok[st] and t.count('(')==t.count(')') and t.count('{')==t.count('}'):
                add(st,st+len(t),'','delete')
            m=re.match(r'(?:\} else )?if (?!let )(.*) \{',t)
            if m and t.endswith('{') and ok[st]:
                c=m.group(1)
                if ' let ' not in c and c.count('(')==c.count(')'):
                    a=st+t.index(c) if t.index(c)>=0 else None
                    add(a,a+len(c),f'true || ({c})','cond'); add(a,a+len(c),f'false && ({c})','cond')
            m=re.search(r' if (?!let )(.*?) =>',t)
            if m and ok[st+m.start()] and not re.match(r'(\} else )?if ',t):
                c=m.group(1); a=st+m.start(1)
                if ' let ' not in c: add(a,a+len(c),f'true || ({c})','guard'); add(a,a+len(c),f'false && ({c})','guard')
            pos+=len(line)+1
    for i,m in enumerate(out): m['id']=hashlib.sha1(f"{m['file']}{m['a']}{m['b']}{m['new']}".encode()).hexdigest()[:10]
    return out
FIRST={'src/parser/text.rs':'C02 C03 C01','src/parser/tokenizer.rs':'C02 C18 C01','src/parser/template.rs':'C02 C09','src/parser/func.rs':'C07 C18 C01','src/parser/matcher.rs':'C18 C09 C01','src/parser/tag.rs':'C03 C18 C01','src/parser/types.rs':'C06 C18','src/parser/base.rs':'C18 C08 C02 C01','src/parser/ast.rs':'C18 C08 C09','src/parser/queue.rs':'C02','src/parser/token.rs':'C02 C18',
 'src/bin/papyri.rs':'C15 C20 C14','src/compiler/base.rs':'C18 C12','src/compiler/context.rs':'C13 C18 C12','src/compiler/exports.rs':'C12','src/compiler/frame.rs':'C18 C08','src/compiler/func.rs':'C07 C18 C10','src/compiler/highlight.rs':'C19','src/compiler/highlight_papyri.rs':'C19','src/compiler/html.rs':'C05 C03 C04 C21','src/compiler/html_parse.rs':'C22','src/compiler/matcher.rs':'C09','src/compiler/module_loader.rs':'C12 C17','src/compiler/names.rs':'C08','src/compiler/native.rs':'C10 C11 C12 C17 C19','src/compiler/native_gen.rs':'C07 C10','src/compiler/regex_value.rs':'C10','src/compiler/render.rs':'C03 C21 C22','src/compiler/sequence.rs':'C05 C04','src/compiler/signature.rs':'C07','src/compiler/tag.rs':'C03 C04 C22','src/compiler/types.rs':'C06','src/compiler/value.rs':'C06 C10','src/compiler/value_convert.rs':'C10 C06',
 'src/utils/outfiles.rs':'C13 C14','src/utils/relpath.rs':'C14 C20','src/utils/sliceref.rs':'C10 C09','src/utils/sourcefile.rs':'C18 C20','src/utils/string_pool.rs':'C10 C08','src/utils/taginfo.rs':'C04','src/utils/text.rs':'C02 C11 C19 C03'}
REST='C18 C03 C05 C13 C22 C21 C11 C19 C14 C16 C15 C17 C12 C07 C06 C10 C02 C01 C04 C20 C09 C08'.split()
CLI='C18 C15 C20 C14 C16 C13 C12'.split()
def rest(f): return CLI if f.startswith('src/bin') or f in ('src/utils/relpath.rs','src/utils/outfiles.rs') else [c for c in REST if c not in ('C14','C15','C16','C17','C20')]
ENV=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTFLAGS='-A dependency_on_unit_never_type_fallback -A warnings', RUST_BACKTRACE='0', RUSTC_WRAPPER='', VERIF_SEED='1', VERIF_TIER='quick')
def run(c, t, **k):
    try:
        p=subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **k)
        o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 'timeout',''
def work(k,n,pat):
    L=json.load(open(M+'/list.json'))
    done=set()
    for f in os.listdir(M):
        if f.startswith('res.'):
            for l in open(f'{M}/{f}'): done.add(json.loads(l)['id'])
    L=[m for i,m in enumerate(L) if i%n==k and m['id'] not in done and re.search(pat,m['file'])]
    import random; random.Random(7).shuffle(L)
    out=open(f'{M}/res.{k}','a')
    for m in L:
        p='/repo/'+m['file']; s=open(p).read()
        assert s[m['a']:m['b']]==m['old'], m
        open(p,'w').write(s[:m['a']]+m['new']+s[m['b']:])
        t0=time.time(); r=dict(m); r['by']=None; log=[]
        try:
            order=FIRST.get(m['file'],'').split(); order+=[c for c in rest(m['file']) if c not in order]
            bad=False
            for j,c in enumerate(order):
                if j==5:
                    # the tests, before all the other checks
                    rc,o=run('cargo test --workspace --locked --offline -- --test-threads 4', 300, cwd='/repo', env=dict(ENV, CARGO_TARGET_DIR='/repo/target-t'))
                    r['tests']=(rc==0)
                    if rc!=0:
                        r['by']='build' if 'could not compile' in o else 'tests'; break
                rc,o=run(f'bash /verif/tools/check.sh {c} quick', 400, env=dict(ENV, MC_ENOUGH='160' if c in ('C10','C15','C22') else '0'))
                if rc==0: continue
                if rc==2 and 'build of the check failed' in o: r['by']='build'; break
                v=[l for l in o.split('\n') if l.startswith('VIOLATION')]
                if rc==1 and v: r['by']=c; r['v']=v[0][:300]; break
                log.append([c,rc,o[-600:]])
                if rc=='timeout' : r['by']=c+':timeout'; break
                r['crash']=c
        finally:
            open(p,'w').write(s)
        r['t']=round(time.time()-t0,1); r['log']=log
        out.write(json.dumps(r)+'\n'); out.flush()
if __name__=='__main__':
    if sys.argv[1]=='list':
        L=gen(); json.dump(L,open(M+'/list.json','w')); print(len(L))
        from collections import Counter
        for f,c in sorted(Counter(m['file'] for m in L).items()): print(c,f)
    elif sys.argv[1]=='work': work(int(sys.argv[2]),int(sys.argv[3]),sys.argv[4])
    elif sys.argv[1]=='run':
        n=int(sys.argv[2]); pat=sys.argv[3] if len(sys.argv)>3 else '.'
        for k in range(n):
            w=f'{M}/w{k}'
            subprocess.run(f'mkdir -p {w}; rm -rf {w}/repo {w}/verif; cp -a /repo {w}/repo; cp -a /verif {w}/verif; rm -rf {w}/repo/target', shell=True, check=True)
            subprocess.Popen(f"unshare -m bash -c 'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && exec python3 /verif/tools/dev/mutate.py work {k} {n} \"{pat}\"' > {w}/log 2>&1", shell=True, start_new_session=True)
