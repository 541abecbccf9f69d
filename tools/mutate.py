import re,random,subprocess,os,sys,json,shutil,time,difflib
W='/tmp/mw'
MAP={
'conf.c':(14,['conf','conf_own']),'log.c':(14,['logmedia']),'proxyd.c':(20,['cli']),'md5.c':(12,['md5']),
'digest.c':(14,['response','reg_report','md5','client']),'pearson.c':(3,['pearson']),'rand.c':(5,['nonce','faults']),'regex.c':(8,['policy']),
'registration.c':(34,['reg_report','reg_sched','faults']),'worker.c':(26,['worker','periodic','faults','shutdown']),
'mutex_posix.c':(24,['rwlock','deadline','worker','periodic','faults']),'thread_posix.c':(8,['faults','worker']),
'conn.c':(50,['conn_str','conn_hist','conn_xfer','conn_race','client','addr','faults','shutdown','relay_out','relay_in']),
'proxy_conn.c':(60,['relay_out','relay_in','tcp','parse','session','tcp_addr','addr','faults','shutdown','proxy_hist','framing']),
'proxy.c':(60,['auth_gate','response','policy','nonce','addr','proxy_hist','faults','conf_own','shutdown']),'proxy_client.c':(12,['client'])}
def ops(line):
    out=[]
    if re.match(r'\s*(/?\*|#|//)',line) or re.search(r'_log\(|log_printf|printf|"',line): return out
    code=line
    def sub(pat,rep,name):
        for m in re.finditer(pat,code):
            r=rep(m) if callable(rep) else rep
            out.append((name,code[:m.start()]+r+code[m.end():]))
    sub(r' == ',' != ','eq'); sub(r' != ',' == ','ne')
    sub(r' < ',' <= ','lt'); sub(r' <= ',' < ','le'); sub(r' > ',' >= ','gt'); sub(r' >= ',' > ','ge')
    sub(r' && ',' || ','and'); sub(r' \|\| ',' && ','or')
    sub(r' \+ ',' - ','add'); sub(r'(?<=\w) - ',' + ','sub')
    sub(r'(?<![\w.])(\d+)(?![\w.])',lambda m:str(int(m.group(1))+1),'inc')
    sub(r'\breturn ret;','return 0;','ret0')
    if re.match(r'\s*(if|while) \(',line): sub(r'\b(if|while) \((?=.*\)\s*\{?\s*$)',lambda m:m.group(0)+'!','neg') if False else None
    s=line.strip()
    if s.endswith(';') and not s.startswith(('return','break','goto','case','default','static','extern','struct','int ','char ','size_t','uint','ssize_t','const','}','enum','unsigned','FILE','void')) and ('=' in s or '(' in s) and s.count('(')==s.count(')'):
        ind=line[:len(line)-len(line.lstrip())]
        out.append(('del',ind+';'))
    if s in('continue;','break;','else') : pass
    if re.match(r'goto \w+;',s): out.append(('del',line.replace(s,';')))
    return out
def sh(c,t=120,cwd=W):
    p=subprocess.Popen(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return None,''
def main(seed,files,out):
    random.seed(seed)
    shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True,ignore=shutil.ignore_patterns('_build'))
    rc,o=sh('cmake -S . -B _mb -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_SHARED_LIBS=ON -DOPENELP_BUNDLE_PCRE=OFF -DOPENELP_USE_OPENSSL=OFF -DCMAKE_C_FLAGS=-Wno-error && ninja -C _mb && ctest --test-dir _mb --timeout 30')
    assert rc==0,o[-500:]
    base=set(re.findall(r'Test +#\d+: (\S+) .*Passed',o))
    for f in files:
        n,hs=MAP[f]
        p=W+'/src/'+f; src=open('/repo/src/'+f).read(); lines=src.split('\n')
        c=[]
        fn_depth=False; win=0
        for i,l in enumerate(lines):
            if re.match(r'#\s*ifdef _WIN32',l): win=1
            elif win and re.match(r'#\s*(else|endif)',l): win=0
            if win: continue
            if not l.startswith(('\t',' ')): continue
            for name,nl in ops(l): c.append((i,name,nl))
        random.shuffle(c)
        done=0; perline={}
        for i,name,nl in c:
            if done>=n: break
            if perline.get(i,0)>=1: continue
            m=list(lines); m[i]=nl
            open(p,'w').write('\n'.join(m))
            rc,o=sh('ninja -C _mb')
            if rc!=0: continue
            rc,o=sh('ctest --test-dir _mb --timeout 20',200)
            if not base<=set(re.findall(r'Test +#\d+: (\S+) .*Passed',o)): continue
            perline[i]=1; done+=1
            res='SURVIVED'; det=''
            for h in hs:
                r,o=sh('VP_REPO=%s timeout 420 python3 run.py harness %s quick'%(W,h),430,'/tmp/vm')
                mm=re.findall(r'"status": "(\w+)"',o)
                st=mm[-1] if mm else 'noanswer'
                if st=='violated':
                    res='caught'; d=re.findall(r'"desc": "([^"]*)"',o); det=h+': '+(d[0] if d else ''); break
                if st!='holds':
                    q=re.findall(r'"reason": "([^"]*)"',o); det+=' %s=%s(%s)'%(h,st,(q[-1] if q else '')[:100])
            with open(out,'a') as g: g.write('%s %s:%d %s | %s -> %s | %s\n'%(res,f,i+1,name,lines[i].strip(),nl.strip(),det))
        shutil.copy('/repo/src/'+f,p)
main(int(sys.argv[1]),sys.argv[3:] or list(MAP),sys.argv[2])
