#!/usr/bin/env python3
"""shrink.py JOB.json : delta-debug the `src` of a described job, keeping its outcome signature."""
import json, subprocess, sys, tempfile, os
VH=os.environ.get('VH','/verif/harness/target/debug/vh')
def sig(job):
    with tempfile.NamedTemporaryFile('w',suffix='.json',delete=False) as f: json.dump(job,f)
    try:
        p=subprocess.run([VH,'runjob',f.name],capture_output=True,timeout=20)
        if p.returncode==77: return 'mem'
        if p.returncode!=0: return 'stack' if b'overflowed' in p.stderr else 'rc%d'%p.returncode
        o=p.stdout.decode('utf8','replace').split('\n')[0]
        return ' '.join(o.split(' ')[:2])
    except subprocess.TimeoutExpired: return 'hang'
    finally: os.unlink(f.name)
job=json.load(open(sys.argv[1]))
if 'input' in job: job=job['input']
target=sig(job)
def ok(**k):
    j=dict(job); j.update(k); return sig(j)==target
for k,v in (('attrs',[]),('files',None),('doctype',None),('embedded',True),('backend','Dr'),('strict',False),('safe','Secure'),('at','Tmp')):
    if job.get(k)!=v and ok(**{k:v}): job[k]=v
def dd(units,joiner,mk):
    n=2
    while len(units)>=1:
        sz=max(1,len(units)//n); changed=False; i=0
        while i<len(units):
            c=units[:i]+units[i+sz:]
            if mk(joiner.join(c)): units=c; changed=True
            else: i+=sz
        if not changed:
            if sz==1: break
            n=min(n*2,len(units))
    return units
def shrink_field(get,put):
    s=get()
    u=dd(s.split('\n'),'\n',put); s='\n'.join(u); 
    u=dd(list(s),'',put); return ''.join(u)
def mk(s): return ok(src=s)
job['src']=shrink_field(lambda: job['src'],mk)
if job.get('files'):
    for k in list(job['files']):
        f=dict(job['files']); del f[k]
        if ok(files=f): job['files']=f; continue
        def mkf(s,k=k):
            f=dict(job['files']); f[k]=s; return ok(files=f)
        f=dict(job['files']); f[k]=shrink_field(lambda: job['files'][k],mkf); job['files']=f
print(target); print(json.dumps(job))
