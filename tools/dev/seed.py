'''seed.py FILE...: plant the bugs described in FILE (python, list BUGS); keep those confirmed.'''
import sys, os, json, subprocess, shutil, textwrap, concurrent.futures as cf
OUT='/verif/seeded'
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PIP_NO_INDEX='1', LC_ALL='C.UTF-8', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
PY='/opt/venv/bin/python'
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def originals():
    # lines added by own commits
    r=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True)
    return r.stdout.split()[0]
def blame(path):
    out=subprocess.run(['git','-C','/repo','blame','-s','-l',path],stdout=subprocess.PIPE,text=True).stdout
    return out.splitlines()
def tests(cwd):
    x=os.path.join(cwd,'.junit.xml')
    sh([PY,'-m','pytest','-q','-p','no:cacheprovider','-p','pytest_timeout','--timeout=300','--continue-on-collection-errors','--disable-warnings','-o','python_files=*test.py','-o','junit_family=xunit2','--junitxml='+x,'segeval'],cwd)
    import xml.etree.ElementTree as ET
    ok=set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if not [y for y in c if y.tag in('failure','error','skipped')]:
            ok.add(c.get('classname')+'::'+c.get('name'))
    return [t for t in base if t not in ok]
def one(b):
    w='/tmp/seedwork/'+b['id']
    if os.path.isdir(w): shutil.rmtree(w)
    shutil.copytree('/repo',w,symlinks=True)
    d='/tmp/seedwork/'+b['id']+'.out'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    try:
        with open(d+'/demo.sh','w') as f:
            f.write('#!/bin/bash\n# run with cwd = the library\'s checkout\nexport PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(d+'/demo.py','w') as f:
            f.write(textwrap.dedent(b['demo']).strip()+'\n')
        os.chmod(d+'/demo.sh',0o755)
        r=sh(['bash',d+'/demo.sh'],w,timeout=200)
        if r.returncode!=0: return b['id'],'DEMO FAILS UNCHANGED: '+r.stdout[-300:]
        for f,old,new in b['edits']:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(old)!=1: return b['id'],'EDIT %s matches %d'%(f,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=sh(['git','diff'],w).stdout
        open(d+'/patch.diff','w').write(diff)
        r=sh(['bash',d+'/demo.sh'],w,timeout=200)
        if r.returncode==0: return b['id'],'DEMO PASSES WITH PATCH'
        why=r.stdout.strip().splitlines()[-1:] 
        bad=tests(w)
        if bad: return b['id'],'TESTS FAIL: %d %s'%(len(bad),bad[:2])
        # touches an original line?
        root=originals_; 
        import re
        touched=0; cur=None
        for f,old,new in b['edits']:
            bl=blame(f); src=[l for l in open('/repo/'+f).read().splitlines()]
        fn=None; ln=0
        for l in diff.splitlines():
            if l.startswith('--- a/'): fn=l[6:]; bl=blame(fn)
            m=re.match(r'@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if fn and l.startswith('-') and not l.startswith('---'):
                c=bl[ln-1].split()[0].lstrip('^')
                if root.startswith(c): touched+=1
                ln+=1
            elif fn and l.startswith(' '): ln+=1
        if not touched: return b['id'],'NO ORIGINAL LINE TOUCHED'
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        o=os.path.join(OUT,b['id'])
        if os.path.isdir(o): shutil.rmtree(o)
        shutil.copytree(d,o)
        return b['id'],'KEPT (%s)'%why
    finally:
        shutil.rmtree(w,ignore_errors=True); shutil.rmtree(d,ignore_errors=True)
originals_=originals()
if __name__=='__main__':
    bugs=[]
    for f in sys.argv[1:]:
        g={}; exec(open(f).read(),g); bugs+=g['BUGS']
    with cf.ThreadPoolExecutor(7) as ex:
        for i,m in ex.map(one,bugs): print(i,m,flush=True)
