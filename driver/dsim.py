"""One simulator process: send scenarios, get results. A scenario is a dict of strings; 'cwd' and 'files' are handled here."""
import json, os, shutil, subprocess, tempfile, threading, select, time
class HarnessError(Exception): pass
class Sim:
    def __init__(self, build, nranks=6, scratch=None):
        self.build=build; self.nranks=nranks
        self.root=tempfile.mkdtemp(prefix='dsim.',dir=scratch or os.environ.get('TMPDIR','/tmp'))
        self.p=None; self.n=0
    def start(self):
        # every worker leads its own process group, so that close() ends the forked run as well
        self.err=open(os.path.join(self.root,'stderr'),'w')
        self.p=subprocess.Popen([os.path.join(self.build,'dsim'),self.build,str(self.nranks)],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=self.err,text=True,start_new_session=True)
        l=self.p.stdout.readline()
        if l.strip()!='READY': raise HarnessError('simulator did not start: '+open(os.path.join(self.root,'stderr')).read()[-500:])
    def run(self,sc,keep=False):
        """sc: scenario; sc['files'] = {name: text} written to a fresh directory that becomes the simulated machine's disk"""
        if self.p is None: self.start()
        self.n+=1; cwd=sc.get('cwd')
        own=cwd is None
        if own:
            cwd=os.path.join(self.root,'disk'); shutil.rmtree(cwd,ignore_errors=True); os.makedirs(cwd)
        for f,t in (sc.get('files') or {}).items():
            with open(os.path.join(cwd,f),'w') as h: h.write(t)
        s={k:v for k,v in sc.items() if k!='files' and not k.startswith('_')}; s['cwd']=cwd
        try:
            self.p.stdin.write(''.join('%s=%s\n'%(k,v) for k,v in s.items())+'RUN\n'); self.p.stdin.flush()
            l=self.p.stdout.readline()
        except BrokenPipeError: l=''
        if not l: raise HarnessError('simulator ended: '+open(os.path.join(self.root,'stderr')).read()[-500:])
        r=json.loads(l)
        if r.get('harness_error'): raise HarnessError(r.get('log','')[-600:])
        r['_cwd']=cwd
        if own and not keep: shutil.rmtree(cwd,ignore_errors=True)
        return r
    def close(self):
        if self.p is not None:
            try: os.killpg(self.p.pid,9)
            except ProcessLookupError: pass
            self.p.wait(); self.p=None
        shutil.rmtree(self.root,ignore_errors=True)
