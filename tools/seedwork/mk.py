# mk.py: seeds described in python modules: SEEDS = [dict(id,prop,pkg,kit,edits=[(file,old,new)],demo,needs,breaks)]
import sys,os,subprocess,json,shutil,importlib.util
def build(s):
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.remove(d+'/'+f)
    files={}
    for f,old,new in s['edits']:
        t=files.get(f) or open('/repo/'+f).read()
        assert t.count(old)==1,(s['id'],f,t.count(old),old)
        files[f]=t.replace(old,new)
    for f,t in files.items():
        if os.path.exists('/repo/'+f):
            open('/tmp/seedwork/new.go','w').write(t)
            subprocess.run(['gofmt','-l','/tmp/seedwork/new.go'])
            open('/repo/'+f,'w').write(t)
    p=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(p)
    if s.get('kit')=='octo':
        k=open('/tmp/seedwork/kit_test.go').read().replace('package pki_test','package main').replace('var now = time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC)','var now = time.Now().UTC().Truncate(time.Second)')
        k=k.replace('func (c *ca) dir() string { return "rsync://repo.example/r/" + c.name + "/" }','''func (c *ca) dir() string {
	host := c.w.hosts[c.name]
	if host == "" {
		host = "repo.example"
	}
	return "rsync://" + host + "/r/" + c.name + "/"
}''').replace('type world struct {','type world struct {\n\thosts map[string]string').replace('&world{files:','&world{hosts: map[string]string{}, files:')
        k=k.replace('import (','import (\n\t"os"\n\t"syscall"\n\t"encoding/json"\n\t"net/http/httptest"\n\t"path/filepath"\n\t"github.com/cloudflare/gortr/prefixfile"')+open('/tmp/seedwork/octokit.txt').read()
        open(d+'/kit_test.go','w').write(k)
        subprocess.run(['gofmt','-w',d+'/kit_test.go'])
    elif s.get('kit')=='local':
        k=open('/tmp/seedwork/kit_test.go').read().replace('package pki_test','package main').replace('time.Date(2024, 6','time.Date(%d, 6'%s.get('year',2024))
        k=k.replace('import (','import (\n\t"os"\n\t"encoding/json"\n\t"path/filepath"')+open('/tmp/seedwork/localkit.txt').read()
        open(d+'/kit_test.go','w').write(k)
        subprocess.run(['gofmt','-w',d+'/kit_test.go'])
    elif s.get('kit'): shutil.copy('/tmp/seedwork/kit_test.go',d+'/kit_test.go')
    for n,t in s.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    if 'demo' in s: open(d+'/demo_test.go','w').write(s['demo'])
    sh=s.get('sh') or open('/tmp/seedwork/demo.sh').read().replace('@PKG@',s['pkg'])
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
for m in sys.argv[1:]:
    spec=importlib.util.spec_from_file_location('m',m); mod=importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    for s in mod.SEEDS: build(s); print(s['id'])
