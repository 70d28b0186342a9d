"""seed(id, prop, edits, needs, breaks, demo): development aid, writes /verif/seeded/<id> from a scratch copy of /repo."""
import os, subprocess, tempfile, json, shutil
PRE = '''#!/bin/bash
# run in /repo after the build; exits 0 when the behaviour is right
export TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/db"
export COINDB="$d/db"
go build -o "$d/" ./cmd/coin ./cmd/csv2coin ./cmd/gc2coin ./cmd/gen2coin ./cmd/ofx2coin || exit 98
same() { # same WANT GOT
  if [ "$1" != "$2" ]; then printf 'want:\\n%s\\ngot:\\n%s\\n' "$1" "$2"; exit 1; fi
}
'''
def seed(id, prop, edits, needs, breaks, demo, files=None):
    w = tempfile.mkdtemp(prefix='/tmp/mk-')
    try:
        subprocess.check_call(['cp','-a','/repo/.',w])
        subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
        for fn, old, new in edits:
            p = os.path.join(w, fn); s = open(p).read()
            assert s.count(old) == 1, (id, fn, s.count(old), old)
            open(p,'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git','-C',w,'diff'], text=True)
        # removed lines must be original ones
        base = subprocess.check_output(['git','-C',w,'rev-list','--max-parents=0','HEAD'], text=True).split()[0]
        import re
        orig = 0
        for fn in {e[0] for e in edits}:
            bl = subprocess.check_output(['git','-C',w,'blame','-s','--root','HEAD','--',fn], text=True).splitlines()
            ln = 0
            cur = None
            for l in subprocess.check_output(['git','-C',w,'diff','-U0','--',fn], text=True).splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m: ln = int(m.group(1)); continue
                if l.startswith('-') and not l.startswith('---'):
                    if base.startswith(bl[ln-1].split()[0].lstrip('^')): orig += 1
                    else: print(id, 'NOT ORIGINAL:', l)
                    ln += 1
        if not orig: print(id, 'no original line changed')
        d = '/verif/seeded/'+id
        os.makedirs(d, exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(PRE+demo); os.chmod(d+'/demo.sh',0o755)
        for n, c in (files or {}).items(): open(d+'/'+n,'w').write(c)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    finally:
        shutil.rmtree(w)
