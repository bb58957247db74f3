#!/usr/bin/env python3
# plant.py < bundle : bundle = "##ID PROP PKG", "needs: ...", "breaks: ...", "@@ path" blocks (OLD == NEW), "$$", demo Go test
import sys, re, subprocess, os
R='/tmp/seedrepo'
for b in re.split(r'^##', sys.stdin.read(), flags=re.M)[1:]:
    head, rest = b.split('\n',1)
    id, prop, pkg = head.split()
    edit, demo = rest.split('\n$$\n')
    needs = re.search(r'^needs: (.*)$', edit, re.M).group(1)
    breaks = re.search(r'^breaks: (.*)$', edit, re.M).group(1)
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    for blk in re.split(r'^@@ ', edit, flags=re.M)[1:]:
        path, t = blk.split('\n',1)
        old, new = t.split('\n==\n') if '\n==\n' in t else (t[:-4], '')
        new = new.rstrip('\n')
        p = os.path.join(R,path); s = open(p).read()
        assert s.count(old)==1, (id, path, s.count(old), old)
        open(p,'w').write(s.replace(old,new))
    open('/tmp/demo_test.go','w').write(demo)
    subprocess.check_call([os.path.dirname(os.path.abspath(__file__))+'/mkseed.sh', id, prop, pkg, needs, breaks])
    print('planted', id)
