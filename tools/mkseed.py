"""helper: mkseed(id, prop, pkg, file, [(old,new)...], demo, needs, breaks)"""
import os, json, subprocess, tempfile
def mkseed(ID, prop, pkg, edits, demo, needs, breaks):
    d = '/verif/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    files = []
    for f, old, new in edits:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (ID, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
        files.append(f)
    subprocess.run('gofmt -l ' + ' '.join(files), shell=True, cwd='/repo')
    diff = subprocess.run(['git', 'diff'], cwd='/repo', capture_output=True, text=True).stdout
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd='/repo')
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo_test.go.txt', 'w').write(demo.lstrip('\n'))
    t = open('/verif/tools/demo.sh.tmpl').read().replace('/@PKG@/', '/' + (pkg + '/' if pkg else '')).replace('./@PKG@', './' + pkg)
    open(d + '/demo.sh', 'w').write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
