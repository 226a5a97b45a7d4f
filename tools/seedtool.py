#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
  seedtool.py make   FILE...      FILE: a spec in the format of tools/seeds/*.py; writes /verif/seeded/<id>/
  seedtool.py verify ID...        in a scratch copy of /repo: builds, runs the stable tests and the demonstration with the patch,
                                  and the demonstration without it
  seedtool.py catch  ID... [-- CHECK...]   runs the property's check (or the given ones) with the patch applied
The scratch copy is bind-mounted over /repo in a private mount namespace, so /repo itself is never touched."""
import sys, os, subprocess, json, shutil, tempfile, difflib
SD = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(SD, s['id']); os.makedirs(d, exist_ok=True)
        out = ''
        files = {}
        for f, old, new in s['edits']:
            t = files.get(f) or open('/repo/' + f, encoding='utf8', errors='surrogateescape').read()
            if t.count(old) != 1: sys.exit('%s: %s: text found %d times: %r' % (s['id'], f, t.count(old), old))
            files[f] = t.replace(old, new)
        for f, t in files.items():
            a = open('/repo/' + f, encoding='utf8', errors='surrogateescape').read()
            out += ''.join(difflib.unified_diff(a.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        open(d + '/patch.diff', 'w', encoding='utf8', errors='surrogateescape').write(out)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        for n, t in s['files'].items(): open(os.path.join(d, n), 'w').write(t)
        open(d + '/demo.sh', 'w').write(s['demo']); os.chmod(d + '/demo.sh', 0o755)
        r = sh('git -C /repo apply --check %s/patch.diff' % d)
        print(s['id'], 'ok' if r.returncode == 0 else r.stdout)
def scratch():
    t = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); sh('cp -a /repo %s/repo' % t); return t
def ns(t, cmd, **k):
    return sh('unshare -Urm bash -c \'mount --bind %s/repo /repo && cd /repo && %s\'' % (t, cmd), **k)
def verify(ids):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok = True
    for i in ids:
        t = scratch(); d = os.path.join(SD, i); res = []
        dd = t + '/demo'; shutil.copytree(d, dd)
        for x in ('patch.diff', 'meta.json'): os.unlink(dd + '/' + x)
        try:
            ns(t, 'bash /opt/vp/build.sh >/dev/null 2>&1')
            r0 = ns(t, 'timeout 300 bash %s/demo.sh' % dd)
            res.append('demo clean rc %d' % r0.returncode)
            r = ns(t, 'git apply %s/patch.diff' % d)
            if r.returncode: res.append('APPLY FAILS ' + r.stdout)
            r = ns(t, 'bash /opt/vp/test.sh %s/res.json' % t)
            j = json.load(open(t + '/res.json'))
            bad = [x for x in base if x not in j['passed']]
            res.append('tests %d/%d%s' % (len(base) - len(bad), len(base), ' FAILING ' + ' '.join(bad) if bad else ''))
            r1 = ns(t, 'timeout 300 bash %s/demo.sh' % dd)
            res.append('demo patched rc %d' % r1.returncode)
            good = r0.returncode == 0 and not bad and r1.returncode != 0
            if not good: res.append('\n--clean--\n' + r0.stdout[-1500:] + '\n--patched--\n' + r1.stdout[-1500:]); ok = False
            print(i, 'GOOD' if good else 'BAD', '; '.join(res), flush=True)
        finally:
            shutil.rmtree(t)
    return ok
def catch(ids, checks):
    for i in ids:
        t = scratch(); d = os.path.join(SD, i)
        try:
            ns(t, 'git apply %s/patch.diff' % d)
            prop = json.load(open(d + '/meta.json'))['property']
            for c in (checks or [prop]):
                r = ns(t, 'cd /verif && timeout 900 ./check %s' % c)
                l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'failure in' in x or x.startswith(c + ':') or 'failed' in x]
                print(i, c, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % c in r.stdout else 'quiet rc %d' % r.returncode, ' | '.join(l)[:400], flush=True)
        finally:
            shutil.rmtree(t)
if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'make':
        for p in a: make(p)
    elif sys.argv[1] == 'verify': sys.exit(0 if verify(a) else 1)
    elif sys.argv[1] == 'catch':
        k = a.index('--') if '--' in a else len(a)
        catch(a[:k], a[k+1:])
