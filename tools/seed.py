#!/usr/bin/env python3
"""Adds a planted bug: seed.py <spec.py>. The spec defines id, prop, needs, breaks,
edits [(file, old, new)], demo (C++ text), kind ('storage', 'core' or 'all').
The change is tried on a scratch copy of /repo: demo passes without, fails with."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.join(V, 'tools', 'seedlib')
SRCS = {
    'storage': 'src/hzip_storage src/hzip_core/blob src/hzip_core/utils',
    'core': 'src/hzip_core/blob src/hzip_core/utils src/hzip_core/kernel src/hzip_core/models/first_order_context.cpp',
    'runtime': 'src/hzip_core/runtime src/hzip_core/utils',
    'all': 'src -not -path src/main.cpp',
}
FLAGS = {'all': '-O1 -DHZIP_ENABLE_OPENCL -DCL_HPP_ENABLE_EXCEPTIONS -DCL_HPP_TARGET_OPENCL_VERSION=300'}


def sh(cmd, cwd, t=400):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(V, 'seeded', ns['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    kind = ns.get('kind', 'storage')
    text = open(os.path.join(L, 'demo.sh')).read().replace('@SRCS@', ns.get('srcs', SRCS[kind])).replace('@FLAGS@', FLAGS.get(kind, ''))
    open(os.path.join(d, 'demo.sh'), 'w').write(text)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(ns['demo'])
    for x in ('rainman', 'bitio'):
        shutil.copytree(os.path.join(V, 'shims', x), os.path.join(d, x))
    for x in ns.get('files', []):
        shutil.copy(os.path.join(V, x), d)
    if kind == 'all':
        for x in ('fake_opencl.cpp', 'fake_opencl.h', 'common.h'):
            shutil.copy(os.path.join(V, 'drivers', x), d)
    c = '/tmp/seedrepo'
    if not os.path.isdir(c):
        subprocess.check_call(['git', 'clone', '-q', '/repo', c])
    subprocess.check_call(['git', '-C', c, 'fetch', '-q', 'origin'])
    subprocess.check_call(['git', '-C', c, 'reset', '-q', '--hard', 'origin/HEAD'])
    r0 = sh(['bash', os.path.join(d, 'demo.sh')], c)
    print('unchanged:', r0[0], r0[1] if r0[0] else '')
    for f, old, new in ns['edits']:
        p = os.path.join(c, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', c, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r1 = sh(['bash', os.path.join(d, 'demo.sh')], c)
    print('changed:', r1[0], r1[1])
    if r0[0] != 0 or r1[0] in (0, 3):
        print('NOT KEPT')
        shutil.rmtree(d)
        return 1
    # do the changed lines come from the original repository?
    gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    orig = ''.join(subprocess.run(['git', '-C', c, 'show', f'03949f8:{f}'], capture_output=True, text=True).stdout for f, _, _ in ns['edits']).splitlines()
    mine = [l for l in gone if l not in orig]
    if gone and mine:
        print('WARNING: not original lines:', mine)
    if len(sys.argv) > 2:
        e = dict(os.environ, VP_REPO=c, VP_CACHE='/tmp/vpcache')
        for p in ([ns['prop']] if sys.argv[2] == '-' else sys.argv[2:]):
            r = subprocess.run(['./check', p], cwd=V, env=e, capture_output=True, text=True)
            print(p, 'exit', r.returncode, (r.stdout + r.stderr)[-700:])
    return 0


sys.exit(main())
