"""C01-C07: archive histories, run on the real code and compared with specs/Archive."""
import json, os, random
from .lib import *
from . import gen_archive as G

# histories per shard: (random, chosen by TLC from ArchiveModel)
SIZE = {'C01': (260, 160), 'C02': (150, 80), 'C03': (260, 160), 'C04': (260, 160), 'C05': (170, 80), 'C06': (260, 160),
        'C07': (260, 160)}
FLAVOUR = {
    'C01': dict(bad=8, reopen=5), 'C02': dict(bad=10, reopen=0), 'C03': dict(bad=10, reopen=6), 'C04': dict(bad=6, reopen=7, names=('a', 'b')),
    'C05': dict(bad=40, reopen=4), 'C06': dict(bad=15, reopen=5, names=('a', 'b', 'ab')), 'C07': dict(bad=4, reopen=6),
}
WEIGHTS = {
    'C04': dict(add=10, create=24, write=9, entry=6, remove=18, install=9, uninstall=8, uninstallid=12, read=3, readblob=3, readname=4, inject=3, snap=1),
    'C06': dict(create=18, entry=12, remove=20, install=12, uninstall=10, exists=22, list=22, write=4, read=4, snap=2),
    'C07': dict(create=28, write=8, entry=8, remove=28, install=12, uninstall=6, uninstallid=8, add=4, read=1),
}


def chosen_by_tlc(num, seed):
    """Histories of ArchiveModel as driver scripts."""
    r = tlc('ArchiveModel', cfg='ArchiveSim.cfg', args=('-simulate', f'num={num}', '-depth', '31', '-seed', str(seed)),
            workers=1, heap='2g')
    if not r.ok:
        raise CheckError('simulation of ArchiveModel failed\n' + r.out[-3000:])
    seen, out = set(), []
    for m in re.findall(r'(?m)"HIST (.*)"$', r.out):
        h = json.loads(m.replace('\\"', '"').replace('\\\\', '\\'))
        key = json.dumps(h[:-1])
        if key in seen:
            continue
        seen.add(key)
        out.append(h)
    return out, r


def to_script(h, rng):
    out, ref = ['O'], {}
    px = lambda p: bytes(p).hex()
    for e in h:
        op = e['op']
        if op == 'A':
            ref[e['id']] = f"m{e['id']}"
            out.append(f"{rng.choice('AJ')} m{e['id']} 1 {e['n']} {rng.randrange(1 << 30)}")
        elif op == 'P':
            # the reference becomes known to the driver when the call succeeds
            ref[e['id']] = px(e['p'])
            out.append(f"P {px(e['p'])} 1 {e['n']} {rng.randrange(1 << 30)}")
        elif op == 'C':
            out.append(f"C {px(e['p'])} 1 {e['n']} 0 {rng.randrange(1 << 30)} {ref.get(e['m'], '0xbad')}")
        elif op == 'D':
            out.append(f"D {px(e['p'])}")
        elif op == 'U':
            out.append(f"U {px(e['p'])}")
        elif op == 'u':
            out.append(f"u {ref.get(e['m'], '0x99')}")
        elif op == 'O':
            out += ['Q', rng.choice('OOF')]
    return out + ['S', 'Q']


def run(prop):
    c = Check(prop, 'model_checking')
    c.assumptions += [
        'rainman/bitio submodules are absent; stand-ins in shims/ with the same interface are linked',
        'blob and coding-state contents above 40 bytes are compared by 128-bit digests',
        'processes are forked, not executed anew, when a history is continued in another process']
    exe = build(['archive'])['archive']
    sd = scratch()
    # the stored and logical states themselves
    c.model('ArchiveModel', consts={'Depth': 6 if THOROUGH else 5})
    nr, ns = SIZE[prop]
    if THOROUGH:
        nr, ns = nr * 12, ns * 8

    def one(s):
        rng = random.Random(f'{SEED}-{prop}-{s}')
        hist, r = chosen_by_tlc(ns, SEED * 100 + s)
        scripts = [to_script(h, rng) for h in hist]
        for k in range(nr):
            f = dict(FLAVOUR[prop])
            f['ops'] = rng.choice((15, 30, 45, 45, 120 if k % 7 == 0 else 45))
            if k % 3 == 0:
                f['weights'] = None
            else:
                f['weights'] = WEIGHTS.get(prop)
            if k % 5 == 0:
                f['names'] = ('a', 'b')
            scripts.append(G.mixed(rng, **f))
        script, out, wd = (os.path.join(sd, f'{n}-{s}') for n in ('script', 'trace', 'files'))
        out += '.ndjson'
        os.makedirs(wd, exist_ok=True)
        if prop == 'C02':
            hs = []
            for x in scripts:
                body = [l for l in x if l not in ('O', 'Q', 'F')]
                base = ['O'] + body + ['Q']
                hs.append(('base', base))
                hs.append(('var', G.with_reopens(rng, base, rng.choice((8, 25, 60)))))
            for x in scripts:
                # against itself, also where the history is not the specified one any more
                hs.append(('one', G.with_snapshots(rng, ['O'] + [l for l in x if l not in ('O', 'Q', 'F', 'S')] + ['S', 'Q'], rng.choice((4, 8, 25)))))
        elif prop == 'C05':
            write(script, [('one', x) for x in scripts])
            run_driver(exe, [script, out, wd], timeout=800)
            failed, h = {}, -1
            for l in open(out):
                e = json.loads(l)
                if e['k'] == 'new':
                    h = e['h']
                elif e.get('r') in ('err', 'exc'):
                    failed.setdefault(h, set()).add(e['x'])
            hs = []
            for h, x in enumerate(scripts):
                bad = failed.get(h, set())
                hs.append(('base', [l for k, l in enumerate(x, 1) if k not in bad]))
                hs.append(('var', x))
        else:
            hs = [('one', x) for x in scripts]
        write(script, hs)
        run_driver(exe, [script, out, wd], timeout=800)
        return out, len(hs), r.states

    res = par(one, range(NCPU))
    c.traces('ArchiveTrace', [o for o, _, _ in res], count=sum(n for _, n, _ in res), heap='3g')
    if prop == 'C02':
        c.traces('ReopenTrace', [o for o, _, _ in res], count=sum(n for _, n, _ in res) // 3, heap='3g')
    c.add(simulated_states=sum(x for _, _, x in res))
    return c.finish()


def write(path, hs):
    with open(path, 'w') as f:
        for role, lines in hs:
            f.write('H ' + role + '\n' + '\n'.join(lines) + '\n')
