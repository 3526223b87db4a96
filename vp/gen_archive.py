"""Random histories of archive operations, as scripts for drivers/archive.cpp.
Only the choice of operations is made here; what they must do is said by
specs/Archive.tla."""
import random

SIZES = [0, 0, 1, 5, 8, 9, 10, 17, 18, 20, 40, 100]


def hx(p):
    return p.encode('latin1').hex() or '-'


class Gen:
    def __init__(self, rng, ops=40, bad=15, reopen=6, names=('a', 'b', 'c', 'dd'), big=2, weights=None):
        self.weights = weights or self.DEFAULT
        self.r, self.nops, self.bad, self.reopen, self.names, self.big = rng, ops, bad, reopen, names, big
        self.n = 0
        self.lines = []
        self.files = {}    # likely present (paths as given)
        self.mnames = []
        self.states = []   # refs
        self.blobs = []    # refs of free-standing blobs
        self.used = set()

    def size(self):
        return self.r.choice((300, 1000, 5000)) if self.r.random() * 100 < self.big else self.r.choice(SIZES)

    def path(self):
        r = self.r
        p = '/' + '/'.join(r.choice(self.names) for _ in range(r.choice((1, 1, 2, 2, 3))))
        if r.random() < .08:
            p = p[:-1] + r.choice(('\xe4', '\xff\xfe', '.', '..', '\t', '\x01', 'n' * 40, 'x' * 300))
        x = r.random()
        if x < .08:
            p += '/'
        return p

    def badpath(self):
        return self.r.choice(['', 'a', 'a/b', '//a', '/a//b', '/', '/a/b//', 'a/', '/ ', '/a b', '/\x7f', '/a\\b', '/..', '/a/./b', '/*', '/a?'])

    def ref(self):
        return self.r.choice(self.states)

    def need_state(self):
        if not self.states or self.r.random() < .12:
            self.new_state()

    def new_state(self):
        self.n += 1
        m = f'm{self.n}'
        self.out(f'{self.r.choice("AAJ")} {m} {self.r.choice((1, 2, 3, 77))} {self.size()} {self.r.randrange(1 << 30)}')
        self.states.append(m)

    def out(self, l):
        self.lines.append(l)

    def anyfile(self):
        if self.files and self.r.random() < .8:
            p = self.r.choice(sorted(self.files))
            if self.r.random() < .1:
                p = p[:-1] if p.endswith('/') else p + '/'
            return p
        return self.path()

    def anyname(self):
        if self.mnames and self.r.random() < .8:
            return self.r.choice(self.mnames)
        return self.path()

    def anyblob(self):
        c = []
        for p, k in self.files.items():
            c += [f'{hx(p)}#{j}' for j in range(k)]
        c += self.blobs
        if c and self.r.random() < .9:
            return self.r.choice(c)
        return self.r.choice(('0x1234', 'b99'))

    DEFAULT = dict(create=26, write=6, entry=5, remove=15, install=8, uninstall=4, uninstallid=5, add=2, read=8, readentry=2,
                   readblob=4, readname=4, inject=2, exists=6, list=5, snap=2)

    def op(self):
        r, w = self.r, self.weights
        kind = r.choices(list(w), weights=list(w.values()))[0]
        bad = r.random() * 100 < self.bad
        if kind == 'add':
            self.new_state()
        elif kind == 'create':
            self.need_state()
            p = self.badpath() if bad and r.random() < .5 else self.path()
            k = r.choice((0, 1, 1, 1, 2, 2, 3))
            m = self.ref()
            bl = []
            for _ in range(k):
                if r.random() < .3:
                    m = self.ref()
                mm = '0xbad' if bad and r.random() < .3 else m
                bl.append(f'{self.size()} {r.choice(SIZES[:9])} {r.randrange(1 << 30)} {mm}')
            self.out(f'C {hx(p)} {k} ' + ' '.join(bl))
            self.files.setdefault(p, k)
        elif kind == 'write':
            self.need_state()
            self.n += 1
            b = f'b{self.n}'
            m = '0xbad' if bad else self.ref()
            self.out(f'W {b} {self.size()} {r.choice(SIZES[:9])} {r.randrange(1 << 30)} {m}')
            if m != '0xbad':
                self.blobs.append(b)
        elif kind == 'entry':
            # an entry for blobs not referenced from anywhere else
            k = min(len(self.blobs), r.choice((0, 1, 1, 2)))
            bs = [self.blobs.pop(r.randrange(len(self.blobs))) for _ in range(k)]
            p = self.path()
            self.out(f'E {hx(p)} {k} ' + ' '.join(bs))
            self.files.setdefault(p, k)
        elif kind == 'remove':
            p = self.badpath() if bad and r.random() < .3 else self.anyfile()
            self.out(f'D {hx(p)}')
            self.files.pop(p, None)
        elif kind == 'install':
            p = self.badpath() if bad and r.random() < .5 else self.path()
            self.out(f'P {hx(p)} {r.choice((1, 2, 3))} {self.size()} {r.randrange(1 << 30)}')
            self.mnames.append(p)
            self.states.append(hx(p))
        elif kind == 'uninstall':
            p = self.badpath() if bad and r.random() < .3 else self.anyname()
            self.out(f'U {hx(p)}')
        elif kind == 'uninstallid':
            self.out(f'u {self.ref() if self.states and r.random() < .9 else "0x99"}')
        elif kind == 'read':
            self.out(f'R {hx(self.badpath() if bad and r.random() < .3 else self.anyfile())}')
        elif kind == 'readentry':
            self.out(f'e {hx(self.anyfile())}')
        elif kind == 'readblob':
            self.out(f'r {self.anyblob()}')
        elif kind == 'readname':
            self.out(f'M {hx(self.anyname())}')
        elif kind == 'inject':
            self.out(f'K {hx(self.anyname())}')
        elif kind == 'exists':
            p = r.choice((self.path, self.anyfile, self.anyname))()
            self.out(f'X {r.choice("ffm")} {hx(p)}')
        elif kind == 'list':
            p = r.choice(('/', self.path(), self.anyfile()))
            if r.random() < .5 and p.count('/') > 1:
                p = p[:p.rindex('/')] or '/'
            self.out(f'L {r.choice("ffm")} {hx(p)}')
        else:
            self.out('S')

    def script(self):
        self.out('O')
        while len(self.lines) < self.nops:
            self.op()
            if self.r.random() * 100 < self.reopen:
                self.cycle()
        self.out('S')
        self.out('Q')
        return self.lines

    def cycle(self):
        if self.r.random() < .5:
            self.out('S')
        self.out('Q')
        self.out(self.r.choice('OOF'))
        if self.r.random() < .5:
            self.out('S')


def mixed(rng, **kw):
    return Gen(rng, **kw).script()


def with_reopens(rng, base, pct=25):
    """The same history with close/open inserted at random places."""
    out, k = [], 0
    for l in base[:-2]:
        out.append(l)
        if l == 'O' or rng.random() * 100 < pct:
            out += (['S'] if rng.random() < .3 else []) + ['Q', rng.choice('OOF')]
            if rng.random() < .3:
                out.append('S')
    return out + base[-2:]


def with_snapshots(rng, base, pct):
    """Every reopening between two looks at everything."""
    out = []
    for l in base[:-2]:
        out.append(l)
        if l == 'O' or rng.random() * 100 < pct:
            out += ['S', 'Q', rng.choice('OOF'), 'S']
    return out + ['S', 'Q', 'O', 'S', 'Q']
