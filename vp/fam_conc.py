"""C08-C12: concurrent programs run under chosen schedules of the real code."""
import json
from .lib import *


def annotate(path):
    """Adds to each call line the lock that the call returns (get only)."""
    out, pend = [], {}
    for l in open(path):
        e = json.loads(l)
        if e['k'] == 'new':
            pend = {}
        elif e['k'] == 'call':
            e.setdefault('l', -1)
            pend[e['t']] = e
        elif e['k'] == 'ret' and e['t'] in pend:
            pend.pop(e['t'])['l'] = e.get('l', -1)
        out.append(e)
    with open(path, 'w') as f:
        for e in out:
            f.write(json.dumps(e, separators=(',', ':')) + '\n')


# property: (specification, cfg, [(kind, programs, schedules each)]); one schedule each: the drivers of the server
PLAN = {
    'C08': [('ArchiveLinearTrace', 'LinearTrace.cfg', [('archive', 200, 60)])],
    'C09': [('OpenTrace', 'Trace.cfg', [('open', 200, 80), ('provide', 160, 80), ('process', 16, 60)])],
    'C10': [('SemaphoreTrace', 'Trace.cfg', [('sem', 480, 120)])],
    'C11': [('JobsTrace', 'Trace.cfg', [('jobs', 240, 80), ('heavyjobs', 24, 20)])],
    'C31': [('ShutdownTrace', 'ShutdownTrace.cfg', [('closing', 120, 60)]), ('ServerTrace', 'ServerTrace.cfg', [('stop', 1000, 1), ('term', 600, 1)])],
    'C12': [('CachesTrace', 'LinearTrace.cfg', [('cache', 240, 80)]), ('ProgramsTrace', 'LinearTrace.cfg', [('cl', 320, 100)])],
}
NOTES = {
    'C08': ['operations of one thread start after its previous one returned; at most three threads with three operations each per schedule'],
    'C09': ['opening by processes uses forked processes and real named semaphores; the schedule there is the kernel\'s',
            'a symbolic link to a file that does not exist yet is not used as a spelling'],
    'C10': [],
    'C11': ['the uncompressed codec, a block-sorting codec and codecs that refuse their input stand for all codecs'],
    'C31': ['while the server shuts down, each client works on an archive of its own',
            'as a process of its own the server is stopped by SIGTERM or SIGINT; the kernel chooses the schedule there, with delays at random places',
            'closing and shutting down do not overlap with the construction of the archive or of the server'],
    'C12': ['OpenCL is replaced by a stand-in that records which device a program was built for',
            'the cache set is not reconfigured while requests are running (nothing in the program does that)'],
}


def models(c):
    if c.prop == 'C08':
        c.model('LockedModel', consts=dict(T=3, Keys='{1}', MaxOps=2) if THOROUGH else dict(T=2, Keys='{1, 2}', MaxOps=3))
        c.model('ArchiveModel', consts={'Depth': 4})
    elif c.prop == 'C09':
        c.model('OpenModel', consts=dict(T=4, Rounds=2) if THOROUGH else {})
        c.model('OpenModel', cfg='OpenLive.cfg', consts=dict(T=3) if THOROUGH else {})
    elif c.prop == 'C10':
        c.model('SemaphoreModel', consts=dict(T=4, MaxInit=2) if THOROUGH else {}, heap='16g')
        c.model('SemaphoreModel', cfg='SemaphoreLive.cfg', consts=dict(T=3) if THOROUGH else {}, heap='16g')
    elif c.prop == 'C11':
        c.model('JobsModel', consts={} if THOROUGH else dict(J=3, MaxSlots=2))
    elif c.prop == 'C12':
        c.model('ProgramsModel', consts=dict(Ops=8) if THOROUGH else dict(Ops=5))
    elif c.prop == 'C31':
        c.model('ShutdownModel', consts=dict(S=3, Ops=2) if THOROUGH else {}, heap='16g' if THOROUGH else '6g', timeout=3000)
        c.model('ShutdownModel', cfg='ShutdownLive.cfg', consts=dict(A=2) if THOROUGH else {}, timeout=3000)


def run(prop):
    c = Check(prop, 'model_checking')
    c.assumptions += [
        'threads are interleaved at every synchronisation call and between basic blocks of the sources, on sequentially consistent memory',
        'systematic schedules have at most two preemptions at synchronisation calls; the others are random or priority-based'] + NOTES[prop]
    exe = build(['conc', 'net', 'proc'] if prop == 'C31' else ['conc'], tag='c', extra_flags=['-D_GLIBCXX_ASSERTIONS'],
                src_flags=['-fsanitize-coverage=trace-pc-guard', '-finstrument-functions-after-inlining'])
    models(c)
    sd = scratch()
    for module, cfg, kinds in PLAN[prop]:
        todo = []
        for kind, programs, schedules in kinds:
            if THOROUGH:
                programs, schedules = programs * 4, schedules * 3 if schedules > 1 else 1
            todo += [(kind, programs, schedules, s) for s in range(NCPU)]

        def one(x):
            kind, programs, schedules, s = x
            wd = os.path.join(sd, f'{kind}-{s}')
            os.makedirs(wd, exist_ok=True)
            out = os.path.join(sd, f'{kind}-{s}.ndjson')
            run_driver(exe['proc' if kind == 'term' else 'net' if schedules == 1 else 'conc'], [kind, SEED, programs] + ([schedules] if schedules > 1 else []) + [s, NCPU, out, wd], timeout=3000 if THOROUGH else 600)
            if kind == 'cl':
                annotate(out)
            m = re.findall(r'"runs":(\d+)', open(out).read()[-400:])
            return out, int(m[-1]) if m else 0

        res = par(one, todo)
        c.traces(module, [o for o, _ in res], cfg=cfg, timeout=3000 if THOROUGH else 800,
                 count=sum(n for _, n in res))
    return c.finish()
