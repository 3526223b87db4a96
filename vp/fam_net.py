"""C13-C18: the server and its clients, inside one process, on a network and
under schedules that the driver chooses."""
from .lib import *

# property: [(specification, cfg, driver, [(kind, runs)])]
PLAN = {
    'C13': [('FramesTrace', 'Trace.cfg', 'frames', [('frames', 2400)]), ('ServerTrace', 'ServerTrace.cfg', 'net', [('life', 240)])],
    'C14': [('ServerTrace', 'ServerTrace.cfg', 'net', [('mask', 8000), ('hs', 800)]), ('ServerTrace', 'ServerTrace.cfg', 'proc', [('term', 64)])],
    'C15': [('ServerTrace', 'ServerTrace.cfg', 'net', [('life', 960)]), ('ServerTrace', 'ServerTrace.cfg', 'proc', [('term', 160)])],
    'C16': [('ServerTrace', 'ServerTrace.cfg', 'net', [('query', 960)]), ('StreamTrace', 'Trace.cfg', 'net', [('codec', 16), ('wide', 16)])],
    'C17': [('ServerTrace', 'ServerTrace.cfg', 'net', [('stream', 800)]), ('StreamTrace', 'Trace.cfg', 'net', [('codec', 64), ('wide', 8)])],
    'C18': [('ServerTrace', 'ServerTrace.cfg', 'net', [('state', 800)]), ('StreamTrace', 'Trace.cfg', 'net', [('codec', 64), ('wide', 8)])],
}
# property: [(specification, configuration, constants of the thorough tier)]
DEEP = {'Words': 3}
MODELS = {
    'C13': [('FramesModel', 'FramesModel.cfg', {'Ops': 3})],
    'C14': [('HandshakeModel', 'HandshakeModel.cfg', {}), ('SessionModel', 'SessionModel.cfg', DEEP)],
    'C15': [('AdmissionModel', 'AdmissionModel.cfg', {}), ('SessionModel', 'SessionModel.cfg', DEEP), ('SessionModel', 'SessionLive.cfg', {})],
    'C16': [('SessionModel', 'SessionModel.cfg', DEEP)],
    'C17': [('StreamModel', 'StreamModel.cfg', {'Blocks': 9})],
    'C18': [('StreamModel', 'StreamModel.cfg', {'Blocks': 9})],
}
NOTES = {
    'C13': ['SIGPIPE is ignored, as main.cpp does'],
    'C14': ['the token generator is only observed: no token was drawn twice and no bit is fixed'],
    'C15': ['as a process of its own the server runs under the schedules of the kernel, with delays at random places'],
    'C16': [],
    'C17': ['byte-level conversations use a small codec with blocks of eight bytes; whole requests use the real one'],
    'C18': ['coding states of the real codec are compared by digest',
            'the algorithm number of a coding state that a client writes is one that exists'],
}


def run(prop):
    c = Check(prop, 'model_checking')
    c.assumptions += [
        'the network is a stand-in inside the process: connections that deliver, stall, end or fail as the driver says',
        'threads are interleaved at every synchronisation and socket call and between basic blocks, on sequentially consistent memory',
    ] + NOTES[prop]
    exe = build(sorted({d for _, _, d, _ in PLAN[prop]}), tag='c', extra_flags=['-D_GLIBCXX_ASSERTIONS'],
                src_flags=['-fsanitize-coverage=trace-pc-guard', '-finstrument-functions-after-inlining'])
    for m, cfg, deep in MODELS[prop]:
        c.model(m, cfg, consts=deep if THOROUGH else None, heap='16g' if THOROUGH else '6g', timeout=3000 if THOROUGH else 600)
    sd = scratch()
    for module, cfg, driver, kinds in PLAN[prop]:
        todo = [(kind, runs * (6 if THOROUGH else 1), s) for kind, runs in kinds for s in range(NCPU)]

        def one(x):
            kind, runs, s = x
            wd = os.path.join(sd, f'{module}-{kind}-{s}')
            os.makedirs(wd, exist_ok=True)
            out = wd + '.ndjson'
            run_driver(exe[driver], [kind, SEED, runs, s, NCPU, out, wd], timeout=3000 if THOROUGH else 600)
            m = re.findall(r'"runs":(\d+)', open(out).read()[-400:])
            return out, int(m[-1]) if m else 0

        res = par(one, todo)
        c.traces(module, [o for o, _ in res], cfg=cfg, timeout=3000 if THOROUGH else 800, count=sum(n for _, n in res))
    return c.finish()
