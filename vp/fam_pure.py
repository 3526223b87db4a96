"""C19-C30: recorded calls of pure components against their specifications."""
import os
from .lib import *

# property -> list of (driver kind, trace module, cases quick, cases thorough), models, level
PLAN = {
    'C19': ([('codec', 'CodecTrace', 500, 6000)], []),
    'C20': ([('rans', 'RansTrace', 900, 9000)], [('RansModel', {}, {'MaxLen': 4}), ('TableModel', {}, {'MaxF': 9, 'MaxN': 5})]),
    'C21': ([('bwt', 'BlockSortTrace', 700, 8000)], [('BlockSortModel', {}, {'MaxLen': 7})]),
    'C22': ([('zigzag', 'ZigZagTrace', 400, 2400)], [('ZigZagModel', {}, {'Max': 12})]),
    'C23': ([('delta', 'PixelsTrace', 2500, 40000)], [('PixelsModel', {}, {'M': 5})]),
    'C24': ([('color', 'PixelsTrace', 2500, 40000)], [('PixelsModel', {}, {'M': 8, 'W': 3, 'Hgt': 1})]),
    'C25': ([('paeth', 'PixelsTrace', 1500, 20000)], [('PixelsModel', {}, {'M': 5})]),
    'C26': ([('png', 'ImageTrace', 500, 6000), ('precode', 'ImageTrace', 220, 3000), ('image', 'ImageTrace', 360, 5000)],
            [('ImageModel', {}, {'MaxW': 4, 'MaxH': 2})]),
    'C27': ([('codes', 'CodesTrace', 1500, 20000)], [('CodesModel', {}, {'MaxV': 40})]),
    'C28': ([('stack', 'StackTrace', 4000, 60000)], [('StackModel', {}, {'MaxOps': 20})]),
    'C29': ([('text', 'ArgumentsTrace', 1500, 20000)], [('ArgumentsModel', {}, {'MaxLen': 8})]),
    'C30': ([('config', 'ConfigurationTrace', 250, 1024)], [('ConfigurationModel', {}, {})]),
}

ASSUME = {
    'C19': ['Sharingan is unfinished upstream (its decompressor is a stub); only its registration is checked'],
    'C20': ['frequencies stay below 2^32 so that the 64-bit products of the table construction do not wrap'],
    'C21': ['strings longer than 160 symbols are compared by 128-bit digests instead of symbol by symbol'],
    'C24': ['OpenCL kernels are compiled by clang for the host and run by a stand-in for the driver, work item by work item'],
    'C25': ['the OpenCL kernel is compiled by clang for the host and run by a stand-in for the driver, work item by work item'],
    'C26': ['images come from libpng\'s writer; the OpenCL kernel is compiled by clang for the host and run by a stand-in for the driver'],
    'C27': ['Elias-gamma below 2^31, unary at least 1, the range the codes are defined for'],
}


def run(prop):
    c = Check(prop, 'model_checking')
    c.assumptions += ['rainman/bitio submodules are absent; stand-ins in shims/ with the same interface are linked'] + ASSUME.get(prop, [])
    kinds, models = PLAN[prop]
    program = 'image' if prop == 'C26' else 'pure'
    exe = build([program])[program]
    sd = scratch()
    traces = []
    jobs = []
    shards = NCPU
    for kind, mod, q, t in kinds:
        n = t if THOROUGH else q
        for s in range(shards):
            out = os.path.join(sd, f'{kind}-{s}.ndjson')
            jobs.append((kind, n, s, out, mod))

    def one(j):
        kind, n, s, out, mod = j
        run_driver(exe, [kind, SEED, n, s, shards, out, sd], timeout=600)
        return out

    par(one, jobs)
    for mod in sorted({j[4] for j in jobs}):
        ts = [j[3] for j in jobs if j[4] == mod]
        c.traces(mod, ts, cfg='Trace.cfg', heap='2g')
    for mod, qc, tc in models:
        c.model(mod, consts=tc if THOROUGH else qc)
    c.cov['cases_per_trace'] = 'each line of a trace is one recorded call of the real code'
    return c.finish()
