#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list below.
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
PURE = {
 'C19': 'blocks, trained states and stored forms recorded from the codecs, each line checked by TLC against CodecTrace',
 'C20': 'exhaustive TLC model of the coder and its tables for small words; every recorded step of the real coder checked against the same relation with 64-bit digits',
 'C21': 'exhaustive TLC model for strings up to length 6/7; recorded transforms compared with the sorted rotations and the last-to-first walk',
 'C22': 'TLC proves the cell-to-cell relation right for all rectangles up to 9x9/12x12 (with termination); every recorded scan checked step by step against it',
 'C23': 'exhaustive TLC model; recorded arrays checked element by element with 32-bit wrap-around',
 'C24': 'exhaustive TLC model of the lifting; recorded pixels checked against it, computed by the processor and by the OpenCL kernels (compiled for the host)',
 'C25': 'exhaustive TLC model of the filter and its inverse; recorded images checked against it, computed by the processor and by the OpenCL kernel (compiled for the host)',
 'C26': 'exhaustive TLC model of coding an image chunk by chunk and decoding it row by row (specs/Image, specs/ImageModel); images of all kinds written by libpng are read, modelled and compressed by the real code, and specs/ImageTrace computes the planes, checks every slot of the stream and probes places of the sequence with all values of their symbol',
 'C27': 'exhaustive TLC model of concatenated codes; recorded encodings and decodings checked against it',
 'C28': 'TLC proves that full buffers refine the stack; recorded histories crossing real buffer boundaries checked against it',
 'C29': 'path rule as predicate and automaton (TLC proves them equal); recorded decisions, sizes and file-helper results checked against it',
 'C30': 'TLC over all subsets of variables of the model; recorded configurations of real processes checked against it',
}
try:
    import importlib.util
    spec = importlib.util.spec_from_file_location('claims', os.path.join(HERE, 'tools', 'claims.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    CLAIMS = m.CLAIMS
except FileNotFoundError:
    CLAIMS = {}
notes = dict(PURE); notes.update(CLAIMS)
checks = [dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'VERIF_TIER=thorough ./check {p}',
               technique='TLA+ specification checked with TLC, bound to the code by validating recorded behaviours against it',
               level='model_checking', level_note=notes[p]) for p in props if p in notes]
na = [dict(property=p, reason='its check is not built yet') for p in props if p not in notes]
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
