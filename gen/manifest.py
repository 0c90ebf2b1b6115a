#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification of the decoder (spec/Decoder.tla, Av1Syntax.tla, Bits.tla); TLC decides for each recorded execution of the real library whether it is a behaviour of it (spec/Trace.tla)'
ASSUME = 'Pixel contents are an uninterpreted function of (coded bytes, inherited header state, reference contents) in the specification, so "same frame" must give the same digest in every run. Explored: generated streams and call histories, not all of them. Trusted: TLC, the recorder harness/vh.c, the stream writer gen/.'
NOTES = {
 'C01': 'every get/send result and the identity and order of all pictures, for random call interleavings, thread counts and frame delays',
 'C02': 'pixel digests across thread counts and delays on larger multi-tile streams with all filters',
 'C03': 'every run ends; hanging runs are killed and reported; histories include errors, allocator failures, flush and close with frames in flight',
 'C04': 'the model keeps the exact set of buffers the decoder and the caller hold after every call; address sanitizer build',
 'C05': 'return codes, remaining size and ownership of every packet, and the set of unreleased wraps after every call; address sanitizer build',
 'C06': 'histories with flushes at any point',
 'C07': 'reference slots are explicit model state; pictures, errors and pixels must follow from it',
 'C08': 'properties, user data and metadata of every picture',
 'C09': 'event flags after every call',
 'C10': 'layered streams with all operating points and both layer modes',
 'C11': 'all exposed sequence-header fields against the TLA+ parser, incl. dav1d_parse_sequence_header on every packet',
 'C12': 'all exposed frame-header fields against the TLA+ parser',
 'C13': 'splits, drops, duplicates and reorderings of tile groups',
 'C14': 'all four filter settings',
 'C15': 'limits around the frame sizes of the stream',
 'C16': 'errors, cached error properties and surviving frames',
 'C17': 'mutated streams on address/undefined-behaviour and memory sanitizer builds; documented return codes are part of the specification',
 'C18': 'grain on, off and applied separately; grain terms in the pixel algebra',
 'C19': 'every single allocation (malloc, realloc, aligned allocation, picture allocator) of generated scenarios fails in turn, with 1 and 4 threads; documented results only, no leak or invalid access (address sanitizer), exact behaviour again after flush',
 'C20': 'valid and invalid settings, invalid arguments, defaults, announced delay for thread counts 0..256, and exactly which call returns which picture',
 'C23': 'all CPU masks of this machine against plain C, random strides/plane orders/guards, re-split packets; streams whose residuals may leave the standard range (measured) are not compared',
 'C24': 'arguments, order and number of allocator calls; guard bytes around all planes; address sanitizer build',
 'C25': 'strict and default mode on conforming and non-conforming syntax',
 'C26': 'filter settings 0..7 against streams with the filter off in the header',
}
EXTRA = {}
NA = {
 'C21': 'in preparation', 'C22': 'in preparation',
 'C27': 'the standard\'s pixel arithmetic is not specified here; the specification treats reconstruction as an uninterpreted function',
}
checks = []
for pid in sorted(NOTES):
    checks.append(dict(property=pid, quick_cmd='python3 checks/check.py ' + pid, thorough_cmd='python3 checks/check.py %s --thorough' % pid,
                       technique=EXTRA.get(pid, T), level='model_checking', level_note=NOTES[pid] + '. ' + ASSUME))
m = dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in NOTES],
         notes='No hooks are needed in /repo. Checks build /repo out of tree under /verif/build (ignored by git).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
