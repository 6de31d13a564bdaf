"""Writes MANIFEST.json"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sv'))
import groups  # noqa: E402

AI = ('Abstract interpretation of the MIR of /repo as compiled on this run (debug and release), composed with specification probes: '
      'affine value-numbering domain, regions with symbolic content, trace partitioning. Everything not decided by the abstract state is '
      'explored both ways; every obligation must be entailed. Nothing is executed and no solver is used. ')
TRUST = 'Trusted: rustc\'s MIR, the dumper (driver/), the abstract semantics (sv/), the probe specifications (probe/). '

END = 'Every value of the types probed (scalars, Box, Vec, String, Option, arrays, tuples, derived structs and enums, nested), arbitrary contents, lengths, spare capacities and variants, serialized into a storage in an arbitrary state (any position, content and capacity; growth in place or not); output compared field by field with the input at any depth. '
NOTE = {
    'C01': END,
    'C02': END + 'Every growth may move memory or not; two values in a row into borrowed storage.',
    'C03': END,
    'C04': END,
    'C10': END,
    'C11': 'Corpus of some 60 definitions (every kind of struct and enum, raw identifiers, hygiene, attributes, generics with bounds, where clauses, const generics and defaults, ser_with and ser_bound in all forms, definitions from macros, shadowed prelude); a definition which does not compile is a violation; each is serialized by one of the serializers with field contents arbitrary, and every field must be visited once, in order, through its proxy if it has one. Holds for these definitions, not by induction over the macro.',
    'C12': 'Six user-defined serializers of all four types (generic over storage, const, lifetime and type parameters; owned and borrowed; fields in unusual order, raw identifiers, untagged look-alike fields), each to the specification of the built-in serializer of its type.',
    'C13': 'Tuples of 1 to 32 fields, arrays, Option, Box and Vec of any length (loop invariant), spied on by element types which report each visit; all three serializers.',
    'C14': 'Every inconsistent configuration of a corpus (each way in which each parameter can be wrong, at its boundary) at every way to create a storage, and every over-aligned type at every way to put one into a storage, as a program given to the pinned compiler, which must refuse it; the same program with a consistent configuration, or type, must be accepted. At opt-level 0 and 3.',
    'C16': 'Every static, foreign item, thread-local, inline assembly and function reference in every body of ser_raw (generic bodies included) and in all code made by its derive macros, resolved by the compiler; manual Send/Sync implementations checked field by field; a canary crate which breaks each rule must be flagged on every run. In addition methods which take a shared reference are shown to write nothing.',
    'C15': 'Input and all it owns is frozen: a write to it, freeing it, or a leak is a violation on every abstract path of every end-to-end probe, including those on which serialization panics.',
    'C20': 'Storage in an arbitrary state, two values of arbitrary content, all three serializers; reuse after clear; handing over of owned storage.',
    'C05': 'All states of storages of 11 configurations, arbitrary lengths and positions, single operations exhaustively and sequences of 2 (3 in thorough).',
    'C06': 'Every access, reference, pointer offset, arithmetic assertion and unchecked precondition on every abstract path of all probes.',
    'C07': 'Arbitrary capacity, position, content and amount, for 11 configurations; failed allocations are followed too.',
    'C08': 'Allocation typestate (size, alignment, liveness) tracked for each abstract allocation on every path, including unwinding.',
    'C09': 'Arbitrary state, length and content for 10 element types x 11 configurations.',
    'C17': 'Every path which panics runs the drop of a guard which states the invariants; afterwards any further operation meets its specification.',
    'C18': 'Arbitrary prior state; the operation, then a further push.',
    'C19': 'Arbitrary state, slices of ZSTs of any length.',
    'C21': 'Arbitrary digits, number of digits, spare capacity and sign; alone and within Box, Vec, Option and tuples; all three serializers.',
    'C22': 'User-defined types which ask for positions and overwrite before, amid and after their contents, at nesting depth up to 4, in values in a row, with storage which may move at each growth.',
    'C23': 'Arbitrary position, length and content; every byte outside of range shown unchanged.',
    'C24': 'Panic exactly when limit is exceeded, both directions, arbitrary state and length; operations of storage, and serializers end to end on storage limited in size.',
}

NA = [
    ('C25', 'Equality is whatever code the user writes in PartialEq; a static analysis of ser_raw has no such code to analyse. What ser_raw contributes (the copy is a valid instance with identical contents) is C01.'),
    ('C26', 'A bound on wall-clock time depends on hardware, allocator and optimiser; no static argument about the source decides it.'),
]

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in groups.BINS or i in groups.RULES:
        tech = []
        if i in groups.BINS:
            tech.append('abstract interpretation of MIR against specification probes')
        if groups.RULES.get(i):
            tech.append(groups.TECH.get(i, 'structural rules over the resolved program'))
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                       'technique': ' + '.join(tech), 'level': 'other', 'level_note': (AI if i in groups.BINS else '') + NOTE[i] + ' ' + TRUST})
    else:
        r = dict(NA).get(i, 'No check yet.')
        na.append({'property': i, 'reason': r})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: probes use its public API only. Fixes are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
