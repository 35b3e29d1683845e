#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR against a reference specification (inferred loop invariants)'
TM = ('Fixpoint over all input strings against a reference automaton of the grammar. Alarms only on a path that exists without any '
      'generalisation. Trusts clang, the abstract interpreter, its library models and the reference automaton.')
RD = ('Fixpoint over all call sequences of a most general client and all behaviours of the stream (or message source) it sits on. Alarms only '
      'on a path that exists without any generalisation. Trusts clang, the abstract interpreter, its library models and the reference automaton.')
PMN = ('Fixpoint over arbitrary registrations, options and requests; the template parser, the trie search and the percent decoder enter by '
       'their contracts (C01-C04, C07-C10), in proofs also the helpers of the lookup. One to three registrations. Alarms only on a path '
       'that exists without any generalisation. Trusts clang, the abstract interpreter, its library models and the reference definitions.')
TRN = ('Exhaustive analysis of search and insertion in an arbitrary trie for up to 4 (thorough 6) request segments with arbitrary text; children by '
       'induction (contract) in proofs. Trusts clang, the abstract interpreter, its library models and the reference search.')
CLAIMED = {
    'C07': ('other', AI, TRN), 'C08': ('other', AI, TRN),
    'C09': ('proof', AI, PMN),
    **{i: ('proof', AI, PMN) for i in ('C05', 'C06', 'C10', 'C14', 'C16', 'C18', 'C19')},
    **{i: ('proof', AI, RD) for i in ('C20', 'C21', 'C22', 'C23', 'C24')},
    **{i: ('other', AI, 'Exhaustive analysis, without generalisation, of lookups of bounded shape (up to 5 path segments and three variables, queries of up '
            'to 9 bytes) with arbitrary bytes; parser, trie and percent decoder by their contracts. Trusts clang, the abstract interpreter, its '
            'library models and the reference reading.') for i in ('C11', 'C12', 'C13')},
    'C15': ('proof', AI, PMN),
    'C17': ('other', AI, 'Exhaustive analysis of registering rules of bounded shape (every pattern kind, up to two additional bindings, nested up to two '
            'levels) with arbitrary texts, against an abstract builder that answers anything. Trusts clang, the abstract interpreter, the contract '
            'of the accessors of the generated message class.'),
    'C01': ('proof', AI, TM), 'C02': ('proof', AI, TM), 'C03': ('proof', AI, TM),
    'C04': ('proof', AI, 'Fixpoint over all input strings, per decoding mode and plus setting. Alarms only on a path that exists without any '
            'generalisation. Trusts clang, the abstract interpreter, its models of std::string/string_view and the reference decoder.'),
}
NOT_BUILT = ('the source needs google/protobuf/util/converter (proto-converter) headers, which this sandbox does not have and the pinned build '
             'leaves out: no resolved program to analyse')
NA = {
    'C40': 'the conversion is done by protobuf\'s converter library, outside this repository, and quantifies over runtime values of whole documents',
    'C41': 'a running-time and memory bound over all inputs; no sound static argument in reach bounds the backtracking trie search',
}
for i in range(30, 39):
    NA[f'C{i}'] = NOT_BUILT
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        lv, t, note = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'python3 checks/{i.lower()}.py', 'thorough_cmd': f'python3 checks/{i.lower()}.py --thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built (yet): see DESIGN.md')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
