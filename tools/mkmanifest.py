#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = ('TLA+ specification of lexer, parser and analysis; TLC enumerates small documents and validates recorded observations of the implementation against the '
       'specification (trace validation)')
DOCNOTE = ('Every observation of the real library on all enumerated small documents and on seeded random grammar-directed documents is judged by TLC against the specification; '
           'bounded by those documents. Trusted: the recording harness (it only projects data), TLC.')
PROJ = ('TLA+ specification of files, include search, include graph and analysis order; TLC validates recorded histories of project operations step by step; '
        'small include graphs are enumerated')
PROJNOTE = ('Every step of every recorded history of the real library is judged by TLC against the specification; bounded by the enumerated include graphs and the seeded random histories. '
            'Trusted: the recording harness, the modelled subset of file system semantics, TLC.')
LSP = ('TLA+ specification of the server (document state, publishing, requests); TLC explores all interleavings of a small model and validates recorded JSON-RPC sessions of the real server')
LSPNOTE = ('Recorded sessions of the real ginko_ls binary are judged by TLC against the specification; bounded by the seeded sessions. Trusted: the JSON-RPC driver, TLC.')
CLI = 'TLA+ specification of verdict and report; TLC validates the exit status and output of the real command line tool'
CLINOTE = 'Runs of the real ginko binary are judged by TLC against the specification; bounded by the seeded scenarios. Trusted: the driver, TLC.'
CHECKS = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C20', 'C21', 'C22', 'C23'):
    CHECKS[p] = (DOC, DOCNOTE)
for p in ('C11', 'C12', 'C13', 'C14'):
    CHECKS[p] = (PROJ, PROJNOTE)
for p in ('C15', 'C16', 'C17', 'C18'):
    CHECKS[p] = (LSP, LSPNOTE)
CHECKS['C19'] = (CLI, CLINOTE)
DONE = json.load(open(os.path.join(ROOT, 'tools', 'done.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'ginko_verif', 'enable': 'RUSTFLAGS="--cfg ginko_verif" cargo build', 'source_commits': [
        'cc6ce6708e6b11d2741b67753f5283e3dc8d5e4e', '5a20ba8740491cff6769cc08c661b504377a0d6b']},
    'checks': [{'property': p, 'quick_cmd': './check.py %s --tier quick' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                'technique': CHECKS[p][0], 'level': 'model_checking', 'level_note': CHECKS[p][1]} for p in props if p in DONE],
    'not_applicable': [{'property': p, 'reason': 'not checked yet'} for p in props if p not in DONE],
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
