#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below (not run by any check)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    'P01': ('runtime monitor: emitted VM code of generated programs executed under a checking machine, output compared with a reference interpreter of the source',
            'exploration of generated programs; the machine model is an assumption'),
    'P02': ('runtime monitor: emitted LLVM IR of generated programs built and run, output compared with a reference interpreter of the source',
            'exploration of generated programs inside the supported subset of the LLVM target'),
    'P03': ('runtime oracle: literals and constant expressions compiled in every position and executed, compared with exact arithmetic and with the run-time value',
            'exploration over values, spellings, operators and positions'),
    'P04': ('AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over mutated, truncated and stretched inputs',
            'exploration; both optimised builds, VM, LLVM and MIPS targets'),
    'P05': ('LeakSanitizer, time limits and a deterministic cost meter (basic blocks, bytes moved, live heap) over stretched and mutated inputs',
            'exploration; growth measured between two sizes of every stretched dimension'),
    'P06': ('differential runtime oracle: rule violations planted in generated programs against their corrected twins',
            'exploration over rules, contexts and programs'),
    'P07': ('runtime oracle: place and text of every report compared with the known place of a planted construct',
            'exploration of constructs, surrounding texts and file layouts'),
    'P08': ('runtime oracle: preprocessed text compared with a model of macro expansion', 'exploration of generated macro histories'),
    'P09': ('runtime oracle: preprocessed text compared with a model of directives and integer expressions', 'exploration of generated directives and expressions'),
    'P10': ('metamorphic runtime oracle: programs split over files and directories compared with the single text', 'exploration of partitions and include orders'),
    'P11': ('metamorphic runtime oracle: rewritten spellings and layouts give the same code', 'exploration of rewritings'),
    'P12': ('repeated-execution monitor: outcome compared across directories, heap contents, builds and histories in one process', 'exploration'),
    'P13': ('offline checker: an independent loader validates every emitted file', 'exploration'),
    'P14': ('runtime oracle with injected file-system faults: exit code, messages and files created compared with a model of the command line', 'exploration and injected faults'),
    'P15': ('model-based runtime monitor under AddressSanitizer: operation histories on the containers compared with models', 'exploration of histories'),
    'P16': ('model-based runtime monitor under AddressSanitizer: universal input and output against the C library and a text model', 'exploration of histories, exhaustive over Unicode characters'),
    'P17': ('differential runtime oracle: acceptance and messages compared across targets', 'exploration'),
    'P18': ('runtime oracle: values stored in tables of every word size read back and compared', 'exploration with boundary values'),
}
checks = []
for p in sorted(T):
    if os.path.exists(os.path.join(HERE, 'lib/checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1]})
todo = [p for p in sorted(T) if p not in {c['property'] for c in checks}]
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py rel dbg asanrel msan cost',
     'hooks': {'guard': '', 'enable': '', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in todo],
     'notes': 'No hooks were needed: every monitor works on the outputs, the libraries or instrumented builds. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print('claimed', [c['property'] for c in checks], 'not yet', todo)
