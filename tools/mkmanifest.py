#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = {
 'C01': 'TLA+ model of the worker pool and of the line reader (TLC); recorded runs under TLC-enumerated schedules validated against the specification',
 'C02': 'TLA+ scanner model checked against the text (TLC); recorded co-occurrence runs validated against the specification',
 'C03': 'TLA+ worker-pool model (TLC); every run repeated under TLC-enumerated schedules, traces validated against the specification',
 'C04': 'TLA+ worker-pool and scanner models (TLC); recorded retrievals under enumerated schedules validated against the specification',
 'C05': 'TLA+ worker-pool model with worker deaths (TLC, safety and termination); fault runs of the real code validated against it',
 'C06': 'TLA+ specification of token positions; recorded matrices validated by TLC',
 'C07': 'TLA+ vocabulary state machine; TLC-generated histories replayed, recorded results validated step by step',
 'C08': 'TLA+ heap of vocabularies; TLC-generated histories replayed, contents of every object validated after each step',
 'C09': 'TLA+ model of vocabulary files; recorded save/load histories validated by TLC',
 'C10': 'TLA+ heap of labelled matrices; TLC-generated and enumerated chains of operations replayed, every object validated after each step',
 'C11': 'TLA+ heap of labelled matrices with masks; TLC-generated chains replayed and validated step by step',
 'C12': 'TLA+ heap of labelled matrices with merging (laws checked by TLC); histories replayed and validated step by step',
 'C13': 'TLA+ model of a directory of matrix files; recorded save/load/rename histories validated by TLC',
 'C26': 'TLA+ model of working files (TLC); recorded file system events of interleaved handlers validated by TLC',
}
TECH.update({
 'C14': 'TLA+ specification of the measures with exact arithmetic (laws checked by TLC on every small table); recorded matrices, rearranged before and after, validated by TLC',
 'C15': 'TLA+ specification of weights and vectors by name; recorded results validated by TLC',
 'C17': 'TLA+ definition of embeddings and a matching machine proved equal to it on every small tree (TLC); recorded matching histories validated by TLC',
 'C18': 'TLA+ specification of feature texts and counts (laws checked by TLC) over the worker-pool model; recorded matrices under enumerated schedules validated by TLC',
 'C23': 'TLA+ specification of pattern documents and a reader machine of arrow expressions checked by TLC on every small tree; its expressions replayed, recorded readings validated by TLC',
 'C16': 'TLA+ specification of distances, ranks and neighbours (TLC); recorded results validated by TLC',
})
TECH.update({
 'C19': 'TLA+ machine of the clean-up and merge clauses (TLC, exhaustive on small families); every TLC-generated list and matrix and seeded larger ones replayed, results validated by TLC',
 'C20': 'TLA+ machine of the recursions (TLC, safety and termination); recorded runs of the whole algorithm and of its steps validated against the specification with explicit tolerances',
 'C25': 'TLA+ heap of token collections and token names (population, frame, sampling and name laws checked by TLC, broken variants refuted); exhaustive TLC histories and seeded ones replayed, token tables, names and concordances validated by TLC',
 'C28': 'TLA+ functions from text to every stage of the chain (coupling laws checked by TLC on every small text); recorded chains and vectorizer runs validated stage by stage by TLC',
 'C27': 'TLA+ definition of average linkage and its cut (laws checked by TLC) and a process pool model; runs under every TLC-generated assignment of work to processes validated by TLC',
})
TECH.update({
 'C21': 'TLA+ heap of loaders, settings dictionaries and handlers (laws and broken variants checked by TLC); TLC-generated histories replayed, every object validated after each step',
 'C22': 'TLA+ machine walking directory trees (TLC, every small tree) and meaning of list files; TLC-generated trees and seeded corpora replayed, processed files validated by TLC',
 'C24': 'TLA+ machine reading query lines field by field (TLC); TLC-generated lines and seeded files replayed, entries and lookups validated by TLC',
})
TECH.update(json.load(open(os.path.join(here, 'techniques.json'))) if os.path.exists(os.path.join(here, 'techniques.json')) else {})
NOTE = ('The specification is checked exhaustively by TLC within small bounds; the implementation is bound to it by validating recorded '
        'runs (seeded random and enumerated inputs) against the specification, so a behaviour outside the executed inputs is not covered. '
        'Trusts TLC, the recording harness and CPython.')
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                 'technique': TECH[i], 'level': 'model_checking', 'level_note': NOTE} for i in ids if i in TECH],
     'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in TECH],
     'notes': 'No hooks in /repo: checks run the unmodified code in fresh interpreters; see DESIGN.md.'}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
