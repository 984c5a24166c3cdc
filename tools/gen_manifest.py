#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, not_applicable.json and the
checks there are."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
NOTES = {
    'C01': ('seeded histories of many records in one store, read back in any order, '
            'oracle: independent layout model',
            'every layout and value generated is compared with an independent encoder'),
    'C02': ('crash points: logs and buffers cut at every byte of small records and at sampled '
            'bytes of larger ones, log scans and resumed appends after a crash; oracle: which '
            'records are completely there',
            'every cut of the small records sampled, sampled cuts of the others'),
    'C03': ('short, empty and would-block reads decided by the simulated stream at chosen reads; '
            'oracle: the model values and position, or an exception',
            'fault sequences sampled over the reads of each record'),
    'C04': ('injected failures of chosen reads, seeks and tells, repeated, then a retry; identity '
            'of the exception, in-place attributes and later results checked',
            'every stream call of an operation can be chosen; sampled'),
    'C05': ('injected failures of chosen writes with any part delivered, on sinks of several '
            'kinds; oracle: the delivered bytes are a prefix, the retry delivers all',
            'every write of an operation can be chosen; sampled'),
    'C06': ('pack_into arenas shared by failing, nested and concurrent packers; oracle: every '
            'byte of the arena against the model encoding',
            'offsets, failures and interleavings sampled'),
    'C07': ('simulated sources and pooled buffers overwritten, reused, resized, released or '
            'closed after reads; values compared with the model afterwards',
            'histories of reuse sampled'),
    'C08': ('seeded scheduler over real threads, preempting at eval-breaker points, lines or '
            'instructions of the library, against the outcome of each operation alone',
            'interleavings sampled at instruction granularity at the finest; GIL semantics of '
            'CPython 3.12 assumed'),
    'C09': ('operations injected by the callbacks and streams of others, to any depth',
            'nestings sampled'),
    'C10': ('exceptions injected at chosen events inside the library, then later operations '
            'against the model', 'abort points sampled; interrupts where CPython delivers them'),
    'C11': ('simulated network of peers with bounded buffers, segmentation and delay; deadlock and '
            'request accounting', 'schedules and segmentations sampled; progress in bounded steps'),
    'C12': ('seeded histories, nestings and thread schedules, reading the size after each '
            'operation', 'histories and interleavings sampled'),
    'C13': ('seeded nestings, failures and thread schedules, every callback checking its argument '
            'against the model', 'histories and interleavings sampled'),
    'C14': ('seeded definition histories with aborted, rejected, nested and concurrent '
            'definitions', 'histories and interleavings sampled; classes generated'),
    'C15': ('stored-byte faults (flips, cuts, repeats, damaged counts) with budgets on work and '
            'memory counted by the simulator', 'faults sampled; budgets are linear in the bytes'),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    na = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
    out = {p['property'] for p in na}
    checks = []
    for p in props:
        i = p['id']
        if i in out:
            continue
        if not os.path.exists(os.path.join(HERE, 'sim', 'checks', f'{i.lower()}.py')):
            print('no check for', i)
            na.append({'property': i, 'reason': 'the check is not built yet'})
            continue
        tech, note = NOTES[i]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 -m sim.run check {i}',
            'thorough_cmd': f'VERIF_TIER=thorough python3 -m sim.run check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH + tech,
            'level': 'exploration',
            'level_note': 'Seeded search, not exhaustive: ' + note + '. Trusts the reference model '
                          'in sim/layout.py and CPython.',
        })
    doc = {
        'version': 1,
        'setup_cmd': 'python3 -c "import sim.run"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo: the seams are the interpreter (sys.monitoring), the streams, '
                 'buffers and callbacks given to the library, and the locks it makes. VERIF_SEED, '
                 'VERIF_TIER, VERIF_RUNS, VERIF_JOBS and VERIF_CAP control a check; '
                 '"python3 -m sim.run replay FILE" replays a violation.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
