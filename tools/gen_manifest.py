"""Writes MANIFEST.json from the check modules that exist (run by hand after adding one)."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'runtime monitoring: an online monitor rebuilds values from the real binary reader\'s events over randomly encoded and mutated octets; oracle: independent encoder and strict decoder of the Ion specification',
    'C02': 'runtime monitoring: an online monitor rebuilds values from the real text reader\'s events over randomly written and mutated texts; oracle: independent encoder and strict parser of the Ion specification',
    'C03': 'runtime monitoring: output of the real binary writer, dump and dumps is recorded and judged by an independent strict binary decoder with symbol table accounting',
    'C04': 'runtime monitoring: output of the real text writer, dump and dumps is recorded and judged by an independent strict text parser, indentation included',
    'C05': 'runtime monitoring: round trips and transcoding chains on the real code; offline comparison of the recorded values and outputs with the reference data model',
    'C06': 'runtime monitoring under injected chunk schedules: event logs of differently cut runs compared with the log of the uncut run, stream signals judged by a reference parser',
    'C07': 'runtime monitoring: skip requests injected at random points; the event log is compared with the log of a visiting reader pruned at the same points',
    'C08': 'runtime monitoring: online trace monitor (state machine of the event protocol) on every reader, with protocol faults injected at every step',
    'C09': 'runtime monitoring under injected corruption: real readers on truncated, mutated and grammatically damaged input; oracle: strict reference decoders (accept, reject, undecided) and prefix comparison',
    'C10': 'runtime monitoring: managed reader over random histories of symbol tables and catalogs; oracle: reference model of symbol resolution at each position',
    'C11': 'runtime monitoring: shadow model of tables and catalogs driven by the same random operation sequences, compared after every operation',
    'C12': 'runtime monitoring: random histories of values, flushes and imports on the real binary writer; each flushed segment judged by an independent decoder and symbol accounting',
    'C13': 'runtime monitoring: ion_equals observed on random values, near misses and their representations; oracle: reference data model equality, with reflexivity, symmetry and transitivity monitors',
    'C14': 'runtime monitoring: timestamps followed through construction, reading, writing, copying and UTC conversion; oracle: reference calendar arithmetic and conservation monitors',
    'C15': 'runtime monitoring: numbers followed through writers and readers under varying decimal contexts; oracle: exact integer, decimal and bit-pattern comparison',
    'C16': 'runtime monitoring: differential observation of loaded values against the native values they extend, and conservation monitors on copy, deepcopy, pickle and from_value',
    'C17': 'runtime monitoring: shadow multi-map driven by the same random operation sequences, all views compared after every operation',
    'C18': 'runtime monitoring: interleaved and multi-threaded executions with injected switches and failures, compared with solo runs; snapshot monitors on arguments and shared state',
    'C19': 'runtime monitoring with fault injection at every read and write call: outcome, error identity, prefix and call-count monitors against the fault-free run',
    'C20': 'runtime monitoring: online protocol automaton over random, partly illegal event sequences sent to the real writers; acceptance, pending and completion compared step by step',
    'C21': 'runtime monitoring: shadow models of the read queue and write tree driven by the same random operation sequences, compared after every operation',
    'C22': 'runtime monitoring: equality, hashing, derivation, laziness and immutability laws observed on random events, records, enumerations and texts; oracle: component-wise reference',
    'C23': 'runtime monitoring: differential observation of load and dump under every option combination; oracle: reference mapping of Python values and independent decoders',
    'C24': 'runtime monitoring: json.dumps with the real encoder observed on random values under random options (CPython); oracle: strict JSON parser and the tree of an independent down-conversion of the reference value',
}
NOTE = ('Real code under randomised, hostile workloads with an independent oracle; bounded by the sampled executions, no proof. '
        'What was observed is counted in the evidence file; a run whose counters stay below the stated minimum fails.')
checks, missing = [], []
for p in sorted(TECH):
    if os.path.exists(os.path.join(HOME, 'lib', 'ionmon', 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                       'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE})
    else:
        missing.append({'property': p, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': missing,
     'notes': 'No hooks in /repo: every monitor sits outside and observes public behaviour.  The library is interpreted, so a check imports '
              '/repo\'s working tree directly and needs no build.'}
with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
