"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import rt
claimed = dict(rt.CHECKS)
for m in ('comp', 'insp'):
    try:
        claimed.update(__import__(m).CHECKS)
    except ModuleNotFoundError:
        pass
GEN = 'Exploration: holds on the executions observed in this run; trusts the independent model in harness/fbm. '
T = dict(
 C01=('hostile buffers under an in-bounds/panic/watchdog monitor, debug-assertion and AddressSanitizer builds', GEN+'Recursive conversions are bounded by a step budget, since nesting depth is only limited by the stack.'),
 C02=('read-back monitor against the written model value, all writing interfaces', GEN),
 C03=('independent strict FlatBuffers verifier/decoder over every finished buffer', GEN),
 C04=('independent randomised writer as workload, accessor results compared with the model', GEN+'Buffers with a vtable before the referring object are judged by the known finding.'),
 C05=('old/new schema pairs, reader results compared with the independent decoder', GEN),
 C06=('online monitor of offsets and sharing per cache feature combination', GEN),
 C07=('differential replay of one history on fresh, dirty, pre-sized builders', GEN),
 C08=('monitor of stored slots, space, accessor results and Default', GEN),
 C09=('trace checking of vector operations against slices', GEN),
 C10=('Miri, AddressSanitizer/LeakSanitizer, ThreadSanitizer, poisoning allocator, drop counters', GEN+'Miri and the sanitizers only judge the executions they see.'),
 C11=('monitors of derived traits against model equality, order, JSON and Debug text', GEN),
 C20=('crash/hang/silence monitor over mutated and generated schema sets', GEN),
 C21=('generated code of adversarial schemas compiled by rustc; determinism comparison', GEN),
 C22=('accept/reject monitor with rule violations known by construction', GEN),
 C23=('declarations, struct sizes and written bytes against an independent layout computation', GEN),
 C24=('independent name resolver against the types in the declarations', GEN),
 C25=('independent literal evaluation against declarations and generated code', GEN),
 C26=('formatter output re-read: declarations, comments and fixed point compared', GEN),
 C27=('diagnostic positions against faults planted at known places', GEN),
 C28=('DOT parser and model graph against generate_dot', GEN),
 C29=('file-system, exit status and output monitor of real command runs in scratch directories', GEN),
 C30=('generated code parsed with syn, doc attributes against the model', GEN),
 C40=('inspection results against the independent decoder, byte by byte', GEN),
 C41=('random key histories on a test terminal with a cursor model', GEN),
)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
man = dict(version=1,
    setup_cmd='true',
    checks=[dict(property=p, quick_cmd='python3 bin/check.py %s quick' % p, thorough_cmd='python3 bin/check.py %s thorough' % p,
                 technique='runtime monitoring: ' + T[p][0], level='exploration', level_note=T[p][1]) for p in props if p in claimed],
    not_applicable=[dict(property=p, reason='check not built yet') for p in props if p not in claimed],
    notes='Each check builds from /repo and decides alone; exit 2 means it could not decide.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
