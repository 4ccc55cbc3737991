#!/usr/bin/env python3
"""Generator of MANIFEST.json."""
import json
SAN = 'AddressSanitizer and UndefinedBehaviorSanitizer run the same workload; any report is a violation. '
TRUST = 'Sampled executions of the real code built from /repo (no hooks): evidence for the inputs, histories and schedules explored, none for others. Trusted: the reference model in /verif/harness, the compilers and their sanitizers.'
T = {
 'C01': 'Field-by-field comparison of what the C interface returns with the model behind an independent encoder, on generated traces; sanitizers',
 'C02': 'Write/read/write monitor on generated traces (model equality, then byte equality); sanitizers',
 'C03': 'Serialize/restore monitor (same and fresh process) with content and query comparison against the model; sanitizers',
 'C04': 'Structure-aware fuzzing with ASan/UBSan and memcheck, two memory fill patterns, watchdog, memory cap, and use of every accepted trace',
 'C05': 'Cut at every position and read() interposition (failing, short reads) judged by a prefix model; sanitizers',
 'C06': 'Online comparison of query results with an independent reference query engine; sanitizers',
 'C07': 'Online comparison of predicate outcomes with exact rational arithmetic (GMP); sanitizers',
 'C08': 'Long random histories in one process, each answer compared with a stateless reference; sanitizers',
 'C09': 'Online comparison with the reference per-point soft maximum; sanitizers',
 'C10': 'Online comparison with the reference for masks, seeds (incl. reachability of every point) and deduplication; sanitizers',
 'C11': 'Reference map monitor over generated allocation histories; sanitizers',
 'C12': 'ThreadSanitizer plus offline exactly-once checker over recorded concurrent histories with injected delays',
 'C13': 'Fault injection at every allocation, read, open and poll in turn, state compared with a snapshot after each failure',
 'C14': 'Allocator and descriptor accounting between repeated rounds with faults; LeakSanitizer and AddressSanitizer',
 'C15': 'Scripted FIFO writers, signals and descriptor pressure with outcome, content and wall-clock monitors',
 'C16': 'Prefix monitor over limits and hostile bytes after the limit; sanitizers',
 'C17': 'Axiom monitors (equality vs. canonical content, hash, strict weak order) over one-component-different families; sanitizers',
 'C18': 'Offline checker (exactly-once, per-thread order, atomic points) over files of real multi-threaded and killed programs; ThreadSanitizer',
 'C19': 'Recorded-intent monitor: generated programs using the extracted runtime, output compared with the values handed in; sanitizers',
 'C20': 'Library driven through a binding generated from the Lisp declarations, compared with a model; layout monitor on the compiled headers',
 'C21': 'Model comparison of the whole database after every add of random add histories; sanitizers',
 'C22': 'Print and re-parse monitor over random predicates; sanitizers',
 'C23': 'Lisp database code executed over the real library by a Lisp evaluator, everything retrieved compared with a model',
 'C25': 'Online comparison of acceptance and content with an independent decoder on near-miss, mutated and valid inputs; sanitizers',
 'C26': 'Lisp query code executed over the real library by a Lisp evaluator, answers compared with a reference',
 'C27': 'Monitor of every foreign allocation and release while the Lisp code is executed over the real library by a Lisp evaluator',
}
LISP = 'No Common Lisp implementation is installed: the Lisp sources are executed by an evaluator of our own for the subset they use (minilisp.py, lispffi.py), which is trusted too; Lisp outside that subset makes the check inconclusive, not failing. '
EXTRA = {
 'C13': 'Every single fault point reached by the explored operations is failed in turn (once, and persistently); operations and contents are sampled. ',
 'C18': 'The runtime is C text in a Lisp source file, extracted by a small reader and compiled as the Lisp code would; kill moments are sampled, and byte offsets of the output are forced by a file-size limit. ',
 'C19': 'The runtime is C text in a Lisp source file, extracted by a small reader and compiled as the Lisp code would. ',
 'C20': 'The Lisp code itself is not run (no Lisp implementation here): its declarations are parsed and obeyed. ',
 'C23': LISP, 'C26': LISP, 'C27': LISP,
 'C15': 'Time bounds are checked with generous slack (scheduling noise). ',
 'C12': 'Schedules are those the machine and the injected delays produce. ',
}
ck = []
for k in sorted(T):
    ck.append(dict(property=k, quick_cmd='python3 check.py ' + k, thorough_cmd='python3 check.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
                   technique=T[k], level='fault_enumeration' if k == 'C13' else 'exploration', level_note=EXTRA.get(k, '') + TRUST))
m = dict(version=1, setup_cmd='python3 prebuild.py', checks=ck,
         not_applicable=[dict(property='C24', reason='pure Lisp code built on the Software Evolution Library (parsing and rewriting of C/C++); neither it nor a Common Lisp implementation is installed, so no execution can be observed')],
         notes='No hooks in /repo: all observation happens at the public C and C++ interfaces and by interposing libc calls in the harness. known_findings.txt lists the defects found, all repaired by fix: commits.')
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
