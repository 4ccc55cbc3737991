"""What each check runs: harness, configurations, number of cases."""
import os, subprocess, sys
import vlib, runtime, bindcheck
from vlib import CheckError, Violation

GMP = ['-lgmpxx', '-lgmp']
HARNESS = {
    'h_read': dict(),
    'h_query': dict(libs=GMP),
    'h_cpp': dict(uses_repo=True),
    'h_fuzz': dict(uses_repo=True),
    'h_conc': dict(libs=GMP),
    'h_fault': dict(libs=GMP),
    'h_fifo': dict(),
    'h_dump': dict(),
    'h_rt': dict(flags=runtime.inc_flags),
}


def options(h):
    d = dict(HARNESS[h])
    if callable(d.get('flags')):
        d['flags'] = d['flags']()
    return d


def R(h, arg, cfg, quick, thorough, ct=60, budget=(60, 1500), **kw):
    d = dict(harness=h, arg=arg, cfg=cfg, n=(quick, thorough), ct=ct, budget=budget)
    d.update(kw)
    return d


def lisp(arg, quick, thorough):
    def pre(run):
        q = run.tier == 'quick'
        so = run.builder.shared()
        run.configs.append('prod shared library under the evaluator')
        run.cases([dict(exe=vlib.VERIF + '/lisp_driver.py', harness='lisp_driver', cfg='prod', arg=arg, count=quick if q else thorough, budget=90 if q else 1500, case_timeout=120, env={'VERIF_SO': so})])
        if run.stats.get('evaluator_inconclusive'):
            run.notes.append('the evaluator met Lisp it does not support: the remaining cases of those shards were not judged')
    return pre


PLANS = {
    'C01': dict(rule='random and deliberately large traces encoded by an independent encoder, read through the C interface and compared field by field with the model; non-trivial: more than one point (distinct by encoded bytes)',
                runs=[R('h_read', 'C01', 'prod', 24000, 600000), R('h_read', 'C01', 'asan', 2400, 60000)]),
    'C02': dict(rule='random and large traces, read, built in memory, copied or restored, written in binary, read back and compared with the model, written again and compared byte for byte; non-trivial: more than one point, distinct by bytes',
                runs=[R('h_cpp', 'C02', 'prod', 16000, 400000), R('h_cpp', 'C02', 'asan', 2000, 50000)]),
    'C03': dict(rule='random databases built by random adds, serialized and restored in this and in a fresh process, compared with the model, then queried; distinct by serialized text',
                runs=[R('h_query', 'C03', 'prod', 1600, 40000), R('h_query', 'C03', 'asan', 240, 6000)]),
    'C04': dict(rule='valid traces with one to four structure-aware mutations, inconsistent headers, splices, random bytes and non-files, each read twice over differently filled memory, then inspected, written, serialized, restored and queried; distinct by bytes',
                runs=[R('h_fuzz', 'C04', 'prod', 24000, 1000000, ct=20, as_gb=1), R('h_fuzz', 'C04', 'asan', 6400, 200000, ct=40), R('h_fuzz', 'C04', 'vg', 400, 16000, ct=120, wrap='valgrind')]),
    'C05': dict(rule='every cut position of small traces, selected cuts of large ones, each read call failing in turn, short reads of every size; non-trivial: trace with more than one point, distinct by bytes',
                runs=[R('h_read', 'C05', 'prod', 800, 20000), R('h_read', 'C05', 'asan', 160, 4000)]),
    'C06': dict(rule='random traces and queries (0..4 free variables, random type sets and predicates), result list compared with a reference engine; non-trivial: non-empty answer, distinct by query and answer',
                runs=[R('h_query', 'C06', 'prod', 8000, 200000), R('h_query', 'C06', 'asan', 640, 16000)]),
    'C07': dict(rule='random predicate trees over variables of every format and width with hostile values, against exact rational arithmetic (GMP); non-trivial: distinct predicates with a decided value',
                runs=[R('h_query', 'C07', 'prod', 8000, 200000), R('h_query', 'C07', 'asan', 800, 20000)]),
    'C08': dict(rule='random histories of adds, frees, serializations and queries over several live databases, every answer compared with the stateless reference; distinct by query and answer',
                runs=[R('h_query', 'C08', 'prod', 4800, 120000), R('h_query', 'C08', 'asan', 800, 20000),
                      R('h_fault', 'C08F', 'vg', 4000, 100000, base=30000000), R('h_fault', 'C08F', 'asan', 800, 20000, base=40000000)]),
    'C09': dict(rule='random queries with 1..n soft predicates against the reference maximum; distinct by query and answer',
                runs=[R('h_query', 'C09', 'prod', 8000, 200000), R('h_query', 'C09', 'asan', 640, 16000)]),
    'C10': dict(rule='random masks, statements, seeds and duplicate elimination against the reference; distinct by query and answer',
                runs=[R('h_query', 'C10', 'prod', 6400, 160000), R('h_query', 'C10', 'asan', 480, 12000)]),
    'C11': dict(rule='random allocation histories in many address patterns, buffer size of every pointer compared with a reference map; non-trivial: history with pointers both inside and outside live allocations, distinct by bytes',
                runs=[R('h_read', 'C11', 'prod', 80000, 1500000), R('h_read', 'C11', 'asan', 8000, 160000),
                      R('h_cpp', 'C11M', 'prod', 8000, 200000), R('h_cpp', 'C11M', 'asan', 800, 20000)]),
    'C12': dict(rule='2 to 8 threads adding (files and points, good and bad) to one database, checked offline for exactly-once storage and order against the log of adds, and threads using the whole interface on databases of their own against precomputed answers; delays and short reads injected; non-trivial: traces of different threads interleave in the database, distinct by the order of threads',
                runs=[R('h_conc', 'C12', 'tsan', 480, 12000, ct=120), R('h_conc', 'C12', 'prod', 4000, 100000), R('h_conc', 'C12', 'asan', 480, 12000)]),
    'C13': dict(level='fault_enumeration', rule='databases of known content; each operation (add from file, from memory, read) repeated with every read, open, poll and allocation failing in turn, once or from then on, and with malformed or missing input; content and query answers compared after every failure; distinct by operation and faults hit',
                runs=[R('h_fault', 'C13', 'alloc', 8000, 200000), R('h_fault', 'C13', 'asan', 1200, 30000)]),
    'C14': dict(rule='rounds of the whole interface, with failing operations among them, repeated; live heap bytes, blocks and descriptors compared between rounds (allocator interposed); the same under AddressSanitizer and LeakSanitizer with varying order of release; distinct by content of the round',
                runs=[R('h_fault', 'C14', 'alloc', 16000, 400000), R('h_fault', 'C14', 'asan', 1600, 40000, env={'VERIF_LEAKS': '1'})]),
    'C15': dict(rule='batches of scenarios run at the same time, each in a process of its own: FIFOs with no, idle, late, slow, chunked, pausing and ending writers, timeouts up to the largest, thousands of open descriptors, signals during the wait, missing and unreadable files; outcome, content and elapsed time checked; non-trivial: outcome decided; distinct by scenario',
                runs=[R('h_fifo', 'C15', 'prod', 32, 800), R('h_fifo', 'C15', 'asan', 8, 160)]),
    'C16': dict(rule='random traces read with limits around and beyond the total, with arbitrary bytes after the last wanted point; non-trivial: limit below the total, distinct by bytes and limit',
                runs=[R('h_read', 'C16', 'prod', 16000, 400000), R('h_read', 'C16', 'asan', 2000, 50000)]),
    'C17': dict(rule='families of objects of every class made by copying and changing one component; all pairs compared for equality and hash against a canonical key, all triples for the order axioms; distinct by content of the family',
                runs=[R('h_cpp', 'C17', 'prod', 64000, 1600000), R('h_cpp', 'C17', 'asan', 6000, 150000)]),
    'C18': dict(rule='generated multi-threaded programs using the extracted runtime, run to the end or ended by SIGKILL at random moments, by themselves between points, or at chosen byte offsets of the output (file size limit); files decoded independently and by the library and compared with what each thread recorded and had completed; non-trivial: at least one point; distinct by order of threads and length of file',
                pre=runtime.c18, replay=runtime.replay,
                runs=[R('h_rt', 'C18R', 'prod', 4000, 100000), R('h_rt', 'C18R', 'asan', 400, 10000), R('h_rt', 'C18R', 'tsan', 400, 10000)]),
    'C19': dict(rule='generated C and C++ programs (several source files, compilers and sanitizers) recording known values through the extracted runtime to files, pipes, standard streams and handshake-selected outputs, read back and compared; non-trivial: at least one point; distinct by content',
                pre=runtime.c19, replay=runtime.replay,
                runs=[R('h_rt', 'C19R', 'prod', 16000, 400000), R('h_rt', 'C19R', 'asan', 1600, 40000)]),
    'C20': dict(rule='sizes, offsets, constants and function types of the compiled headers compared with the Lisp declarations one by one, then the shared library driven through a binding generated from these declarations with random traces, in-memory points, predicates and queries, compared with what was written and a reference; in addition the library driven directly through these declarations; distinct by content of the trace',
                pre=bindcheck.pre, replay=bindcheck.replay,
                runs=[R('h_read', 'C01', 'prod', 4000, 100000, base=60000000), R('h_read', 'C21', 'prod', 2000, 50000, base=60000000), R('h_query', 'C06', 'prod', 1000, 25000, base=60000000)]),
    'C23': dict(rule="the repository's Lisp database code run by an evaluator over the real shared library: random histories of adds (files, points, failing ones), stores and restores, restricted views, binary and S-expression databases; everything retrieved compared with a model; in addition the same foreign functions driven directly with add and serialization histories; distinct by content",
                pre=lisp('C23', 1600, 40000),
                runs=[R('h_read', 'C21', 'prod', 4000, 100000, base=50000000), R('h_read', 'C01', 'prod', 4000, 100000, base=50000000), R('h_query', 'C03', 'prod', 800, 20000, base=50000000)]),
    'C26': dict(rule="the repository's Lisp query code run by an evaluator over the real shared library: random queries (types by name, predicates, soft predicates, files, picks, filters) on binary, restricted and S-expression databases compared with a reference; in addition the same foreign function driven directly with queries; distinct by query and answer",
                pre=lisp('C26', 1600, 40000),
                runs=[R('h_query', p, 'prod', 2000, 50000, base=50000000) for p in ('C06', 'C07', 'C09', 'C10')]),
    'C27': dict(rule="the repository's Lisp database code run by an evaluator with a monitor of every foreign allocation, object and release: after each operation nothing it took remains held, nothing is released twice, and databases are released by their finalizers; in addition the foreign functions themselves in repeated rounds with the live memory compared; distinct by content",
                pre=lisp('C27', 1200, 30000),
                runs=[R('h_fault', 'C14', 'alloc', 6000, 150000, base=50000000)]),
    'C25': dict(rule='traces with exactly one departure from the format, mutated and random bytes, and valid traces, decoded by an independent decoder; acceptance and, when accepted, the whole content compared for read_trace and add_trace; distinct by bytes',
                runs=[R('h_fuzz', 'C25', 'prod', 320000, 8000000, ct=20, as_gb=1), R('h_fuzz', 'C25', 'asan', 40000, 1000000, ct=40)]),
    'C22': dict(rule='random predicate trees of every kind printed, parsed and compared; non-trivial: not a leaf, distinct by text',
                runs=[R('h_cpp', 'C22', 'prod', 40000, 1000000), R('h_cpp', 'C22', 'asan', 8000, 200000)]),
    'C21': dict(rule='random sequences of file and in-memory adds, all traces re-checked after each add; non-trivial: more than one add, distinct by content',
                runs=[R('h_read', 'C21', 'prod', 16000, 400000), R('h_read', 'C21', 'asan', 2400, 60000)]),
}


def jobs(run, plan):
    th = run.tier == 'thorough'
    fin = []
    for r in plan.get('runs', []):
        fin.append(run.builder.start(r['cfg'], r['harness'], **options(r['harness'])))
    js = []
    for r, f in zip(plan.get('runs', []), fin):
        js.append(dict(exe=f(), harness=r['harness'], cfg=r['cfg'], arg=r['arg'], count=r['n'][th], budget=r['budget'][th], case_timeout=r['ct'],
                       env=r.get('env'), wrap=r.get('wrap'), shards=r.get('shards', vlib.NCPU), as_gb=r.get('as_gb', 12), base=r.get('base', 20000000 if r.get('wrap') else 0 if r['cfg'] == 'prod' else 10000000)))
        name = r.get('wrap') or r['cfg']
        if name not in run.configs:
            run.configs.append(name)
    return js


def execute(run, plan):
    if 'pre' in plan:
        plan['pre'](run)
    js = jobs(run, plan)
    if js:
        run.cases(js)
    if 'post' in plan:
        plan['post'](run)


def replay(run, plan, rp):
    if rp.get('custom'):
        plan['replay'](run, rp)
        return
    if rp['harness_name'] in ('bind_driver', 'lisp_driver'):
        rp['env'] = {'VERIF_SO': run.builder.shared()}
        f = lambda: vlib.VERIF + '/%s.py' % rp['harness_name']
    else:
        f = run.builder.start(rp['config'], rp['harness_name'], **options(rp['harness_name']))
    frm, cnt = (rp['case'], 1) if rp['case'] is not None else (rp['frm'], rp['count'])
    run.cases([dict(exe=f(), harness=rp['harness_name'], cfg=rp['config'], arg=rp['arg'], base=frm, count=cnt, shards=1, budget=0, case_timeout=300, env=rp.get('env'), wrap=rp.get('wrap'))])
