"""C20: the Lisp declarations against the compiled interface, and the library driven through them."""
import os, subprocess
import binding, vlib
from lispread import LispError
from vlib import CheckError, Violation

KINDS = ['NULL_PREDICATE', 'VAR_REFERENCE', 'VAR_SIZE', 'VAR_VALUE', 'DISTINCT_VARS', 'SIGNED_VALUE', 'UNSIGNED_VALUE', 'FLOAT_VALUE', 'AND', 'OR', 'NOT', 'GREATER_THAN', 'GREATER_THAN_OR_EQUAL', 'LESS_THAN', 'LESS_THAN_OR_EQUAL', 'EQUAL', 'ADD', 'SUBTRACT', 'MULTIPLY', 'DIVIDE']
STRUCTS = {'c_trace_var_info_struct': 'var-info', 'c_trace_point_struct': 'trace-point', 'c_predicate': 'c-predicate', 'c_free_variable': 'c-free-variable'}


def fail(msg):
    raise Violation(msg, dict(property='C20', custom=True, probe=True, message=msg, config='probe', stderr=''))


def probe(run):
    try:
        b = binding.Binding(vlib.REPO)
        for n in ('var-info', 'trace-point', 'c-predicate', 'c-free-variable'):
            b.structs[n]
        b.enums['type-format'], b.enums['predicate-kind'], b.operators()
    except (LispError, KeyError) as e:
        raise CheckError('cannot extract the Lisp declarations: %r' % e)
    try:
        exe = run.builder.start('prod', 'h_probe', uses_repo=True)()
    except CheckError as e:
        run.notes.append('layout probe not built (%s); declarations judged by behaviour only' % str(e)[-300:])
        return
    out = subprocess.run([exe], stdout=subprocess.PIPE, check=True).stdout.decode()
    n = 0
    for l in out.splitlines():
        a = l.split()
        n += 1
        if a[0] == 'struct':
            s = binding.C.sizeof(b.structs[STRUCTS[a[1]]])
            if s != int(a[2]):
                fail('structure %s has %s bytes, declared with %d' % (a[1], a[2], s))
        elif a[0] == 'field':
            S = b.structs[STRUCTS[a[1]]]
            f = getattr(S, a[2], None)
            if f is None:
                fail('field %s of %s is not declared' % (a[2], a[1]))
            if (f.offset, f.size) != (int(a[3]), int(a[4])):
                fail('field %s of %s is at %s with %s bytes, declared at %d with %d' % (a[2], a[1], a[3], a[4], f.offset, f.size))
            d = b.desc(dict((x[0].replace('-', '_'), x[1]) for x in b.fieldtypes[STRUCTS[a[1]]])[a[2]])
            if a[5] != d and not a[5].startswith('other'):
                fail('field %s of %s is %s, declared as %s' % (a[2], a[1], a[5], d))
        elif a[0] == 'enum':
            d = b.enums['type-format'].get(':' + a[2].lower().replace('_', '-'))
            if d != int(a[3]):
                fail('constant %s is %s, declared as %s' % (a[2], a[3], d))
        elif a[0] == 'fn':
            if a[1] not in b.funcs:
                continue
            _, _, r, args = b.funcs[a[1]]
            d = [b.desc(r)] + [b.desc(x) for x in args]
            if d != a[2:]:
                fail('function %s has result and arguments %s, declared as %s' % (a[1], ' '.join(a[2:]), ' '.join(d)))
    run.stats['declarations_compared'] = n
    run.evals += n
    run.extra += n


def pre(run):
    probe(run)
    n = 2400 if run.tier == 'quick' else 60000
    so = run.builder.shared()
    run.configs.append('prod shared library')
    run.cases([dict(exe=vlib.VERIF + '/bind_driver.py', harness='bind_driver', cfg='prod', arg='C20', count=n, budget=60 if run.tier == 'quick' else 1500, case_timeout=60, env={'VERIF_SO': so})])


def replay(run, rp):
    probe(run)
