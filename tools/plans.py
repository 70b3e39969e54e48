"""How the check of each property is run (the default: one sanitizer build of checks/ID.cpp, its cases over all cores)."""


import os


def default(R, pid, seed, tier):
    exe, = R.build([(pid, R.VARIANT_OF.get(pid, 'asan'))])
    res = R.run_binary(exe, seed, tier == 'thorough')
    if tier == 'thorough' and R.VARIANT_OF.get(pid) is None:
        f = R.fuzz(pid, seed, int(os.environ.get('VERIF_FUZZ_S', '240')))
        res['violations'] += f['violations']
        res['extra'] = {'libfuzzer': f['stats']}
    return res


def merge(res, part, variant, prefix):
    for v in part['violations']:
        v['variant'] = variant
        res['violations'].append(v)
    for k in ('cases', 'ops_returned', 'ops_threw', 'io_polls', 'discoveries', 'comparisons'):
        if part['counts'].get(k):
            res['counts'][prefix + k] = part['counts'][k]
    res['inconclusive'] += part['inconclusive']


def m02(R, pid, seed, tier):
    """Same script, different memory: inside one process, between builds that fill the stack differently, and under memcheck."""
    thorough = tier == 'thorough'
    asan, zero, pattern, plain = R.build([(pid, v) for v in ('asan', 'zero', 'pattern', 'plain')])
    res = R.run_binary(asan, seed, thorough)
    n = res['n']
    z = R.run_binary(zero, seed, thorough, cases=n)
    p = R.run_binary(pattern, seed, thorough, cases=n)
    merge(res, z, 'zero', 'zero_')
    merge(res, p, 'pattern', 'pattern_')
    base = res['sets'].pop('transcripts', set())
    for name, other in (('zero', z), ('pattern', p)):
        s = other['sets'].get('transcripts', set())
        # a transcript is recorded as case number << 40 | hash; only cases of which all builds have one are compared
        a = {h >> 40: h for h in base}
        for h in sorted(s):
            if h >> 40 in a and a[h >> 40] != h:
                res['violations'].append({'violation': 'differs-between-builds', 'case': h >> 40, 'variant': name, 'desc': '',
                                          'message': 'the build that fills automatic variables (%s) observed something else; '
                                                     'compare the transcripts printed by --only %d' % (name, h >> 40)})
                break
        res['counts']['compared_with_' + name] = len([h for h in s if h >> 40 in a])
    v = R.run_binary(plain, seed, thorough, wrapper=R.VALGRIND, cases=4000 if thorough else 240, hang_s=300)
    merge(res, v, 'plain', 'memcheck_')
    res['extra'] = {'builds': ['asan+ubsan', '-ftrivial-auto-var-init=zero', '-ftrivial-auto-var-init=pattern', 'valgrind memcheck']}
    return res


PLANS = {'M02': m02}
