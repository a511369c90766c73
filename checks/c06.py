"""C06 the compiled parser under sanitizers, coverage-guided fuzzing and differently initialised builds."""
import glob
import json
import os
import pickle
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import boot
import rawgen
import scen
from gemsim import NEW
from mon import Check, SEED, VERIF, pick

FUZZ = os.path.join(VERIF, 'lib', 'parsefuzz.py')
SAN = '-fsanitize=address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer'
BUILDS = {}


def so_of(root):
    return glob.glob(os.path.join(root, 'gemlog', 'parsers*.so'))[0]


def build_all():
    cov = os.path.join(boot.scratch(), 'cov.o')
    subprocess.run(['clang', '-O1', '-fPIC', '-c', os.path.join(VERIF, 'lib', 'cov.c'), '-o', cov], check=True)
    jobs = {
        'asan': ('clang', '-O1 -g -Wno-error %s -fsanitize-coverage=trace-pc-guard' % SAN,
                 '%s -shared-libasan %s' % (SAN, cov)),
        'zero': ('gcc', '-O0 -ftrivial-auto-var-init=zero', ''),
        'pattern': ('gcc', '-O0 -ftrivial-auto-var-init=pattern', ''),
    }
    with ThreadPoolExecutor(3) as ex:
        fs = {k: ex.submit(boot.build_variant, k, *v) for k, v in jobs.items()}
        for k, f in fs.items():
            BUILDS[k] = so_of(f.result())
    BUILDS['plain'] = so_of(boot.build())


def env(san, d):
    e = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
    e.update(PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if san:
        rt = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True,
                            text=True).stdout.strip()
        e.update(LD_PRELOAD=rt, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:log_path=%s/san:max_malloc_fill_size=4096:'
                 'malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1'
                 % d, UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:abort_on_error=1:log_path=%s/san' % d)
    return e


def keep(ctx, d, name):
    """The input that was being parsed -> evidence/replay."""
    rd = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(d, 'cur')
    if os.path.exists(p):
        q = os.path.join(rd, 'C06_input_%s' % name)
        shutil.copy(p, q)
        return q
    return 'none'


def died(ctx, r, d, what):
    logs = ''.join(open(p, errors='replace').read() for p in sorted(glob.glob(d + '/san*')))
    txt = logs + r.stderr.decode(errors='replace')
    m = re.search(r'ERROR: AddressSanitizer: (\S+)|runtime error: ([^\n]*)', txt)
    if m is None and r.returncode in (-9,):
        raise MemoryError('killed')
    if m is None and 'ReserveShadowMemoryRange failed' in txt:      # the run's own limits, not the parser
        raise MemoryError('no address space for the sanitizer')
    kind = 'crash' if m is None else ('asan-' + m.group(1) if m.group(1) else 'ubsan')
    ctx.bad(kind, '%s: %s; input kept in %s\n%s' % (what, m.group(0) if m else 'exit status %d' % r.returncode,
                                                   keep(ctx, d, ctx.name), txt[-900:] if m is None else txt[:900]))


def case_fuzz(ctx, k, build):
    d = ctx.dir
    secs = pick(22, 420)
    r = subprocess.run([boot.PY, FUZZ, 'fuzz', BUILDS[build], str(int(ctx.rng.integers(2 ** 40))), str(secs), d],
                       env=env(build == 'asan', d), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ctx.call(lambda: None)
    if r.returncode != 0 or glob.glob(d + '/san*'):
        died(ctx, r, d, 'fuzzing the %s build' % build)
        return
    q = json.load(open(os.path.join(d, 'result.json')))
    ctx.obs('files_parsed_%s' % build, q['execs'])
    ctx.obs('parses_that_raised', q['raised'])
    ctx.obs('rows_returned', q['rows'])
    ctx.obs('repeated_parses_compared', q['rechecks'])
    ctx.obs('open_file_checks', q['execs'])
    for key, msg, data in q['problems'][:3]:
        ctx.bad(key, '%s [input starts %r]' % (msg, bytes.fromhex(data)[:120]))
    if q['rss'] and len(q['rss']) > 8:
        a, b = np.median(q['rss'][2:5]), np.median(q['rss'][-3:])
        ctx.check(b < a + 600e6, 'memory-grows', 'resident memory grew from %.0f to %.0f MB over %d parses' % (
            a / 1e6, b / 1e6, q['execs']))
    if build == 'asan':
        ctx.obs('edges_covered_sum', q['edges'])
        ctx.sig(k, build, q['edges'], q['pool'], q['distinct'])
        ctx.note('%d files, %d of %d instrumented edges, corpus %d, exceptions %s' % (
            q['execs'], q['edges'], q['edges_total'], q['pool'], q['exceptions']))
    for i in range(min(q['distinct'], 400)):
        ctx.sig(k, build, i)


def corpus(rng, d, n):
    out = []
    os.makedirs(d)
    pool = [rawgen.build(rng, 40) for _ in range(10)]
    import parsefuzz
    for i in range(n):
        u = rng.random()
        if u < 0.5:
            s = rawgen.build(rng, int(rng.integers(0, 80)), p_damaged=0.4, p_over=0.1, p_other=.2, crlf=rng.random() < .1)
        else:
            s = parsefuzz.mutate(rng, pool[int(rng.integers(len(pool)))], pool)
        # a first line that leaves much unset
        if rng.random() < .5:
            s = rng.choice([b'D\n', b'G\n', b'M\n', b'm\n', b'M,1\n', b'G,1,2\n', b'D,5\n', b'D5\n', b'M,1,2,3,4,5,6\n',
                            b'G,1,2,2020,1\n', b'mm\n', b'D7,\n']) + s
        p = os.path.join(d, 'f%04d' % i)
        open(p, 'wb').write(s)
        out.append((p, 400))
    for i, v in enumerate(NEW):
        lg = scen.logger(rng, v)
        p = os.path.join(d, 'log%d' % i)
        s = lg.record(0, 20.0).text().encode()
        open(p, 'wb').write(s[:int(rng.integers(len(s)))] if i % 2 else s)
        out.append((p, None))
    return out


def digest_run(ctx, build, files, tag, san=False):
    lst = os.path.join(ctx.dir, tag + '.lst')
    with open(lst, 'w') as f:
        for p, n in files:
            f.write('%s\t%s\n' % (p, n))
    out = os.path.join(ctx.dir, tag + '.json')
    r = subprocess.run([boot.PY, FUZZ, 'digest', BUILDS[build], lst, out], env=env(san, ctx.dir), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if r.returncode != 0:
        died(ctx, r, ctx.dir, 'parsing the corpus with the %s build' % build)
        return None
    return json.load(open(out))


def case_init(ctx, k):
    """Answers must not depend on what uninitialised memory or earlier files contained."""
    rng = ctx.rng
    files = corpus(rng, os.path.join(ctx.dir, 'corpus'), pick(800, 5000))
    runs = {'zero-filled locals': digest_run(ctx, 'zero', files, 'zero'),
            'pattern-filled locals': digest_run(ctx, 'pattern', files, 'pattern'),
            'reverse order': digest_run(ctx, 'plain', files[::-1], 'rev'),
            'in order': digest_run(ctx, 'plain', files, 'fwd'),
            'shuffled order': digest_run(ctx, 'zero', [files[i] for i in rng.permutation(len(files))], 'shuf')}
    if any(v is None for v in runs.values()):
        return
    names = list(runs)
    for nm in names[1:]:
        diff = [q for q in runs[names[0]] if runs[names[0]][q] != runs[nm][q]]
        ctx.obs('answers_compared_between_builds', len(runs[nm]))
        if diff:
            p = os.path.join(ctx.dir, 'corpus', diff[0].split('\t')[0])
            s = open(p, 'rb').read()
            shutil.copy(p, os.path.join(ctx.dir, 'cur'))
            ctx.bad('depends-on-history', '%d of %d files parse differently with %s and with %s; e.g. %r... (%s)' % (
                len(diff), len(files), names[0], nm, s[:150], keep(ctx, ctx.dir, ctx.name)))
            return
    # each file alone in a fresh process
    pick_ = [files[i] for i in rng.choice(len(files), pick(4, 25), replace=False)]
    for p, n in pick_:
        one = digest_run(ctx, 'plain', [(p, n)], 'one')
        if one is None:
            return
        key = list(one)[0]
        ctx.obs('fresh_process_parses')
        ctx.check(one[key] == runs['in order'][key], 'depends-on-history',
                  '%s parses differently in a fresh process: %r' % (key, open(p, 'rb').read()[:150]))
    for q in set(runs['in order'].values()):
        ctx.sig(q)


def case_misuse(ctx):
    for build in ('asan', 'plain'):
        d = ctx.sub(build)
        r = subprocess.run([boot.PY, FUZZ, 'misuse', BUILDS[build], d], env=env(build == 'asan', d),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            died(ctx, r, d, 'odd arguments')
            return
        for args, what in json.load(open(d + '/result.json')):
            ctx.obs('odd_arguments')
            ctx.check(what not in ('SystemError', 'LEAK'), 'odd-arguments', '%s: %s' % (args, what))
            ctx.sig(args, what)


def case_threads(ctx):
    """Concurrent parses of different files in one process give the same answers (no shared state)."""
    import gemlog.parsers as parsers
    import parsefuzz
    rng = ctx.rng
    files = corpus(rng, os.path.join(ctx.dir, 'corpus'), 60)
    ref = {p: parsefuzz.one(parsers, p, 400 if n else None)[1] for p, n in files}
    def work(pn):
        return pn[0], parsefuzz.one(parsers, pn[0], 400 if pn[1] else None)[1]
    with ThreadPoolExecutor(8) as ex:
        for p, dg in ex.map(work, [files[i] for i in rng.integers(0, len(files), pick(1500, 10000))]):
            ctx.obs('threaded_parses')
            if dg != ref[p]:
                ctx.bad('threads', 'parsing %s in parallel threads gives another result' % p)
                return
    ctx.sig(len(files))


def case_python_reader(ctx, k):
    """The wrapper around the parser: any bytes -> a result or an ordinary exception, nothing left open."""
    import gemlog.core as core
    rs = getattr(core, '_read_single', None)
    rng = ctx.rng
    import parsefuzz
    pool = [rawgen.build(rng, 40) for _ in range(5)]
    lg = scen.logger(rng, '0.91')
    pool.append(lg.record(0, 15.0).text().encode())
    p = os.path.join(ctx.dir, 'FILE0000.' + lg.SN)
    fd0 = None
    import gemlog
    for i in range(pick(25, 150)):
        s = parsefuzz.mutate(rng, pool[int(rng.integers(len(pool)))], pool)
        open(p, 'wb').write(s)
        res, exc = ctx.call(gemlog.read_gem, ctx.dir, nums=np.arange(3), SN=lg.SN)
        n = parsefuzz.nfd()
        fd0 = n if fd0 is None else fd0
        ctx.obs('read_gem_on_damaged_files')
        ctx.check(exc is None or isinstance(exc, Exception), 'odd-exception', 'read_gem raised %r on damaged input' % exc)
        if not ctx.check(n <= fd0, 'file-left-open', 'read_gem left a file open (%d, was %d)' % (n, fd0)):
            return
    ctx.sig(k, i)


def case_valgrind(ctx):
    if not shutil.which('valgrind'):
        return
    rng = ctx.rng
    files = corpus(rng, os.path.join(ctx.dir, 'corpus'), 250)
    lst = os.path.join(ctx.dir, 'l')
    with open(lst, 'w') as f:
        for p, n in files:
            f.write('%s\t%s\n' % (p, n or 400))
    r = subprocess.run(['valgrind', '--error-exitcode=0', '--num-callers=30', '--log-file=%s/vg' % ctx.dir, boot.PY, FUZZ,
                        'digest', BUILDS['zero'], lst, ctx.dir + '/o.json'], env=env(False, ctx.dir),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise MemoryError('valgrind run failed: %s' % r.stderr[-200:])
    log = open(ctx.dir + '/vg').read()
    blocks = re.split(r'==\d+== \n', log)
    hits = [b for b in blocks if 'parse_gemfile' in b and ('uninitialised' in b or 'Invalid' in b)]
    ctx.obs('valgrind_files', len(files))
    ctx.check(not hits, 'valgrind', 'memcheck: %s' % (hits[:1]))
    ctx.sig(len(files))


def make():
    c = Check('C06', 'coverage-guided fuzzing (grammar plus mutation) of the parser built from the current tree with '
              'AddressSanitizer and UndefinedBehaviorSanitizer; the same files parsed by builds whose locals start zeroed '
              'or pattern-filled, in different orders and in fresh processes; open files, exceptions, resident memory and '
              'returned arrays monitored after every parse; distinct = file contents (capped per process)',
              assumptions=['clang 18 sanitizers see every access of the generated C code; Python and numpy are trusted',
                           'a longer run of the loop would visit more inputs: no claim beyond those parsed'],
              need=['files_parsed_asan', 'answers_compared_between_builds', 'repeated_parses_compared', 'odd_arguments'],
              cpu_s=1200, wall_s=1500)
    build_all()
    for k in range(pick(6, 7)):
        c.add('fuzz_asan_%d' % k, case_fuzz, k=k, build='asan')
    c.add('fuzz_plain', case_fuzz, k=0, build='plain')
    for k in range(pick(2, 6)):
        c.add('init_%d' % k, case_init, k=k)
    c.add('misuse', case_misuse)
    c.add('threads', case_threads)
    for k in range(pick(3, 8)):
        c.add('reader_%d' % k, case_python_reader, k=k)
    if pick(False, True):
        c.add('valgrind', case_valgrind)
    return c
