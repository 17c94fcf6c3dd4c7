"""C23: bin/wrap-redrock - every spectra file without results is run once, on one node, with the options given.

Encoded: bin/wrap-redrock (all of it), the argument parsers of redrock.external.desi.rrdesi and redrock.external.boss.rrboss.
Symbolic: weights, target ids, return codes of the commands, which results exist beforehand or are produced, rank order.
The commands themselves are not run: a stand-in records them. Files live in a scratch directory."""
import argparse
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import time
import types

import numpy as np

from .. import par

PROPERTY = 'C23'
ASSUMPTIONS = ['rrdesi, rrboss and FITS reading are stand-ins that record their arguments; files live in a scratch directory',
               'there is at least one spectra file']


CLOCK = types.SimpleNamespace(**vars(time))
CLOCK.sleep = lambda t: None
CLOCK.asctime = CLOCK.ctime = CLOCK.strftime = lambda *a: 'now'
for _k in ('time', 'perf_counter', 'monotonic', 'process_time'):
    setattr(CLOCK, _k, lambda: 0.0)

RC = (0, 1, 2, -9)      # what a command returns: done, failed, killed


class Parsed(BaseException):
    def __init__(self, args):
        self.opts = args


@contextlib.contextmanager
def parsing():
    """parsers hand over what they parsed instead of running"""
    old = argparse.ArgumentParser.parse_args

    def parse_args(self, *a, **k):
        raise Parsed(old(self, *a, **k))
    argparse.ArgumentParser.parse_args = parse_args
    try:
        yield
    finally:
        argparse.ArgumentParser.parse_args = old


def parse(fn, *a):
    with parsing(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            fn(*a)
        except Parsed as p:
            return p.opts
        except SystemExit:
            return None
    return None


class Scratch:
    def __init__(self, ctx):
        self.d = tempfile.mkdtemp(prefix='c23.')
        ctx.onclose(lambda: shutil.rmtree(self.d, ignore_errors=True))

    def put(self, *parts, text='x'):
        p = os.path.join(self.d, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        return p


class FitsStub(types.SimpleNamespace):
    """FIBERMAPs with the given target ids"""

    def __init__(self, ids):
        self.ids = ids
        self.read = []
        super().__init__()

    def getdata(self, path, ext=None, *a, **k):
        key = ext if isinstance(ext, str) else k.get('extname')
        assert key == 'FIBERMAP', key
        self.read.append(path)
        return {'TARGETID': self.ids[os.path.basename(path)]}

    def open(self, path, *a, **k):
        stub = self

        class H(dict):
            def __enter__(self):
                return self

            def __exit__(self, *e):
                return None

            def close(self):
                pass

            def __getitem__(self, ext):
                return types.SimpleNamespace(data=stub.getdata(path, ext))
        return H()


def script(ctx):
    m = ctx.rr.script('wrap-redrock')
    m.nersc_login_node = lambda: False
    return m


def args_of(ctx, m, argv):
    """the options as wrap-redrock parses them"""
    old = sys.argv
    sys.argv = ['wrap-redrock'] + argv
    got = []
    run, plan = m.run_redrock, m.plan
    m.run_redrock = m.plan = lambda args, comm=None: got.append(args)
    try:
        m.main()
    finally:
        sys.argv = old
        m.run_redrock, m.plan = run, plan
    return got[0]


def is_partition(ctx, groups, n, what):
    flat = sorted(int(i) for g in groups for i in g)
    ctx.check(flat == list(range(n)), what)


def balanced(ctx, groups, w):
    """heaviest first to the least loaded: without its lightest member no group is heavier than any other"""
    tot = [sum([w[int(i)] for i in g], ctx.const(0.0)) for g in groups]
    for g, t in zip(groups, tot):
        if len(g):
            lightest = ctx.min(*[w[int(i)] for i in g])
            for t2 in tot:
                ctx.le(t - lightest, t2 + 1e-9, 'files go, longest first, to the node that is done first')
    return tot


# ------------------------------------------------------------------------------------------------

def h_partition(ctx, n, k, order=False):
    m = script(ctx)
    w = [ctx.real(f'w{i}', 0, 1000) for i in range(n)]
    if order:
        for a, b in zip(w, w[1:]):
            ctx.assume(a <= b)
    groups, sums = m.weighted_partition(ctx.arr(w), k)
    ctx.check(len(groups) == k and len(sums) == k, 'one group per node')
    is_partition(ctx, groups, n, 'every file is in exactly one group')
    tot = balanced(ctx, groups, w)
    for s, t in zip(sums, tot):
        ctx.eq(s, t, 'the weight of a group is the sum of its weights')
    for g in groups:
        for a, b in zip(g, g[1:]):
            ctx.le(w[int(b)], w[int(a)], 'within a group the weights are sorted largest to smallest')
    ctx.cover('done')


def h_partition_many(ctx, n, k):
    """many files with concrete, one with any weight"""
    m = script(ctx)
    w = [30.0 + 7 * (i * 5 % 11) for i in range(n)]
    w[n // 2] = ctx.real('w', 0, 100)
    groups, sums = m.weighted_partition(ctx.arr(w), k)
    is_partition(ctx, groups, n, 'every file is in exactly one group')
    w = [ctx.const(x) if isinstance(x, float) else x for x in w]
    for s, t in zip(sums, balanced(ctx, groups, w)):
        ctx.eq(s, t, 'the weight of a group is the sum of its weights', tol=1e-6)
    ctx.cover('done')


def h_find(ctx, outdir, layout):
    """exactly the spectra files of which the catalog or the details are missing"""
    m = script(ctx)
    s = Scratch(ctx)
    prefix = 'spPlate' if layout == 'boss' else 'spectra'
    where = {'flat': ['100/10016', '100/10017'], 'same': ['1/20', '1/21'], 'boss': ['3586', '3587']}[layout]
    specs = [s.put('in', d, f'{prefix}-{os.path.basename(d)}.fits') for d in where]
    for other in (f'coadd-{prefix}-1.fits', f'{prefix}-1.fits.gz', f'{prefix}-1.txt', 'redrock-1.fits', 'zbest-1.fits'):
        s.put('in', where[0], other)
    far = s.put('elsewhere', '77', f'{prefix}-77.fits')
    os.symlink(os.path.dirname(far), os.path.join(s.d, 'in', '77'))
    far = os.path.join(s.d, 'in', '77', os.path.basename(far))
    avoid = None
    if layout == 'boss':
        avoid = os.path.join(s.d, 'in', 'spectra')
        s.put('in', 'spectra', 'full', '3586', 'spPlate-9.fits')
        s.put('in', 'spectra', 'spPlate-8.fits')
    out = os.path.join(s.d, 'out')
    os.makedirs(out)
    todo = [far]
    for i, f in enumerate(specs):
        d = out if outdir else os.path.dirname(f)
        b = os.path.basename(f)
        have = [ctx.flag(f'rr{i}'), ctx.flag(f'det{i}')]
        if have[0]:
            s.put(os.path.join(d, b.replace(prefix, 'redrock')))
        if have[1]:
            s.put(os.path.join(d, b.replace(prefix, 'rrdetails').replace('.fits', '.h5')))
        if not all(have):
            todo.append(f)
    got = m.find_specfiles(os.path.join(s.d, 'in'), outdir=out if outdir else None, prefix=prefix, avoiddir=avoid)
    ctx.check(sorted(str(g) for g in got) == sorted(todo),
              'exactly the spectra files without catalog or without details', f'{list(got)} {todo}')
    ctx.cover('done')


def h_group(ctx, nf, size, nid=3, sched='order'):
    """files are grouped by the number of their targets, the same on all ranks"""
    m = script(ctx)
    files = [f'/x/{i}/spectra-{i}.fits' for i in range(nf)]
    ids, counts = {}, []
    for i in range(nf):
        # nid rows, of one or several targets
        v = [ctx.int(f'id{i}_{j}', 1, 3) for j in range(nid)]
        ids[f'spectra-{i}.fits'] = ctx.oarr(v, 'i8') if ctx.symbolic else np.array(v, dtype='i8')
        c = 0
        for k in (1, 2, 3):
            c = c + ctx.ite(ctx.Or(*[x == k for x in v]), 1, 0)
        counts.append(c)

    def rank(comm):
        m2 = script(ctx)
        m2.fits = FitsStub(ids)
        return m2.group_specfiles(list(files), maxnodes=8, comm=comm), m2.fits.read
    outs = [rank(None)] if size is None else par.run_ranks(ctx, size, rank, sched)
    read = sorted(f for o in outs for f in o[1])
    ctx.check(read == sorted(files), 'each file is looked at by one rank')
    run = [30 + ctx.const(0.4) * c for c in counts]
    for (groups, nt, times), _ in outs:
        ctx.check(len(groups) == (1 if size is None else size), 'one group per rank')
        is_partition(ctx, groups, nf, 'every file is in exactly one group')
        tot = balanced(ctx, groups, run)
        for g, n, t, e in zip(groups, nt, times, tot):
            ctx.eq(n, sum([counts[int(i)] for i in g], 0), 'targets of the files of the group')
            ctx.eq(t, e, 'expected time of the group', tol=1e-6)
        ctx.check([[int(i) for i in g] for g in groups] == [[int(i) for i in g] for g in outs[0][0][0]],
                  'all ranks agree on the groups')
    ctx.cover('done')


def h_group_many(ctx, nf, size, which):
    """more files per rank, of different numbers of targets, one of any"""
    m = script(ctx)
    files = [f'/x/{i}/spectra-{i}.fits' for i in range(nf)]
    ids, counts = {}, []
    for i in range(nf):
        n = 1 + (3 * i) % 7
        v, c = np.repeat(np.arange(n) + 100 * i, 2), n
        if i == which:
            x = [ctx.int(f'id{j}', 1, 9) for j in range(3)]
            v = ctx.oarr(x, 'i8') if ctx.symbolic else np.array(x, dtype='i8')
            c = sum(ctx.ite(ctx.And(*[y != x[j] for y in x[:j]]), 1, 0) for j in range(3))
        ids[f'spectra-{i}.fits'] = v
        counts.append(c)

    def rank(comm):
        m2 = script(ctx)
        m2.fits = FitsStub(ids)
        return m2.group_specfiles(list(files), maxnodes=8, comm=comm)
    outs = [rank(None)] if size is None else par.run_ranks(ctx, size, rank, 'order')
    run = [30 + ctx.const(0.4) * c for c in counts]
    for groups, nt, times in outs:
        is_partition(ctx, groups, nf, 'every file is in exactly one group')
        for g, n, t, e in zip(groups, nt, times, balanced(ctx, groups, run)):
            ctx.eq(n, sum([counts[int(i)] for i in g], 0), 'targets of the files of the group')
            ctx.eq(t, e, 'expected time of the group', tol=1e-6)
    ctx.cover('done')


def h_nodes(ctx):
    """without MPI: as many nodes as 25 minutes each take, not more than allowed"""
    m = script(ctx)
    nf = [1, 3, 5][ctx.choice('nf', 3)]
    nt = [10, 3675, 9000][ctx.choice('nt', 3)]
    maxn = [1, 2, 256][ctx.choice('maxn', 3)]
    m.fits = FitsStub({f'spectra-{i}.fits': np.repeat(np.arange(nt) + 1000 * i, 2) for i in range(nf)})
    groups, ntg, times = m.group_specfiles([f'/x/spectra-{i}.fits' for i in range(nf)], maxnodes=maxn)
    total = nf * (30 + 0.4 * nt)
    ctx.check(len(groups) == min(maxn, int(np.ceil(total / 1500))), 'nodes for 25 minutes each, at most maxnodes')
    is_partition(ctx, groups, nf, 'every file is in exactly one group')
    ctx.check(int(np.sum(np.asarray(ntg, dtype=float))) == nf * nt, 'all targets are counted')
    ctx.check(abs(float(np.sum(np.asarray(times, dtype=float))) - total) < 1e-6, 'all times are counted')
    ctx.cover('done')


class Runs:
    """stand-in for subprocess: records the commands; return codes and products are symbolic"""

    def __init__(self, ctx, files, products, error=None, simple=False):
        self.ctx, self.files, self.products, self.error = ctx, files, products, error
        self.calls, self.simple = [], simple

    def run1(self, cmd, stdout=None):
        cmd = [str(c) for c in cmd] if not isinstance(cmd, str) else cmd.split()
        which = [i for i, f in enumerate(self.files) if f in cmd]
        i = which[0] if which else None
        n = len([1 for c in self.calls if c[0] == i])
        self.calls.append((i, cmd))
        if hasattr(stdout, 'write'):
            stdout.write(f'log {i} {n}')
        if self.error == i:
            raise OSError('cannot start')
        rc = RC[self.ctx.choice(f'rc{i}_{n}', len(RC))]
        ok = bool(rc == 0)
        if ok:
            for p, name in zip(self.products[i], ('rr', 'det')):
                if self.simple or self.ctx.flag(f'made_{name}{i}'):
                    with open(p, 'w') as f:
                        f.write('new')
        return 0 if ok else rc

    def module(self):
        def call(cmd, *a, stdout=None, **k):
            return self.run1(cmd, stdout)

        def run(cmd, *a, stdout=None, check=False, **k):
            rc = self.run1(cmd, stdout)
            if check and bool(rc != 0):
                raise subprocess.CalledProcessError(1, cmd)
            return types.SimpleNamespace(returncode=rc)

        def check_call(cmd, *a, stdout=None, **k):
            return run(cmd, stdout=stdout, check=True).returncode

        class Popen:
            def __init__(p, cmd, *a, stdout=None, **k):
                p.returncode = self.run1(cmd, stdout)

            def wait(p, *a):
                return p.returncode

            def communicate(p, *a):
                return None, None

            def __enter__(p):
                return p

            def __exit__(p, *e):
                return None
        return types.SimpleNamespace(call=call, run=run, check_call=check_call, Popen=Popen, STDOUT=subprocess.STDOUT,
                                     PIPE=subprocess.PIPE, DEVNULL=subprocess.DEVNULL,
                                     CalledProcessError=subprocess.CalledProcessError)


def h_run(ctx, datatype, nf, size, outdir=False, done=False, error=None, opts=(), oldlogs=0, dry=False, maxnodes=None, simple=False, odd=None):
    """each file without results is run once, on one rank; a failed run is tried once more"""
    s = Scratch(ctx)
    prefix = 'spPlate' if datatype == 'boss' else 'spectra'
    files = [s.put('in', f'{odd or ""}{100 + i}', f'{prefix}-{100 + i}.fits') for i in range(nf)]
    if datatype == 'boss':
        s.put('in', 'spectra', 'full', '3586', 'spPlate-9.fits')
    out = os.path.join(s.d, 'out', 'deep') if outdir else None
    prod, logs, todo = [], [], []
    for i, f in enumerate(files):
        d = out or os.path.dirname(f)
        b = os.path.basename(f)
        prod.append((os.path.join(d, b.replace(prefix, 'redrock')),
                     os.path.join(d, b.replace(prefix, 'rrdetails').replace('.fits', '.h5'))))
        logs.append(prod[-1][0].replace('.fits', '.log'))
        if done == 'all' or done and ctx.flag(f'done{i}'):
            for p in prod[-1]:
                s.put(p, text='old')
        else:
            todo.append(i)
        for k in range(oldlogs):
            s.put(logs[-1] + (f'.{k}' if k + 1 < oldlogs else ''), text=f'old {k}')
    argv = ['--reduxdir', os.path.join(s.d, 'in'), '--datatype', datatype] + (['--outdir', out] if out else []) + list(opts)
    if dry:
        argv.append('--dryrun')
    if maxnodes:
        argv += ['--maxnodes', str(maxnodes)]
    if size is None:
        argv.append('--nompi')
    ids = {os.path.basename(f): np.arange(3 + 2 * i) for i, f in enumerate(files)}
    runs = Runs(ctx, files, prod, error, simple)
    printed = io.StringIO()

    def rank(comm):
        m = script(ctx)
        m.fits = FitsStub(ids)
        m.subprocess = runs.module()
        m.time = CLOCK
        a = args_of(ctx, m, argv + (['--nompi'] if size is not None else []))
        if size is not None:
            comm.barrier()
        m.print = lambda *a, **k: printed.write(' '.join(map(str, a)) + '\n')
        m.run_redrock(a, comm=comm)
    if size is None:
        rank(None)
    else:
        par.run_ranks(ctx, size, rank)
    text = printed.getvalue()
    if dry:
        ctx.check(not runs.calls, 'a dry run runs nothing')
        ctx.check(all(text.count(f) >= 1 for f in files), 'a dry run shows every command')
        ctx.cover('done')
        return
    per = {i: [c for j, c in runs.calls if j == i] for i in range(nf)}
    ctx.check(all(j is not None for j, c in runs.calls), 'only the spectra files found are run')
    rr = (ctx.rr.load("redrock.external.desi").rrdesi if datatype == "desi" else ctx.rr.load("redrock.external.boss").rrboss)
    for i in range(nf):
        if i not in todo:
            ctx.check(not per[i], 'files with results are not run again')
            ctx.check(all(open(p).read() == 'old' for p in prod[i]), 'results of other files are untouched')
            continue
        ctx.check(len(per[i]) >= 1, 'every file without results is run')
        if not per[i]:
            continue
        if error == i:
            ctx.check(len(per[i]) <= 2, 'not tried for ever')
            continue
        first = ctx.choice(f'rc{i}_0', len(RC)) == 0
        ctx.check(len(per[i]) == (1 if bool(first) else 2), 'run once, and once more when it failed')
        for cmd in per[i]:
            ctx.check(cmd[0] == ('rrdesi' if datatype == 'desi' else 'rrboss'), 'the program of the data type')
            got = parse(rr, cmd[1:])
            ctx.check(got is not None, 'the program accepts the options it is given', ' '.join(cmd))
            if got is None:
                continue
            if datatype == 'desi':
                ctx.check((got.infiles, got.outfile, got.details) == ([files[i]], prod[i][0], prod[i][1]),
                          'input, catalog and details of that file')
            else:
                ctx.check((got.spplate, got.zbest, got.output) == ([files[i]], prod[i][0], prod[i][1]),
                          'input, catalog and details of that file')
            want = dict(zip(list(opts)[::2], list(opts)[1::2]))
            ctx.check(got.nminima == int(want.get('--nminima', 3)), 'the number of minima asked for')
            ctx.check(got.mp == int(want['--mp']) if '--mp' in want else got.mp == 0, 'the number of processes asked for')
            ctx.check(got.archetypes == want.get('--archetypes'), 'the archetypes asked for')
        d = os.path.dirname(logs[i])
        left = [open(os.path.join(d, x)).read() for x in os.listdir(d) if x.startswith(os.path.basename(logs[i]))]
        for k in range(len(per[i])):
            ctx.check(left.count(f'log {i} {k}') == 1, 'the log of every run is kept')
        for k in range(oldlogs):
            ctx.check(left.count(f'old {k}') == 1, 'earlier logs are kept')
        ctx.check(open(logs[i]).read() == f'log {i} {len(per[i]) - 1}', 'the log is that of the last run')
        last = ctx.choice(f'rc{i}_{len(per[i]) - 1}', len(RC)) == 0
        if not bool(last):
            ctx.check(any(x.startswith(('FATAL', 'FAILED')) for x in text.splitlines()), 'a failure is reported')
        miss = [p for p in prod[i] if not os.path.exists(p)]
        if bool(last):
            for p in miss:
                ctx.check(any('ERROR' in x and x.rstrip().endswith(p) for x in text.splitlines()),
                          'a missing result is reported by its name')
        ctx.check(bool(miss) or not any('ERROR' in x and p in x for x in text.splitlines() for p in prod[i]),
                  'nothing is reported missing that is there')
    ctx.cover('done')


def h_plan(ctx, datatype, size=None):
    """the job script runs the same files with the same options on the planned nodes"""
    s = Scratch(ctx)
    prefix = 'spPlate' if datatype == 'boss' else 'spectra'
    nf = 3
    files = [s.put('in', f'{100 + i}', f'{prefix}-{100 + i}.fits') for i in range(nf)]
    nt = [20, 4000, 13000, 30000][ctx.choice('nt', 4 if datatype == 'desi' else 1)]
    mp = [None, '2', '4'][ctx.choice('mp', 3)]
    argv = ['--reduxdir', os.path.join(s.d, 'in'), '--plan', '--nompi', '--datatype', datatype]
    argv += ['--maxnodes', '2'] if datatype == 'boss' or ctx.flag('maxn') else []
    argv += ['--mp', mp] if mp else []
    more = []
    if ctx.flag('out'):
        more += ['--outdir', os.path.join(s.d, 'out')]
    if ctx.flag('opts'):
        more += ['--nminima', '5', '--archetypes', '/arch']
    argv += more
    ids = {os.path.basename(f): np.arange(nt) for f in files}
    m = script(ctx)
    m.fits = FitsStub(ids)
    m.time = CLOCK
    lines = []
    m.print = lambda *a, **k: lines.append(' '.join(map(str, a)))
    a = args_of(ctx, m, list(argv))
    had = {k: v for k, v in vars(a).items()}
    old = {k: os.environ.pop(k) for k in ('NERSC_HOST',) if k in os.environ}
    try:
        specs, groups, times = m.plan(a)
    finally:
        os.environ.update(old)
    lines = '\n'.join(lines).splitlines()
    is_partition(ctx, groups, nf, 'every file is in exactly one group')
    ctx.check(sorted(str(f) for f in specs) == sorted(files), 'all files are planned')
    get = lambda k: [x.split(k, 1)[1].strip() for x in lines if x.startswith(k)]
    ctx.check(get('#SBATCH -N') == [str(len(groups))], 'one node per group')
    if get('#SBATCH -t'):
        h, mi, se = map(int, get('#SBATCH -t')[0].split(':'))
        longest = max([sum((30 + 0.4 * nt) if datatype == 'desi' else 250 for i in g) for g in groups])
        scale = 4 / int(mp) if mp else 1
        ctx.check(h * 3600 + mi * 60 + se >= longest * scale, 'the job is long enough for the longest group')
    srun = [x.split() for x in lines if x.startswith('srun')]
    ctx.check(len(srun) == 1, 'one command to run')
    k = [j for j, x in enumerate(srun[0]) if x.endswith('wrap-redrock')]
    ctx.check(len(k) == 1, 'the job runs wrap-redrock')
    m2 = script(ctx)
    b = args_of(ctx, m2, srun[0][k[0] + 1:] + ['--nompi'])
    for opt in ('reduxdir', 'outdir', 'datatype', 'prefix', 'nminima', 'archetypes'):
        ctx.check(getattr(b, opt) == had[opt], f'the job has the options of the plan: {opt}', f'{getattr(b, opt)} {had[opt]}')
    ctx.check(b.mp == (int(mp) if mp else 4) and not b.plan, 'the job runs with the processes of the plan')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    add('partition42', h_partition, '4 files of any weight, 2 nodes', w=4, n=4, k=2)
    add('partition33', h_partition, '3 files of any weight, 3 nodes', w=2, n=3, k=3)
    add('partition24', h_partition, '2 files, 4 nodes: idle nodes', n=2, k=4)
    add('partition6', h_partition, '6 files in ascending order of weight, 3 nodes', w=5, n=6, k=3, order=True)
    add('partition_many', h_partition_many, '40 files, one of any weight, 7 nodes', w=5, n=40, k=7)
    for out in (0, 1):
        for lay in ('flat', 'boss'):
            add(f'find_{lay}{out}', h_find, 'every combination of results of two files there or not', w=2, outdir=bool(out), layout=lay)
    add('group', h_group, '2 files of 3 rows of any targets, no MPI', w=3, nf=2, size=None)
    add('group_mpi2', h_group, '3 files of 2 rows, 2 ranks in any order', w=6, nf=3, size=2, nid=2)
    add('group_mpi3', h_group, '2 files, 3 ranks: idle ranks', w=6, nf=2, size=3, nid=2)
    add('group_many', h_group_many, '5 files, 2 ranks, one file of any targets', w=5, nf=5, size=2, which=3)
    add('group_many3', h_group_many, '8 files, 3 ranks, one file of any targets', w=5, nf=8, size=3, which=6)
    add('nodes', h_nodes, '1-5 files, 10-9000 targets, at most 1, 2, 256 nodes', w=2)
    add('run', h_run, '2 DESI files, any return codes and products', w=5, datatype='desi', nf=2, size=None,
        opts=('--nminima', '7', '--mp', '3', '--archetypes', '/arch'))
    add('run_done', h_run, '3 DESI files, some with results, other output directory', w=5, datatype='desi', nf=2, size=None,
        outdir=True, done=True)
    add('run_names', h_run, 'directories of any name', w=3, datatype='desi', nf=2, size=None, odd='sv1-bright-', simple=True)
    add('run_none', h_run, 'nothing left to do', datatype='desi', nf=2, size=None, done='all')
    add('run_none_mpi', h_run, 'nothing left to do, 2 ranks', datatype='desi', nf=2, size=2, done='all')
    add('run_logs', h_run, 'logs of earlier runs', w=3, datatype='desi', nf=1, size=None, oldlogs=2)
    add('run_logs3', h_run, 'many logs of earlier runs', w=3, datatype='desi', nf=1, size=None, oldlogs=11)
    add('run_error', h_run, 'a command that cannot be started', w=3, datatype='desi', nf=2, size=None, error=0, simple=True)
    add('run_error1', h_run, 'the other command cannot be started', w=3, datatype='desi', nf=2, size=None, error=1, simple=True)
    add('run_dry', h_run, 'dry run', datatype='desi', nf=2, size=None, dry=True)
    add('run_mpi', h_run, '2 DESI files, 2 ranks in any order', w=6, datatype='desi', nf=2, size=2, simple=True)
    add('run_mpi3', h_run, '2 DESI files, 3 ranks: an idle rank', w=6, datatype='desi', nf=1, size=3)
    add('run_boss', h_run, '2 BOSS files, any return codes and products', w=5, datatype='boss', nf=2, size=None,
        opts=('--archetypes', '/arch', '--mp', '2'))
    add('run_boss_mpi', h_run, '1 BOSS file, 2 ranks, one node allowed', w=5, datatype='boss', nf=1, size=2, maxnodes=1)
    add('plan', h_plan, 'job script, DESI: options, processes, nodes, output directory', w=4, datatype='desi')
    add('plan_boss', h_plan, 'job script, BOSS', w=4, datatype='boss')
    if th:
        add('partition53', h_partition, '5 files of any weight, 3 nodes', w=60, n=5, k=3)
        add('group_mpi2_free', h_group, '2 files, 2 ranks, every interleaving', w=20, nf=2, size=2, nid=2, sched='free')
        add('run3_mpi', h_run, '3 DESI files, 2 ranks, some with results', w=40, datatype='desi', nf=3, size=2, simple=True)
    return c
