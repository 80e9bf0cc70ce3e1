"""Decides one property: compiles the contracts that serve it against /repo's current headers, lets the VC generator
and z3 discharge every obligation, replays counterexamples natively, writes the evidence file."""
import atexit
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build            # noqa: E402
import table            # noqa: E402

TU_OPS = 36             # contracts per translation unit (roughly)
JOBS = int(os.environ.get('VP_JOBS', '8'))
MAX_REPLAYS = 8
QUICK_S = 480           # time for the proofs in the quick tier (they take 110 s at most on the pinned tree); what is left then is decided by stand-ins
STAND_IN_S = 150        # time budget of the bounded stand-ins in the quick tier


# ---------------------------------------------------------------------------------------------- worker side
def undecided(kit, op, cfg, reason):
    return dict(status='unsupported', reason=reason, obl=0, obl_solver=0, paths=0, solver_s=0.0, queries=0, covers=[], functions=[], labels={}, failures=[], cross=None, kit=kit, op=op, cfg=cfg)


def verify_ll(ll, items, cfg, opts):
    from vcgen.ir import Module
    from vcgen.engine import Engine
    out = []
    m = Module(ll)
    for k, ops in items:
        for op in ops:
            name = '@vpc__%s__%s' % (op, k['name'])
            try:
                if time.time() > opts.get('deadline', float('inf')):
                    raise TimeoutError('total time of the check used up')
                cross = None
                if opts.get('cross'):
                    from vcgen import crosscheck
                    cross = crosscheck.Cross()
                e = Engine(m, timeout=max(1, min(opts.get('timeout', 60), opts.get('deadline', float('inf')) - time.time())), cross=cross)
                r = e.run(name)
                res = dict(status=r.status, reason=r.reason, obl=r.obl, obl_solver=r.obl_solver, paths=r.paths, solver_s=r.solver_s, queries=r.queries,
                           covers=sorted(r.covers), functions=sorted(r.functions), labels=r.labels, failures=r.failures[:12], cross=(cross.stats() if cross else None))
            except Exception as ex:      # an engine bug must not look like a verdict
                res = undecided(k['name'], op, cfg, 'engine: %s' % ex)
                if os.environ.get('VP_TRACE'):
                    traceback.print_exc()
            res.update(kit=k['name'], op=op, cfg=cfg)
            out.append(res)
    return out


def compile_error(err):
    for l in err.splitlines():
        if 'error:' in l:
            return l.strip()[:600]
    return err.strip()[:600]


def job(cfg, names, work, pch, opts):
    """names: [(kit name, [ops])].  Returns (results, compile failures)."""
    items = [(table.KITS[n], ops) for n, ops in names]
    if time.time() > opts.get('deadline', float('inf')):
        return [undecided(k['name'], op, cfg, 'total time of the check used up') for k, ops in items for op in ops], []
    ll, err = build.compile_ll(cfg, items, work, pch)
    if ll:
        try:
            return verify_ll(ll, items, cfg, opts), []
        finally:
            os.unlink(ll)
    # find the contracts that do not compile
    res, bad = [], []
    parts = [[(n, ops)] for n, ops in names] if len(names) > 1 else None
    if parts is None:
        n, ops = names[0]
        if len(ops) == 1:
            return [], [dict(kit=n, op=ops[0], cfg=cfg, err=err)]
        h = (len(ops) + 1) // 2
        parts = [[(n, ops[:h])], [(n, ops[h:])]]
    for p in parts:
        r, b = job(cfg, p, work, pch, opts)
        res += r; bad += b
    return res, bad


def pch_job(cfg, work):
    return cfg, build.pch(cfg, work)


# ---------------------------------------------------------------------------------------------- native replay
def native_build(cfg, kit, op, work, san=True, std_cxx=build.CLANG):
    text = build.tu_text([(table.KITS[kit], [op])])
    src = os.path.join(work, 'nat_%s_%s_%s.cpp' % (cfg, kit, op))
    with open(src, 'w') as f:
        f.write(text)
    exe = src[:-4]
    flags = [x for x in build.base_flags(cfg) if x != '-fno-discard-value-names']
    for sanf in ([['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment']] if san else []) + [[]]:
        rc, _, err = build.run([std_cxx] + flags + sanf + ['-g', '-DVP_MAIN=vpc__%s__%s' % (op, kit), src, os.path.join(build.SPEC, 'vp_native.cpp'), '-o', exe], timeout=180)
        if rc == 0:
            return exe, text, ''
    return None, text, err


def native_run(exe, args, timeout=60, **env):
    env = dict(os.environ, **env, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1', UBSAN_OPTIONS='print_stacktrace=1')
    rc, out, err = build.run([exe] + args, timeout=timeout, env=env)
    return rc, (out + err)[-6000:]


def write_tape(path, tape):
    with open(path, 'w') as f:
        for tag, bits, v in tape:
            f.write('%d %d %s\n' % (bits, v, tag))


# ---------------------------------------------------------------------------------------------- helpers
def demangle(names):
    if not names:
        return {}
    p = subprocess.run(['llvm-cxxfilt-18' if shutil.which('llvm-cxxfilt-18') else 'c++filt'], input='\n'.join(n.lstrip('@') for n in names) + '\n', stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, p.stdout.split('\n')))


def strip_targs(s):
    """function name without template arguments and parameters"""
    s = re.sub(r'\btiny\d+\w*::', '', s)
    out, depth = [], 0
    s = s.replace('operator<=>', 'operator\x01').replace('operator->', 'operator\x02').replace('operator<=', 'operator\x03').replace('operator>=', 'operator\x04').replace('operator<', 'operator\x05').replace('operator>', 'operator\x06')
    for c in s:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
    s = ''.join(out)
    s = s.replace('operator()', 'operator\x07')
    s = s.split('(')[0]
    for a, b in (('\x01', '<=>'), ('\x02', '->'), ('\x03', '<='), ('\x04', '>='), ('\x05', '<'), ('\x06', '>'), ('\x07', '()')):
        s = s.replace('operator' + a, 'operator' + b)
    s = re.sub(r'^.* (?=(?:\S*::)?\S+$)', '', s.strip()) if 'operator ' not in s else re.sub(r'^.* (?=\S+::operator )', '', s.strip())
    return s.lstrip('&*')


COVERS = None


def expected_covers():
    global COVERS
    if COVERS is None:
        try:
            with open(os.path.join(build.SPEC, 'covers.json')) as f:
                raw = json.load(f)
            COVERS = {key: raw['sets'][i] for i, keys in enumerate(raw['keys']) for key in keys}
        except OSError:
            COVERS = {}
    return COVERS


# ---------------------------------------------------------------------------------------------- main
class Check:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.P = table.PROPS[prop]
        self.rx = re.compile(self.P['labels'])
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        atexit.register(shutil.rmtree, self.work, True)
        self.configs = list(self.P['quick']) if tier == 'quick' else self.thorough_configs()
        self.results = []; self.badcompile = []
        self.violations = []          # dicts(label, contract, ...)
        self.notes = []
        self.bounded = []
        self.extra = {}
        self.modular = []

    def thorough_configs(self):
        cfgs = list(self.P['quick'])
        for c in table.CONFIGS:
            if c not in cfgs and c in self.P.get('thorough', table.ALL):
                cfgs.append(c)
        return cfgs

    def select(self, cfg):
        by = collections.OrderedDict()
        for k, op in table.entries(cfg):
            if self.P['sel'](op, k, cfg):
                by.setdefault(k['name'], []).append(op)
        return by

    def chunks(self, by):
        cur, n, out = [], 0, []
        for name, ops in by.items():
            heavy = 3 if table.KITS[name]['tags'] & {'throwing', 'monad'} else 1
            w = len(ops) * heavy
            if cur and n + w > TU_OPS * 2:
                out.append((n, cur)); cur, n = [], 0
            cur.append((name, ops)); n += w
        if cur:
            out.append((n, cur))
        return out

    def run(self):
        opts = {'timeout': 60 if self.tier == 'quick' else 180}
        if self.tier != 'quick':
            opts['cross'] = True
        else:
            opts['deadline'] = self.t0 + QUICK_S
        with ProcessPoolExecutor(JOBS) as ex:
            pchs = {}
            for cfg, (p, err) in ex.map(pch_job, self.configs, [self.work] * len(self.configs)):
                if not p:
                    return self.no_pch(cfg, err)
                pchs[cfg] = p
            tasks = []
            for cfg in self.configs:
                for w, names in self.chunks(self.select(cfg)):
                    tasks.append((w, cfg, names))
            tasks.sort(key=lambda t: -t[0])
            futs = [ex.submit(job, cfg, names, self.work, pchs[cfg], opts) for w, cfg, names in tasks]
            mods = []
            if self.P.get('modular'):
                import modular
                for cfg in self.configs[:1] if self.tier == 'quick' else self.configs:
                    mods += [ex.submit(modular.job, cfg, n, ops, self.work, opts.get('deadline')) for n, ops in modular.select(cfg, self.P['sel'])]
            for f in as_completed(futs):
                r, b = f.result()
                self.results += r; self.badcompile += b
            self.modular = [f.result() for f in mods]
        self.results.sort(key=lambda r: (r['cfg'], r['kit'], r['op']))
        self.badcompile.sort(key=lambda r: (r['cfg'], r['kit'], r['op']))
        self.judge()
        hook = getattr(self, 'extra_' + self.prop, None)
        if hook:
            hook()
        return self.finish()

    def no_pch(self, cfg, err):
        probe = os.path.join(self.work, 'probe.cpp')
        with open(probe, 'w') as f:
            f.write('#include <tiny/optional.h>\n')
        rc, _, e2 = build.run([build.CLANG] + build.base_flags(cfg) + ['-fsyntax-only', probe])
        print('ERROR: %s does not compile in configuration %s: %s' % ('the library header' if rc else 'the contract library', cfg, compile_error(e2 if rc else err)))
        return 2

    # ------------------------------------------------------------------ judging
    def judge(self):
        want = expected_covers()
        pend = []
        for r in self.results:
            internal = 'internal' in table.KITS[r['kit']]['tags']
            cov = set(r['covers'])
            miss = [c for c in want.get(r['kit'] + '/' + r['op'], []) if c not in cov]
            r['hits'] = [f for f in r['failures'] if self.rx.search(f['label'])]
            r['other'] = [f['label'] for f in r['failures'] if not self.rx.search(f['label'])]
            if miss and r['status'] == 'ok' and self.rx.search('cover'):
                r['hits'] = [{'label': 'cover: the contract can no longer reach "%s"' % miss[0], 'stack': [], 'tape': []}]
            if r['hits']:
                (self.internal_hit if internal else pend.append)(r)
            elif r['status'] in ('unsupported', 'unknown') and not internal:
                self.bounded.append(r)
        # contracts the VC generator cannot decide: bounded stand-in
        self.stand_ins()
        takes_compile = bool(self.rx.search('COMPILE'))
        seen = set()
        for b in self.badcompile:
            k = table.KITS[b['kit']]
            if 'internal' in k['tags']:
                self.notes.append('contract %s/%s on an internal function does not compile any more; decided by the acceptance tests alone' % (b['kit'], b['op']))
                continue
            msg = compile_error(b['err'])
            if takes_compile:
                key = (b['op'], msg[-120:])
                if key in seen:
                    continue
                seen.add(key)
                self.violations.append(dict(label='COMPILE: a use that the property promises does not compile', kit=b['kit'], op=b['op'], cfg=b['cfg'], stack=[], tape=[], native='compiler output:\n' + b['err'][-4000:], replayed=True))
            else:
                self.notes.append('not decided, does not compile: %s %s/%s: %s' % (b['cfg'], b['kit'], b['op'], msg))
        self.replay(pend)

    def internal_hit(self, r):
        self.extra.setdefault('internal', []).append(r)

    def stand_ins(self):
        """bounded stand-ins, spread over operations and kits, within a time budget"""
        if not self.bounded:
            return
        from concurrent.futures import ThreadPoolExecutor
        end = time.time() + (STAND_IN_S if self.tier == 'quick' else 10 * STAND_IN_S)
        seen = collections.Counter()
        order = []
        for r in self.bounded:
            seen[r['op']] += 1
            order.append((seen[r['op']], r['op'], len(order)))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda o: self.stand_in(self.bounded[o[2]], end), sorted(order)))
        left = sum(1 for r in self.bounded if r['bounded'].startswith('not decided'))
        self.notes.append('%d contracts are outside of the reach of the VC generator (%s); bounded stand-in for %d of them' % (
            len(self.bounded), '; '.join('%s: %d' % x for x in collections.Counter(r['reason'] for r in self.bounded).most_common(3)), len(self.bounded) - left))

    def stand_in(self, r, end):
        if time.time() > end:
            r['bounded'] = 'not decided: time'
            return
        if r['cfg'].startswith('m32'):      # the x87 unit quietens signalling NaNs on the way, which the IR does not
            r['bounded'] = 'not decided: no native executions in 32 bit mode'
            return
        exe, text, err = native_build(r['cfg'], r['kit'], r['op'], self.work, san=False)
        if not exe:
            r['bounded'] = 'not decided: ' + compile_error(err)
            return
        n = 20000 if self.tier == 'quick' else 200000
        rc, out = native_run(exe, ['--random', str(n), str(self.seed)], timeout=120)
        os.unlink(exe)
        r['bounded'] = '%d pseudo random executions: %s' % (n, out.strip().splitlines()[-1] if out.strip() else rc)
        if rc == 1:
            m = re.search(r'FAILED (.*)', out)
            label = m.group(1) if m else 'UB: sanitizer report'
            if self.rx.search(label):
                self.violations.append(dict(label=label, kit=r['kit'], op=r['op'], cfg=r['cfg'], stack=[], tape=[], native=out, replayed=True))

    def replay(self, pend):
        """pend: results with failing obligations.  Replays until one counterexample per label fails natively."""
        done = set(); tries = 0
        order = sorted(pend, key=lambda r: min(len(f['tape']) for f in r['hits']))
        for r in order:
            for f in r['hits']:
                v = dict(label=f['label'], kit=r['kit'], op=r['op'], cfg=r['cfg'], stack=f['stack'], tape=f['tape'], native='not replayed', replayed=False)
                cat = f['label'].split(':')[0]
                if cat not in done and tries < MAX_REPLAYS and cat != 'cover':
                    tries += 1
                    exe, text, err = native_build(r['cfg'], r['kit'], r['op'], self.work)
                    if exe:
                        tp = os.path.join(self.work, 'tape.txt')
                        write_tape(tp, f['tape'])
                        rc, out = native_run(exe, [tp])
                        v['native'] = 'exit %d\n%s' % (rc, out)
                        v['replayed'] = rc == 1
                        if rc != 1:      # the counterexample may rest on a value the replay cannot set; look for another input
                            rc, out = native_run(exe, ['--random', '20000', str(self.seed)])
                            v['native'] += '\nrandom inputs: exit %d\n%s' % (rc, out)
                            v['replayed'] = rc == 1
                        if not v['replayed'] and cat == 'FRAME':      # a write of the same value
                            os.unlink(exe)
                            exe, text, err = native_build(r['cfg'], r['kit'], r['op'], self.work, san=False)
                            rc, out = native_run(exe, [tp], VP_WATCH='1')
                            v['native'] += '\nwrite watch: exit %d\n%s' % (rc, out)
                            v['replayed'] = rc == 1
                        os.unlink(exe)
                        if v['replayed']:
                            done.add(cat)
                    else:
                        v['native'] = 'native build failed: ' + compile_error(err)
                self.violations.append(v)

    # ------------------------------------------------------------------ C08: acceptance by the compiler
    def extra_C08(self):
        import accept
        accept.run(self)

    # ------------------------------------------------------------------ C22: linker names
    def extra_C22(self):
        import linkname
        linkname.run(self)

    # ------------------------------------------------------------------ reporting
    def finish(self):
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        known = self.known_findings()
        fresh, listed = [], []
        for v in self.violations:
            key = '%s/%s %s' % (v['op'], v['kit'], v['label'])
            (listed if any(k in key for k in known) else fresh).append(v)
        self.write_evidence(fresh)
        for n in sorted(set(self.notes))[:40]:
            print('note: ' + n)
        for k in known:
            if any(k in '%s/%s %s' % (v['op'], v['kit'], v['label']) for v in listed):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        r = self.results
        und = [x for x in r if x['status'] in ('unsupported', 'unknown')]
        if 'link_name_obligations' in self.extra.get('coverage', {}):
            print('%s %s: %d obligations over linker names, %d over shared definitions' % (self.prop, self.tier, self.extra['coverage']['link_name_obligations'], self.extra['coverage']['shared_definition_obligations']))
        else:
            print('%s %s: %d contracts in %d configurations, %d obligations, %d sent to z3, %d paths, %d undecided by the verifier (bounded), %.1f s' % (
                self.prop, self.tier, len(r), len(self.configs), sum(x['obl'] for x in r), sum(x['obl_solver'] for x in r), sum(x['paths'] for x in r), len(und), time.time() - self.t0))
        if not fresh:
            return 0
        fresh.sort(key=lambda v: not v['replayed'])
        summary = collections.Counter((v['op'], v['label']) for v in fresh)
        for (op, lab), n in list(summary.items())[:30]:
            print('failed obligation: %s [%s] in %d contract(s)' % (lab, op, n))
        path = os.path.join(ROOT, 'evidence', 'replay', '%s.txt' % self.prop)
        self.write_replay(path, fresh)
        tail = '' if fresh[0]['replayed'] else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, tail))
        return 1

    def known_findings(self):
        out = []
        try:
            with open(os.path.join(ROOT, 'known-findings.txt')) as f:
                for l in f:
                    m = re.match(r'known: property=(\S+) (.*)', l.strip())
                    if m and m.group(1) == self.prop:
                        out.append(m.group(2))
        except OSError:
            pass
        return out

    def write_replay(self, path, viol):
        v = viol[0]
        names = demangle(v['stack'])
        with open(path, 'w') as f:
            f.write('property: %s\nconfiguration: %s %s\ncontract: %s on %s\n' % (self.prop, v['cfg'], ' '.join(table.CONFIGS[v['cfg']]['flags']) if v['cfg'] in table.CONFIGS else '', v['op'], v['kit']))
            f.write('failed obligation: %s\nreplay on the real code: %s\n\n' % (v['label'], 'fails' if v['replayed'] else 'no failing input found'))
            f.write('call stack at the obligation:\n' + ''.join('  %s\n' % names[s] for s in v['stack']) + '\n')
            f.write('counterexample (bits value name), in the order the contract asks for them:\n' + ''.join('%d %d %s\n' % (b, x, t) for t, b, x in v['tape']) + '\n')
            if v['kit'] in table.KITS:
                f.write('translation unit:\n%s\n' % build.tu_text([(table.KITS[v['kit']], [v['op']])]))
                f.write('rerun: python3-vt %s/check.py --replay %s %s %s <tape file with the lines above>\n\n' % (ROOT, v['cfg'], v['kit'], v['op']))
            f.write('native execution:\n%s\n\n' % v['native'])
            f.write('all failed obligations of this run:\n')
            for w in viol[:300]:
                f.write('  %s %s/%s: %s%s\n' % (w['cfg'], w['op'], w['kit'], w['label'], ' (replayed)' if w['replayed'] else ''))

    def write_evidence(self, fresh):
        r = self.results
        obl = sum(x['obl'] for x in r)
        failed = sum(len(x['failures']) for x in r)
        und = [x for x in r if x['status'] in ('unsupported', 'unknown')]
        fns = set()
        for x in r:
            fns.update(x['functions'])
        dm = demangle(sorted(fns))
        src = collections.Counter()
        for n, d in dm.items():
            if 'tiny' in d and not d.startswith(('c_', 'void c_')) or d.startswith('std::hash<tiny'):
                src[strip_targs(d)] += 1
        tiny_fns = sorted(n for n in src if re.match(r'(tiny::|std::hash)\S*( bool)?$', n))
        labels = collections.Counter()
        for x in r:
            for l, n in x['labels'].items():
                labels[l.split('(')[0].strip()[:110]] += n
        ok = [x for x in r if x['status'] == 'ok']
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='proof', wall_s=round(time.time() - self.t0, 2), violations=len(fresh),
            assumptions=ASSUMPTIONS,
            coverage=dict(
                obligations=obl, discharged=obl - failed - sum(1 for x in und), checker_cmd='python3-vt /verif/check.py %s %s' % (self.prop, self.tier),
                trusted_base=['clang 18 front end (C++ to LLVM IR at -O0)', 'tools/vcgen (VC generator: symbolic execution of the IR, all paths)', 'z3 4.x via python (python3-vt)', 'contracts in spec/*.h', 'ghost model of abstract payloads and flag manipulators in spec/kits.h'],
                contracts=len(r), contracts_proved=len(ok), contracts_failed=sum(1 for x in r if x['status'] == 'fail'),
                obligations_discharged_by={'z3': sum(x['obl_solver'] for x in r), 'constant folding / path condition lookup': obl - sum(x['obl_solver'] for x in r)},
                paths=sum(x['paths'] for x in r), solver_queries=sum(x['queries'] for x in r), solver_s=round(sum(x['solver_s'] for x in r), 2),
                configurations={c: ' '.join(table.CONFIGS[c]['flags']) for c in self.configs},
                kits=sorted(set(x['kit'] for x in r)), operations=sorted(set(x['op'] for x in r)) if len(set(x['op'] for x in r)) < 400 else len(set(x['op'] for x in r)),
                functions_under_contract=tiny_fns, function_instantiations=len(fns),
                obligation_kinds=dict(labels.most_common(60)),
                bounded=['%s %s/%s: %s; %s' % (x['cfg'], x['op'], x['kit'], x['reason'], x.get('bounded', '')) for x in und],
                not_compiled=['%s %s/%s' % (b['cfg'], b['op'], b['kit']) for b in self.badcompile][:200],
                failures_owned_by_other_properties=sorted(set(l for x in r for l in x.get('other', [])))[:60],
                notes=sorted(set(self.notes))[:60],
            ))
        if self.modular:
            import modular
            ev['coverage']['modular'] = modular.summary(self.modular)
        cross = [x['cross'] for x in r if x.get('cross')]
        if cross:
            ev['coverage']['cross_checked_with_cvc5'] = {k: sum(c[k] for c in cross) for k in cross[0]}
        ev['coverage'].update(self.extra.get('coverage', {}))
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)


ASSUMPTIONS = [
    'user payload, flag-member and flag-manipulator types obey the ghost contracts of spec/kits.h (operations not marked noexcept may throw; destructors and manipulators do not)',
    'the callables given to the monadic operations obey spec/monad.h',
    'the -O0 IR that clang 18 emits for the headers has the behaviour of the program; the preprocessor branches for gcc are covered by compiling them with clang, gcc itself is not',
    'functions of the standard library that the IR calls and does not define (memcpy, memset, memcmp, exception runtime) have their documented meaning',
    'the optional is instantiated with the kits listed under coverage.kits; payload types outside of them are represented by the abstract payload classes',
    'the invariant used as pre-state is: any byte content for which has_value() answers and, if non-empty, a payload lives at operator*',
]
