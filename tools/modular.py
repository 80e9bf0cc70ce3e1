"""The internal functions under contracts of their own, and their callers checked against those contracts.

Level 1  flag manipulators: own contract.
Level 2  StorageBase functions: own contract, calls of the manipulators replaced by their contract.
Level 3  public operations: the same contracts as everywhere, calls of StorageBase functions replaced by their contract.
Only an addition: what decides are the contracts of the public operations with everything inlined, so that a change of
the internal structure never raises an alarm.  A level that fails is a note in the evidence."""
import os
import re
import time
import build
import table

NAMES = ['ctor', 'dtor', 'reset', 'destroy', 'construct_copy', 'construct_move', 'construct_conv', 'construct_convr', 'construct_convc', 'construct_none', 'construct_pair',
         'construct_lref', 'assign_copy', 'assign_move', 'assign_lref', 'assign_conv', 'assign_convr', 'assign_convc']
INNER = ['in_ctor', 'in_dtor', 'in_has_value', 'in_reset', 'in_destroy', 'in_construct_copy', 'in_construct_move', 'in_construct_conv', 'in_construct_convr', 'in_construct_convc',
         'in_construct_none', 'in_construct_pair', 'in_construct_fn', 'in_construct_lref', 'in_assign_copy', 'in_assign_move', 'in_assign_lref', 'in_assign_conv', 'in_assign_convr', 'in_assign_convc']
PROVES = {'ctor': 'in_ctor', 'dtor': 'in_dtor', 'reset': 'in_reset', 'destroy': 'in_destroy'}
KITS = ['sepT', 'sepN', 'sepA', 'sepB', 'sepM', 'sepC', 'sepX', 'sepK', 'cusT', 'cusN', 'inpT', 'inpN', 'inpM', 'inpX', 'sepG3', 'sepG5', 'inpG6', 'sepI', 'sepUC', 'sepS', 'bitD', 'bitF', 'bitB', 'bitP', 'bitFP', 'senI', 'senU64i', 'senVTD',
        'senM', 'senNP', 'aipUI', 'aipSS']
OPS = re.compile(r'^(ctor_|assign|reset|emplace|swap|dtor|value_or|observe|access|make_optional)')


def functions(text):
    for m in re.finditer(r'^define [^\n]*?(@"?[\w.$]+"?)\([^\n]*\{\n(.*?)^\}', text, re.S | re.M):
        yield m.group(1), m.group(2)


def registry(text):
    """wrapper name -> (symbol of the real function, symbol of the stub)"""
    w, s = {}, {}
    for name, body in functions(text):
        m = re.match(r'@_Z\d+vp([ws])_(\w+?)I', name)
        if not m:
            continue
        n = m.group(2)
        if m.group(1) == 's':
            s[n] = name
        else:
            for c in re.finditer(r'(?:call|invoke) [^\n]*?(@"?[\w.$]+"?)\(', body):
                if 'StorageBase' in c.group(1) or 'FlagManipulator' in c.group(1):
                    w[n] = c.group(1)
    out = {}
    for n, f in w.items():
        if n in s:
            for g in {f, f.replace('C1E', 'C2E'), f.replace('C2E', 'C1E'), f.replace('D1Ev', 'D2Ev'), f.replace('D2Ev', 'D1Ev')}:
                out.setdefault(n, []).append((g, s[n]))
    return out


def job(cfg, kit, ops, work, deadline=None):
    deadline = deadline or time.time() + 1e6
    try:
        if time.time() > deadline:
            raise TimeoutError('total time of the check used up')
        return run(cfg, kit, ops, work, deadline)
    except Exception as ex:      # never a verdict
        return dict(kit=kit, cfg=cfg, error='internal: %s' % ex)


def run(cfg, kit, ops, work, deadline):
    """-> dict(kit, inner=[(contract, result)], callers=[...], error)"""
    from vcgen.ir import Module
    from vcgen.engine import Engine
    k = table.KITS[kit]
    text = '#include "inner.h"\n%s\nVP_IN_REGISTER(%s)\nVP_ENTRY(in_flag, %s)\n' % (k['decl'], kit, kit)
    text += ''.join('VP_ENTRY(%s, %s)\n' % (o, kit) for o in INNER + ops)
    src = os.path.join(work, 'mod_%s_%s.cpp' % (cfg, kit))
    with open(src, 'w') as f:
        f.write(text)
    ll = src[:-4] + '.ll'
    rc, _, err = build.run([build.CLANG] + build.base_flags(cfg) + ['-fno-access-control', '-S', '-emit-llvm', src, '-o', ll])
    if rc:
        e = [l for l in err.splitlines() if 'error:' in l]
        return dict(kit=kit, cfg=cfg, error=(e or ['?'])[0][:300])
    try:
        with open(ll) as f:
            reg = registry(f.read())
        m = Module(ll)
        out = dict(kit=kit, cfg=cfg, error='', inner=[], callers=[], registered=sorted(reg))

        def go(op, stubs):
            try:
                r = Engine(m, timeout=max(1, min(60, deadline - time.time())), stubs=stubs).run('@vpc__%s__%s' % (op, kit))
                return dict(op=op, status=r.status, reason=r.reason, obl=r.obl, obl_solver=r.obl_solver, solver_s=r.solver_s, stubs=dict(r.stubs),
                            failures=[x['label'] for x in r.failures][:3])
            except Exception as ex:
                return dict(op=op, status='unsupported', reason=str(ex), obl=0, obl_solver=0, solver_s=0.0, stubs={}, failures=[])
        flag = go('in_flag', {})
        low = dict(reg.get('flag_init', [])) if flag['status'] == 'ok' else {}
        out['inner'] = [flag] + [go(o, low) for o in INNER]
        good = {r['op'] for r in out['inner'] if r['status'] == 'ok'}
        high = {}
        for n in NAMES:
            if n in reg and PROVES.get(n, 'in_' + n) in good:
                high.update(dict(reg[n]))
        out['stubbed'] = sorted(high)
        out['callers'] = [go(o, high) for o in ops]
        return out
    finally:
        os.unlink(ll)


def select(cfg, sel):
    for n in KITS:
        k = table.KITS.get(n)
        if k:
            ops = [o for o in k['ops'] if OPS.match(o) and table.available(o, k, cfg) and sel(o, k, cfg)]
            if ops:
                yield n, ops


def summary(mods):
    """for the evidence file"""
    good = [m for m in mods if not m['error']]
    inner = [(m['kit'], r) for m in good for r in m['inner'] if r['obl']]
    callers = [(m['kit'], r) for m in good for r in m['callers'] if r['stubs']]
    per = {}
    for k, r in inner:
        d = per.setdefault(r['op'], dict(instantiations=0, proved=0, obligations=0))
        d['instantiations'] += 1
        d['obligations'] += r['obl']
        d['proved'] += r['status'] == 'ok'
    return dict(
        what='internal functions under contracts of their own; callers checked against those contracts instead of the bodies (in addition to the inlined proofs that decide)',
        internal_contracts=per,
        internal_obligations=sum(r['obl'] for _, r in inner),
        callers=len(callers), callers_proved=sum(r['status'] == 'ok' for _, r in callers), caller_obligations=sum(r['obl'] for _, r in callers),
        calls_replaced_by_contracts=sum(sum(r['stubs'].values()) for _, r in callers),
        solver_s=round(sum(r['solver_s'] for _, r in inner + callers), 2),
        not_proved=['%s/%s: %s %s' % (k, r['op'], r['status'], '; '.join(r['failures']) or r['reason']) for k, r in inner + callers if r['status'] != 'ok'][:40],
        not_compiled=['%s: %s' % (m['kit'], m['error']) for m in mods if m['error']][:10])
