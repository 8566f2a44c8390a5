"""One plan per property: what is generated from the specification, replayed and validated."""
from vg import *
import core
import random

PTS = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 0), (2, 0, 2), (0, 2, 2), (2, 2, 2), (4, 0, 0)]
V4 = [('v', 0) + p for p in PTS[:4]]
V5 = [('v', 0) + p for p in PTS[:5]]
V6 = [('v', 0) + p for p in PTS[:6]]
STRIP = V5 + [('c', 0, 0, 1, 2), ('c', 0, 2, 1, 3), ('c', 0, 4, 3, 2)]        # three triangles
TETS = V5 + [('c', 0, 0, 1, 2, 3), ('c', 0, 4, 3, 2, 1)]                      # two tetrahedra
SEG2 = [('sm', 0), ('sm', 0)]

CORE = {
    'C01': dict(mix='v vi c c c c ci e e x x xm sc sc sm a cl', dumps=[],
                mc=[(2, 'c e x', V4, 3, 4, 2, 0), (4, 'c x', V5, 2, 5, 2, 0)],
                mct=[(2, 'c e x', V4, 4, 4, 2, 0), (4, 'c e x', V5, 2, 5, 2, 0), (2, 'v c e x', [], 8, 4, 2, 0), (3, 'c e x', V5, 3, 5, 2, 0), (4, 'c ci e x', V5, 3, 5, 2, 0), (5, 'e x', V6, 2, 6, 1, 0)]),
    'C02': dict(mix='v vi vi vu c c ci ci e x x xm a cl sm sv sc vp', dumps=[],
                mc=[(2, 'v vi c ci x', V4[:3], 3, 4, 2, 0), (1, 'v vi c x a cl', [], 5, 2, 1, 0, (1, 2))],
                mct=[(2, 'v vi c ci e x', V4[:3], 5, 4, 2, 0), (4, 'c ci e x', V5, 3, 5, 2, 0), (1, 'v vi c x a cl', [], 7, 3, 1, 0, (1, 2))]),
    'C03': dict(mix='v c c c e x x a cl sm sc sc sa sa sx qc qc qc qcs qcs QC QC ci', dumps=['QC'],
                mc=[(2, 'c e x', V4, 3, 4, 2, 0), (2, 'sa sx', STRIP + SEG2, 2, 5, 3, 2)],
                mct=[(2, 'c e x a cl', V4, 4, 4, 2, 0), (2, 'sa sx sc', STRIP + SEG2, 3, 5, 4, 2), (4, 'c e x', V5, 3, 5, 2, 0), (4, 'sa sx', TETS + SEG2, 2, 5, 3, 2)]),
    'C04': dict(mix='v c c c c e x x a cl sm sc sc sa sa sx qn qn qn qns qns QN QN ci', dumps=['QN'],
                mc=[(2, 'c e x', V4, 3, 4, 2, 0), (2, 'sa sx', STRIP + SEG2, 2, 5, 3, 2)],
                mct=[(2, 'c e x a cl', V4, 4, 4, 2, 0), (2, 'sa sx sc', STRIP + SEG2, 3, 5, 4, 2), (4, 'c e x', V5, 3, 5, 2, 0), (4, 'sa sx', TETS + SEG2, 2, 5, 3, 2)]),
    'C05': dict(mix='v c c c c e x x a cl sm sc sc sa sa sx qb qb qb qbs qbs QB QB ci', dumps=['QB'],
                mc=[(2, 'c e x', V4, 3, 4, 2, 0), (2, 'sa sx', STRIP + SEG2, 2, 5, 3, 2)],
                mct=[(2, 'c e x a cl', V4, 4, 4, 2, 0), (2, 'sa sx sc', STRIP + SEG2, 3, 5, 4, 2), (4, 'c e x', V5, 3, 5, 2, 0), (4, 'sa sx', TETS + SEG2, 2, 5, 3, 2)]),
    'C06': dict(mix='v c c c sm sm sc sc sc sc sa sa sA sA sx qi qi qi QI QI scl', dumps=['QI'],
                mc=[(2, 'sa sx', STRIP + SEG2, 2, 5, 3, 2)],
                mct=[(4, 'sa', TETS + SEG2, 2, 5, 2, 2), (2, 'sa sx sc', STRIP + SEG2, 3, 5, 4, 2), (4, 'sa sx', TETS + SEG2, 3, 5, 3, 2), (1, 'c sa sx sc', V4 + SEG2, 4, 4, 3, 2)]),
    'C07': dict(mix='v c c c c c e e ci x x x x xm xm a', dumps=['QC', 'QB'],
                mc=[(2, 'c x xm', V4, 3, 4, 2, 0), (4, 'c x', V5, 2, 5, 2, 0)],
                mct=[(2, 'c e x xm', V4, 4, 4, 2, 0), (4, 'c e x', V5, 3, 5, 2, 0), (3, 'c x', V6, 3, 6, 2, 0)]),
    'C08': dict(mix='v vi vp vp c c ci e x x xm a a a a cl sm sc sr', dumps=['QC', 'QB'],
                mc=[(2, 'c x a cl vp', V4[:3], 4, 4, 1, 0, (1, 2)), (1, 'v vi c x a cl', [], 5, 2, 1, 0, (1, 2))],
                mct=[(2, 'v c x a cl vp', V4[:3], 5, 4, 1, 0, (1, 2)), (4, 'c x a cl', V5, 4, 5, 1, 0, (1, 2))]),
    'C10': dict(mix='v c sm sm sn sn sn si si si sr sr sr sc sa sx scl QM QM', dumps=['QM'],
                mc=[(2, 'sm sn si sr scl', [], 4, 0, 0, 3, (1,), True)],
                mct=[(2, 'sm sn si sr scl', [], 6, 0, 0, 4, (1,), True), (2, 'sm sn si sr scl sa', V4[:3] + [('c', 0, 0, 1, 2)], 4, 3, 1, 2)]),
    'C11': dict(mix='v c c c sm sm sv sc sc sc sa sa sA sA sx sx sx scl QM QM si', dumps=['QM'],
                mc=[(2, 'sa sx sc', STRIP + SEG2, 2, 5, 4, 2)],
                mct=[(2, 'sa sx sc sm scl', STRIP + SEG2, 3, 5, 4, 2), (4, 'sa sx', TETS + SEG2, 3, 5, 3, 2)]),
    'C23': dict(mix='v vi c c c c c ci ci e e sm sc x a QL QL', dumps=['QL'],
                mc=[(2, 'c e', V4, 2, 4, 2, 0), (4, 'c e', V5, 1, 5, 2, 0), (3, 'c', V5, 1, 5, 1, 0)],
                mct=[(2, 'c e x', V4, 4, 4, 2, 0), (4, 'c e x', V5, 3, 5, 2, 0), (3, 'c e', V6, 2, 6, 2, 0)]),
}


def core_plan(run, prop=None, spec=None, cts=None):
    prop = prop or run.prop
    p = spec or CORE[prop]
    quick = run.tier == 'quick'
    cts = cts or ([1, 2, 3, 4, 5] if quick else [1, 2, 3, 4, 5, 6, 7, 8, 9])
    num = 24 if quick else 300
    mix = p['mix'].split()
    mcs = p['mc'] if quick else p['mc'] + p['mct']
    tasks = [('build', c) for c in cts]
    tasks += [('gen', c) for c in cts] + [('mc', i) for i in range(len(mcs))]
    def do(t):
        kind, x = t
        if kind == 'build':
            return t, run.build([('core%d' % x, 'core.cpp', ['CT=%d' % x])])['core%d' % x]
        if kind == 'gen':
            n = max(6, num // 3) if x == 5 else num
            kw = dict(nv=12, nc=10) if x in (1, 9, 7) else dict(nv=18, nc=4) if x == 5 else dict(nv=14, nc=10)
            hs = []
            for part in range(1 if quick else 2):
                hs += core.generate(run, x, mix, n, 50 if quick else (50, 120)[part], run.seed * 1000 + x + 500 * part, **kw)
            return t, hs
        m = mcs[x]
        ct, ops, prefix, steps, nv, nc, ns = m[:7]
        hs = core.explore(run, ct, ops.split(), prefix, steps, nv, nc, ns, slots=m[7] if len(m) > 7 else (1,), per_transition=len(m) > 8 and m[8], workers=2 if quick else 4)
        return t, (ct, hs)
    res = dict(run.pmap(do, tasks))
    run.log('built %d drivers, specification explored' % len(cts))
    v = core.Validator(run, 'MeshTrace')
    for c in cts:
        hs = res[('gen', c)]
        v.add('core CT=%d (%s %dd) random' % (c, core.CTS[c][0], core.CTS[c][1]), res[('build', c)], core.trace_cfg(c, [prop]), hs)
    cap = (2400 if quick else 60000) // max(1, len(mcs))
    for i in range(len(mcs)):
        ct, hs = res[('mc', i)]
        if len(hs) > cap:
            run.part(kind='replay sample', of=len(hs), replayed=cap)
            hs = random.Random(run.seed).sample(hs, cap)
        v.add('core CT=%d (%s %dd) exhaustive %d' % (ct, core.CTS[ct][0], core.CTS[ct][1], i), res[('build', ct)], core.trace_cfg(ct, [prop]), core.with_dumps(hs, p['dumps']))
    run.log('%d histories, %d operations to replay' % (sum(len(j[3]) for j in v.jobs), sum(len(h) for j in v.jobs for h in j[3])))
    v.go()


# ---- refinement ------------------------------------------------------------------
TET_GEO = ['<<0,0,0>>, <<8,8,0>>, <<8,0,8>>, <<0,8,8>>',            # regular: all edges tie
           '<<0,0,0>>, <<8,0,0>>, <<0,8,0>>, <<0,0,8>>',            # cube corner
           '<<0,0,0>>, <<8,0,0>>, <<8,8,0>>, <<8,8,8>>',            # path
           '<<2,4,0>>, <<14,0,4>>, <<6,20,2>>, <<0,6,26>>',         # generic
           '<<0,0,0>>, <<16,0,0>>, <<8,8,0>>, <<8,0,8>>']           # some ties
TWO_TETS = ['<<0,0,0>>, <<8,8,0>>, <<8,0,8>>, <<0,8,8>>, <<12,12,12>>',
            '<<0,0,0>>, <<8,0,0>>, <<0,8,0>>, <<0,0,8>>, <<8,8,8>>',
            '<<2,4,0>>, <<14,0,4>>, <<6,20,2>>, <<0,6,26>>, <<20,24,30>>',
            '<<0,0,0>>, <<8,0,0>>, <<8,8,0>>, <<8,8,8>>, <<16,0,8>>']
TRI_GEO = ['<<0,0,0>>, <<8,0,0>>, <<0,8,0>>, <<8,8,0>>, <<16,8,0>>', '<<0,0,0>>, <<12,2,0>>, <<4,14,0>>, <<22,18,0>>, <<36,4,0>>']


def refine_enum(run, ct, geos, cells, full, seg):
    t, gd = core.CTS[ct]
    mod = ('RERun', '---- MODULE RERun ----\nEXTENDS RefineEnum\nGeosDef == <<%s>>\nCellsDef == {%s}\n====\n' % (
        ', '.join('<<%s>>' % g for g in geos), ', '.join('<<%s>>' % ', '.join('<<%s>>' % ', '.join(map(str, c)) for c in cs) for cs in cells)))
    cfg = 'CONSTANTS\n T = "%s"\n GD = %d\n Geos <- GeosDef\n Cells <- CellsDef\n AllMasks = %s\n SegFlag = %d\nSPECIFICATION Spec\nINVARIANT EmitOK\nCHECK_DEADLOCK FALSE\n' % (t, gd, 'TRUE' if full else 'FALSE', seg)
    mod = (mod[0], mod[1].replace('====\n', 'EmitOK == Emit\n====\n'))
    rc, out = run.tlc(mod, cfg, ['-workers', '2'], timeout=600)
    hs = [p.split(';') for p in prints(out)]
    if rc != 0 or not hs:
        raise Broken('refinement enumeration failed:\n' + out[-3000:])
    run.cov['states'] += len(hs)
    run.part(kind='exhaustive edge subsets', cell=t, meshes=len(hs), refinements=sum(1 for h in hs for l in h if l.startswith('rf')))
    return hs


def rl_chains(rnd, ct, num):
    """Long chains for the longest-edge closure: spiral fans in which every cell's longest edge belongs to the next cell, cells created in any order."""
    import math
    hs = []
    for i in range(num):
        n = rnd.randint(5, 10)
        r, ang, q = 60.0, rnd.random() * 6, []
        for _ in range(n + 1):
            q.append((int(r * math.cos(ang)), int(r * math.sin(ang)), 0))
            r *= 1.14 + 0.1 * rnd.random()
            ang += 0.4 + 0.15 * rnd.random()
        vs = [(0, 0, 0)] + ([(0, 0, rnd.choice([8, 20]))] if ct == 4 else []) + q
        k0 = len(vs) - len(q)
        order = list(range(n))
        [order.reverse, lambda: rnd.shuffle(order), lambda: None][0 if i % 3 else 1]()
        hub = list(range(k0))
        cells = [rnd.sample(hub + [k0 + j, k0 + j + 1], k0 + 2) for j in order]
        h = ['R'] + ['v 0 %d %d %d' % p for p in vs] + ['c 0 ' + ' '.join(map(str, c)) for c in cells]
        edges = [(k0, k0 + 1), (0, k0), (0, k0 + n), (k0 + n // 2, k0 + n // 2 + 1)]
        h += ['rl 0 %d,%d' % e for e in edges] + ['rl 0 ' + ' '.join('%d,%d' % e for e in edges[2:])]
        hs.append(h)
    return hs


def refine_plan(run):
    from itertools import permutations
    quick = run.tier == 'quick'
    rnd = random.Random(run.seed * 7 + 1)
    mix = 'v c c c sm sc sc sa sA rf rf rf rc rh rl rl ru rm e'.split()
    p4, p3 = list(permutations(range(4))), list(permutations(range(3)))
    def q4(vs):
        vs = list(vs); rnd.shuffle(vs); return tuple(vs)
    singles = [[c] for c in p4]
    pairs = [[q4((0, 1, 2, 3)), q4((1, 2, 3, 4))] for _ in range(1 if quick else 24)]
    fan = [[q4((0, 1, 2)), q4((1, 2, 3)), q4((2, 3, 4))] for _ in range(6 if quick else 120)]
    tasks = [('build', c) for c in (2, 4, 6)]
    tasks += [('enum', 'tet', 4, [TET_GEO[i]], rnd.sample(singles, 4) if quick else singles, True, 0) for i in range(len(TET_GEO))]
    tasks += [('enum', 'pair', 4, [rnd.choice(TWO_TETS)] if quick else TWO_TETS, pairs, not quick, 1)]
    tasks += [('enum', 'fan', 2, TRI_GEO, fan, True, i % 2) for i in range(1 if quick else 2)]
    n = 10 if quick else 120
    tasks += [('chain', 2, 10 if quick else 100), ('chain', 4, 8 if quick else 80)]
    tasks += [('gen', 2, mix, n * 2, 36, 30, dict(nv=9, nc=5, grid=3)), ('gen', 6, mix, n, 34, 30, dict(nv=10, nc=5, grid=2)),
              ('gen', 4, mix, n, 28, 26, dict(nv=8, nc=3, grid=2))]
    def do(i_t):
        i, t = i_t
        if t[0] == 'build':
            return run.build([('rf%d' % t[1], 'core.cpp', ['CT=%d' % t[1], 'FEAT="feat_refine.hpp"'])], extra=['-O1'])['rf%d' % t[1]]
        if t[0] == 'enum':
            return refine_enum(run, *t[2:])
        if t[0] == 'chain':
            return rl_chains(random.Random(run.seed + t[1]), t[1], t[2])
        _, ct, mx, num, depth, tail, kw = t
        return core.generate(run, ct, mx, num, depth, run.seed * 1000 + ct, ns=2, scale=8, distinct=True, tail=tail, **kw)
    res = run.pmap(do, list(enumerate(tasks)))
    bins = {t[1]: r for t, r in zip(tasks, res) if t[0] == 'build'}
    v = core.Validator(run, 'MeshTrace', chunk_bytes=400000)
    for i, (t, hs) in enumerate(zip(tasks, res)):
        if t[0] == 'build':
            continue
        ct = t[2] if t[0] == 'enum' else t[1]
        v.add('refine %s CT=%d %d' % (t[0], ct, i), bins[ct], core.trace_cfg(ct, ['C12']), hs)
    run.log('%d histories, %d operations to replay' % (sum(len(j[3]) for j in v.jobs), sum(len(h) for j in v.jobs for h in j[3])))
    v.go()


# ---- histories of one feature header: (CT, generator options) --------------------------
def feature_plan(run, feat, mix, confs, num, depth, prop=None, chunk=300000, opt=(), name=None, env=None, tails=None):
    prop = prop or run.prop
    cts = sorted(set(c[0] for c in confs))
    tasks = [('build', c) for c in cts] + [('gen', i) for i in range(len(confs))]
    def do(t):
        if t[0] == 'build':
            return run.build([('f%d' % t[1], 'core.cpp', ['CT=%d' % t[1]] + (['FEAT="%s"' % feat] if feat else []))], extra=opt)['f%d' % t[1]]
        ct, kw = confs[t[1]]
        kw = dict(kw)
        n = kw.pop('num', num)
        d = kw.pop('depth', depth)
        return core.generate(run, ct, kw.pop('mix', mix).split(), n, d, run.seed * 1000 + ct + 100 * t[1], **kw)
    res = dict(zip(tasks, run.pmap(do, tasks)))
    v = core.Validator(run, 'MeshTrace', chunk_bytes=chunk)
    for i, (ct, kw) in enumerate(confs):
        hs = res[('gen', i)]
        if tails:
            hs = [h + tails(h) for h in hs]
        v.add('%s CT=%d (%s %dd) %d' % (name or prop, ct, core.CTS[ct][0], core.CTS[ct][1], i), res[('build', ct)], core.trace_cfg(ct, [prop]), hs, env)
    run.log('%d histories, %d operations to replay' % (sum(len(j[3]) for j in v.jobs), sum(len(h) for j in v.jobs for h in j[3])))
    v.go()


def copy_plan(run):
    quick = run.tier == 'quick'
    mix = 'v vu vu vi c c c e sm sm sc sc sa sA sA sA sx'
    confs = []
    for rep in range(1 if quick else 4):
        for ct in ([1, 2, 3, 4, 5, 6] if quick else [1, 2, 3, 4, 5, 6, 7, 8]):
            big = ct == 5
            confs.append((ct, dict(nv=18 if big else 8, nc=2 if big else 4, ns=3, grid=2, scale=4, jit=1 if rep % 2 == 0 else 2, distinct=True, two=True,
                                   tail=44 if big else 30, depth=54 if big else 40, num=(10 if big else 30) if quick else 120, tailmix='yf ys ys ye ye yh y1 y1 yg yg yg P')))
    feature_plan(run, 'feat_copy.hpp', mix, confs, 30, 40)


# ---- geometry ---------------------------------------------------------------------
GEO = {
    'C15': dict(cts=[1, 2, 3, 4, 5, 6, 7, 8], mix='v c c c sm sc sc sa gm gm gp gp gp gp'),
    'C16': dict(cts=[1, 2, 3, 4, 5, 6, 7, 8], mix='v c c c sm sc sc sa gd gd gd gd gl gl gs'),
    'C17': dict(cts=[2, 4, 6], mix='v c c c c gi gi gi gi gi gi'),
}


def geo_plan(run):
    quick = run.tier == 'quick'
    p = GEO[run.prop]
    num = (14 if quick else 160)
    if run.prop == 'C17':
        num *= 4
    confs = []
    for ct in p['cts']:
        grid = {8: 2, 6: 2, 5: 3}.get(ct, 4)
        nv = {5: 12, 1: 9, 7: 8}.get(ct, 8)
        for rep in range(1 if quick else 3):
            confs.append((ct, dict(grid=grid if rep % 2 == 0 else 3, nv=nv + rep, nc=5 if ct != 5 else 3, ns=2, geo=True, axis=(ct + rep + run.seed) % 3, shift=2 if (ct + rep) % 2 else 0), rep))
    if run.prop == 'C16':      # long lines at small angles
        for rep in range(3, 4 if quick else 7):
            confs += [(1, dict(grid=24, nv=16, nc=14, ns=0, axis=3, mix='v v v c c c c gs'), rep), (7, dict(grid=24, nv=16, nc=12, ns=0, axis=3, mix='v v v c c c gs'), rep)]
    tasks = [('build', c) for c in p['cts']] + [('gen',) + c for c in confs]
    def do(t):
        if t[0] == 'build':
            return run.build([('geo%d' % t[1], 'core.cpp', ['CT=%d' % t[1], 'FEAT="feat_geo.hpp"'])])['geo%d' % t[1]]
        _, ct, kw, rep = t
        kw = dict(kw)
        return core.generate(run, ct, kw.pop('mix', p['mix']).split(), num, 34, run.seed * 1000 + ct + 100 * rep, **kw)
    res = run.pmap(do, tasks)
    bins = {t[1]: r for t, r in zip(tasks, res) if t[0] == 'build'}
    v = core.Validator(run, 'MeshTrace', chunk_bytes=300000)
    for t, hs in zip(tasks, res):
        if t[0] == 'gen':
            v.add('geometry CT=%d (%s %dd) %d' % (t[1], core.CTS[t[1]][0], core.CTS[t[1]][1], t[3]), bins[t[1]], core.trace_cfg(t[1], [run.prop]), hs)
    run.log('%d histories, %d operations to replay' % (sum(len(j[3]) for j in v.jobs), sum(len(h) for j in v.jobs for h in j[3])))
    v.go()


# ---- derived data -------------------------------------------------------------------
ALG = {
    'C19': dict(cts=[1, 2, 3, 4, 5, 6, 7, 8], mix='v c c c c sm si sn sc sc sA sA sa x hb hb hs hs hs hp hp', kw=dict(distinct=True)),
    'C20': dict(cts=[1, 2, 3, 4, 5], mix='v vi c c ci e x dw dw dw dw df da dr df da dr dq cl'),
    'C21': dict(cts=[1, 2, 3, 4, 5, 6], mix='v c c c e ci sm sc sc sA sa x qt qt qt qt qt qt'),
    'C22': dict(cts=[1, 2, 3, 4, 5, 6, 7, 8, 9], mix='v v vi c c e sm sc sa x gt gt gt'),
}


def alg_plan(run):
    quick = run.tier == 'quick'
    p = ALG[run.prop]
    confs = []
    for ct in p['cts']:
        for rep in range(1 if quick else 4):
            big = ct == 5
            kw = dict(nv=16 if big else 9 + rep, nc=3 if big else 7 + rep, ns=3, grid=3, num=(10 if big else 24) if quick else 160, depth=(44 if quick else 60), shift=rep % 2)
            kw.update(p.get('kw', {}))
            confs.append((ct, kw))
    feature_plan(run, 'feat_alg.hpp', p['mix'], confs, 24, 44)


def vtk_plan(run):
    quick = run.tier == 'quick'
    mix = 'v v vi c c c ci ci sm sm si sc sc sA sA sA'
    confs = []
    for rep in range(1 if quick else 4):
        for ct in [1, 2, 3, 4, 5, 6, 7, 8, 9]:
            big = ct == 5
            confs.append((ct, dict(nv=18 if big else 8 + rep, nc=3 if big else 6, ns=3, grid=3 if ct != 9 else 9, scale=(1, 1234567, 7654321, 3)[(ct + rep + run.seed) % 4], shift=(0, 5)[(ct + rep) % 2], distinct=True,
                                   tail=30, depth=40, num=(8 if big else 24) if quick else 120, tailmix='vt vt vt vt vx vx sA c')))
    feature_plan(run, 'feat_vtk.hpp', mix, confs, 24, 40)


PLANS = {c: core_plan for c in CORE}
PLANS['C12'] = refine_plan
for c in GEO:
    PLANS[c] = geo_plan
PLANS['C09'] = copy_plan
for c in ALG:
    PLANS[c] = alg_plan
PLANS["C13"] = vtk_plan


def io_plan(run):
    quick = run.tier == 'quick'
    rd = run.prop == 'C14'
    confs = []
    for rep in range(1 if quick else 4):
        for ct in ([1, 2, 3, 4, 5, 6, 7, 8, 9] if rd else [1, 2, 3, 4, 5, 9]):
            big = ct == 5
            opts = dict(nv=18 if big else 8 + rep, nc=3 if big else 6, ns=3, grid=3 if ct != 9 else 9, scale=(1, 1234567, 7654321, 3)[(ct + rep + run.seed) % 4], shift=(0, 5)[(ct + rep) % 2],
                        distinct=True, tail=30, depth=40, num=(8 if big else 24) if quick else 120)
            if rd:
                opts['tailmix'] = 'ng ng ng ng bd bd sA c' if ct == 6 else 'ng ng ng sA c'
                if ct in (6, 8):
                    opts['tailmix'] += ' pt pt pt pn pn'
                confs.append((ct, opts))
            else:
                confs.append((ct, dict(opts, tailmix='wv wd wd wd x c v')))
                if ct == 4:
                    confs.append((ct, dict(opts, scale=1, mix='v v sc sc sc sm', tailmix='wm wm wm wv wd sc v', geo=True)))
                    confs.append((ct, dict(opts, scale=1, tail=2, depth=12, num=14 if quick else 150, tailmix='lB wm wm wm wd wv')))
    feature_plan(run, 'feat_io.hpp', 'v v vi c c c c sm sm si sc sc sA sA sA' if rd else 'v v vi c c c sm sc sA', confs, 24, 40, chunk=100000)


PLANS["C14"] = PLANS["C25"] = io_plan


def voro_plan(run):
    quick = run.tier == 'quick'
    confs = []
    for rep in range(1 if quick else 4):
        for ct in [1, 2, 7, 9]:
            confs.append((ct, dict(nv=9 + rep, nc=9 + rep, ns=2, grid=(4, 6, 3, 5)[rep] if ct != 9 else 12, shift=rep % 2 * 2, geo=True, delaunay=ct == 2, num=(60 if ct == 2 else 16) if quick else 200, depth=44,
                                   mix='v c c c c c c c sm sA sA vo vo')))
        confs.append((4, dict(nv=9, nc=7, ns=0, grid=4, geo=True, num=16 if quick else 100, depth=30, mix='v c c c c vo')))
        for ct in [2, 3, 4, 5]:
            confs.append((ct, dict(tail=2, depth=12, num=(12 if ct == 4 else 20) if quick else 150, tailmix='lb vo vo')))
    feature_plan(run, 'feat_voro.hpp', 'v', confs, 24, 40, chunk=100000)


PLANS["C18"] = voro_plan


def range_plan(run):
    quick = run.tier == 'quick'
    confs = []
    for rep in range(1 if quick else 4):
        for ct in ([1, 2, 3, 4, 5, 9] if quick else range(1, 10)):
            big = ct == 5
            confs.append((ct, dict(nv=14 if big else 8 + rep, nc=3 if big else 5 + rep, ns=3, num=(6 if big else 14) if quick else 100, depth=36)))
    feature_plan(run, 'feat_range.hpp', 'v vi c c c ci e x x xm a cl sm sm sc sc sA sa sx QR QR QR', confs, 14, 36, chunk=150000)


PLANS["C24"] = range_plan


# ---- points in other coordinate systems ----------------------------------------------
def points_plan(run):
    quick = run.tier == 'quick'
    feature_plan(run, 'feat_cs.hpp', 'cs', [(2, dict(nv=1, nc=1, ns=0, num=48 if quick else 1200, depth=26))], 48, 26, chunk=150000)


PLANS["C26"] = points_plan
