"""Mesh / segmentation core: histories from the specification, replayed into harness/core.cpp, logs validated by MeshTrace."""
import json, os
from vg import *

CTS = {1: ('line', 2), 2: ('tri', 2), 3: ('quad', 2), 4: ('tet', 3), 5: ('hex', 3), 6: ('tri', 3), 7: ('line', 3), 8: ('quad', 3), 9: ('line', 1)}


def trace_cfg(ct, checked):
    t, gd = CTS[ct]
    return 'CONSTANTS\n T = "%s"\n GD = %d\n Checked = %s\nSPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % (t, gd, tla_str_set(checked))


def generate(run, ct, mix, num, depth, seed, nv=12, nc=8, ns=3, grid=4, scale=1, distinct=False, tail=0, geo=False, axis=0, shift=0, jit=0, two=False, delaunay=False, tailmix='rm ru rh rm'):
    t, gd = CTS[ct]
    mod = ('GenRun', '---- MODULE GenRun ----\nEXTENDS MeshGen\nMixDef == <<%s>>\nTailDef == <<%s>>\n====\n' % (', '.join('"%s"' % m for m in mix), ', '.join('"%s"' % m for m in tailmix.split())))
    cfg = 'CONSTANTS\n T = "%s"\n GD = %d\n NVMax = %d\n NCMax = %d\n NSMax = %d\n Grid = %d\n Scale = %d\n Distinct = %s\n TailAt = %d\n GeoMode = %s\n Axis = %d\n Shift = %d\n Jit = %d\n Delaunay = %s\n Two = %s\n TailMix <- TailDef\n Mix <- MixDef\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (t, gd, nv, nc, ns, grid, scale, 'TRUE' if distinct else 'FALSE', tail, 'TRUE' if geo else 'FALSE', axis, shift, jit, 'TRUE' if delaunay else 'FALSE', 'TRUE' if two else 'FALSE')
    rc, out = run.tlc(mod, cfg, ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed), '-workers', '1'], timeout=600)
    hs = split_histories(prints(out))
    if rc != 0 or not hs:
        raise Broken('generator failed (rc %s):\n%s' % (rc, out[-3000:]))
    return hs


def tla_ev(e):
    op, a = e[0], e[1:]
    return 'Ev("%s", <<%s>>)' % (op, ', '.join(str(x) for x in a))


def explore(run, ct, ops, prefix, steps, nv, nc, ns, slots=(1,), per_transition=False, workers=4, timeout=800):
    """Exhaustive exploration of the specification; returns (distinct states, generated, histories to replay)."""
    t, gd = CTS[ct]
    mod = ('MCRun', '---- MODULE MCRun ----\nEXTENDS MCMesh\nPrefixDef == <<%s>>\n====\n' % ', '.join(tla_ev(e) for e in prefix))
    cfg = ('CONSTANTS\n T = "%s"\n GD = %d\n NVMax = %d\n NCMax = %d\n NSMax = %d\n MaxSteps = %d\n Slots = {%s}\n Ops = %s\n Prefix <- PrefixDef\n'
           'SPECIFICATION Spec\nVIEW %s\nINVARIANTS InvWF InvSeg InvIds InvDual InvBnd Emit\nPROPERTIES StepsOK\nCHECK_DEADLOCK FALSE\n') % (
               t, gd, nv, nc, ns, steps, ', '.join(map(str, slots)), tla_str_set(ops), 'ViewT' if per_transition else 'View')
    rc, out = run.tlc(mod, cfg, ['-workers', str(workers)], timeout=timeout, heap='6g', par=True)
    if rc != 0 or 'No error has been found' not in out:
        raise Broken('the specification violates its own properties (rc %s):\n%s' % (rc, '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-4000:]))
    gen, dist = tlc_stats(out)
    scripts = sorted(set(p for p in prints(out) if p))
    keep = [s for i, s in enumerate(scripts) if not (i + 1 < len(scripts) and scripts[i + 1].startswith(s + ';'))]
    hs = [['R'] + s.split(';')[1:] for s in keep]
    run.cov['states'] += dist
    run.cov['transitions'] += gen
    run.part(kind='exhaustive specification exploration', cell=t, ops=sorted(ops), steps=steps, distinct_states=dist, transitions=gen, histories_emitted=len(hs))
    return hs


MUT = {'v', 'vi', 'vu', 'vp', 'c', 'ci', 'e', 'x', 'xm', 'a', 'cc', 'cl', 'sm', 'sn', 'si', 'sr', 'sv', 'sc', 'sa', 'sx', 'scl'}


def with_dumps(hs, dumps):
    """Append the query dumps to every history; every other history also queries after each step (warm caches)."""
    out = []
    for n, h in enumerate(hs):
        g = []
        for i, ln in enumerate(h):
            g.append(ln)
            f = ln.split()
            if n % 2 == 0 and i > 0 and f[0] in MUT and i + 1 < len(h):
                g += ['%s %s' % (d, f[1]) for d in dumps]
        f = h[-1].split()
        g += ['%s %s' % (d, z) for d in dumps for z in ('0', '1')]
        out.append(g)
    return out


class Validator:
    """Runs histories through a driver and validates the logs with TLC."""

    def __init__(self, run, module, driver_cmd=None, chunk_bytes=600000):
        self.run, self.module = run, module
        self.jobs = []          # (label, binary, cfg, histories)
        self.chunk = chunk_bytes

    def add(self, label, binary, cfg, histories, env=None):
        self.jobs.append((label, binary, cfg, histories, env))

    def drive(self, binary, histories, tag, timeout=120, env=None):
        run = self.run
        sc, out, err = run.path(tag + '.scr'), run.path(tag + '.ndjson'), run.path(tag + '.err')
        with open(sc, 'w') as f:
            for h in histories:
                f.write('\n'.join(h) + '\n')
        wd = run.path(tag + '.wd')
        os.makedirs(wd, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        rc = run_driver(binary, sc, out, err, timeout, env=e, cwd=wd)
        shutil.rmtree(wd, ignore_errors=True)
        return rc, out, err

    def tlc_trace(self, cfg, path, timeout=800):
        rc, out = self.run.tlc(self.module, cfg, ['-workers', '1'], env={'TRACE': path}, timeout=timeout)
        rej = []
        for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),', out):
            rej.append((int(m.group(2)), m.group(1)))
        if rc == 0 and 'No error has been found' in out and not rej:
            return 'ok', [], out
        if rej:
            return 'reject', rej, out
        if 'OutOfMemory' in out or 'Could not find' in out or 'is not assigned a value' in out or 'Parse Error' in out or 'Parsing or semantic analysis failed' in out:
            raise Broken('TLC could not validate:\n' + out[-3000:])
        m = None
        for m in re.finditer(r'/\\ l = (\d+)', out):
            pass
        return 'error', [(int(m.group(1)) if m else 1, 'evaluation')], out

    def go(self):
        run = self.run
        chunks = []
        def drive1(job):
            label, binary, cfg, hs, env = job
            tag = re.sub(r'\W', '_', label)
            rc, out, err = self.drive(binary, hs, tag, timeout=240, env=env)
            return job, tag, rc, out, err
        for job, tag, rc, out, err in run.pmap(drive1, self.jobs):
            label, binary, cfg, hs, env = job
            if rc != 0:
                self.crash(job, tag, rc, err)
                continue
            lines = open(out).read().split('\n')
            lines = [l for l in lines if l]
            pos, cur, size, start = 0, [], 0, 0
            end = lines[-1]
            for i, h in enumerate(hs):
                part = lines[pos:pos + len(h)]
                pos += len(h)
                for l in part:
                    op = l[7:l.index('"', 7)] if l.startswith('{"op":"') else '?'
                    run.cov['op_counts'][op] = run.cov['op_counts'].get(op, 0) + 1
                cur += part
                size += sum(len(x) for x in part)
                if size > self.chunk or i + 1 == len(hs):
                    f = run.path('%s.%d.chunk' % (tag, len(chunks)))
                    open(f, 'w').write('\n'.join(cur + [end]) + '\n')
                    chunks.append((job, f, hs[start:i + 1], size))
                    cur, size, start = [], 0, i + 1
            if pos != len(lines) - 1:
                raise Broken('driver %s logged %d events for %d operations' % (label, len(lines) - 1, pos))
        chunks.sort(key=lambda c: -c[3])
        def val(c):
            job, f, hs, size = c
            return c, self.tlc_trace(job[2], f)
        bad = []
        for c, (st, rej, out) in run.pmap(val, chunks):
            job, f, hs, size = c
            run.cov['traces_validated_against_impl'] += len(hs)
            n = sum(len(h) for h in hs)
            run.cov['events_validated'] += n
            if st != 'ok':
                bad.append((c, st, rej, out))
        for job in self.jobs:
            run.part(kind='replay and trace validation', target=job[0], histories=len(job[3]), operations=sum(len(h) for h in job[3]))
            if len(run.cov['samples']) < 3 and job[3]:
                run.cov['samples'].append({'target': job[0], 'history': max(job[3][:40], key=len)[:80]})
        for c, st, rej, out in bad[:2]:
            self.confirm(c, st, rej, out)

    def crash(self, job, tag, rc, err):
        """The driver died: isolate the history and replay it alone."""
        run = self.run
        label, binary, cfg, hs, env = job
        seen = open(err, errors='replace').read().split('\n')
        n = sum(1 for l in seen if l == 'R' or l.startswith('R '))
        h = hs[n - 1] if 0 < n <= len(hs) else hs[0]
        rc2, out2, err2 = self.drive(binary, [h], tag + '_solo', timeout=60, env=env)
        alone = rc2 != 0
        tail = [l for l in (open(err2 if alone else err, errors='replace').read().split('\n')) if l][-6:]
        run.violation('the library %s (rc %s) on %s%s; last operations: %s' % (
            'hangs' if rc == 'timeout' else 'crashes', rc, label, '' if alone else ' (only after the preceding histories)', ' | '.join(tail[-3:])[:600]),
            {'script.txt': '\n'.join(h if alone else sum(hs[:n], [])) + '\n', 'stderr.txt': '\n'.join(tail) + '\n', 'target.txt': label + '\n'})

    def confirm(self, c, st, rej, out):
        run = self.run
        job, f, hs, size = c
        label, binary, cfg, _, env = job
        starts, pos = [], 1
        for h in hs:
            starts.append(pos)
            pos += len(h)
        l, clause = rej[0]
        i = max(k for k in range(len(hs)) if starts[k] <= max(l, 1))
        upto = l - starts[i] + 1
        h = hs[i][:upto] if st == 'reject' else hs[i][:upto + 1]
        tag = 'confirm%d' % len(run.viol)
        rc, o2, e2 = self.drive(binary, [h], tag, timeout=60, env=env)
        what = None
        if rc == 0:
            st2, rej2, out2 = self.tlc_trace(cfg, o2)
            if st2 != 'ok':
                what = 'alone'
                hist = h
        if what is None:
            # only in context: replay the whole chunk
            rc, o2, e2 = self.drive(binary, hs, tag, timeout=240, env=env)
            if rc == 0:
                st2, rej2, out2 = self.tlc_trace(cfg, o2)
                if st2 == 'ok':
                    raise Broken('rejection did not reproduce: %s %s\n%s' % (label, rej[:3], out[-2000:]))
            else:
                out2 = 'driver rc %s' % rc
            what, hist = 'in context', sum(hs, [])
        else:
            hist = self.shrink(binary, cfg, h, env)
        why = '\n'.join(x for x in out2.splitlines() if 'REJECT' in x or x.startswith('Error'))[:1500]
        run.violation('%s: the specification rejects step %d of the replayed history: %s -- %s' % (label, len(hist), hist[-1] if hist else '', why.replace('\n', ' ')[:400]),
                      {'script.txt': '\n'.join(hist) + '\n', 'tlc.txt': why + '\n', 'target.txt': label + '\n', 'trace.ndjson': open(o2).read() if rc == 0 and os.path.getsize(o2) < 3000000 else ''})

    def shrink(self, binary, cfg, h, env, budget=20):
        """Greedy removal of operations while the specification still rejects the last step."""
        t_end = time.time() + budget
        cur = list(h)
        size = max(1, (len(cur) - 2) // 2)
        while size >= 1 and time.time() < t_end:
            cands = []
            i = 1
            while i < len(cur) - 1:
                cands.append(cur[:i] + cur[min(i + size, len(cur) - 1):])
                i += size
            def test(x):
                k, cand = x
                rc, o, e = self.drive(binary, [cand], 'shrink%d_%d' % (len(cur), k), timeout=30, env=env)
                if rc != 0:
                    return None
                try:
                    st, rej, out = self.tlc_trace(cfg, o)
                except Broken:
                    return None
                return cand if st == 'reject' and rej[-1][0] == len(cand) else None
            got = [c for c in self.run.pmap(test, enumerate(cands[:16])) if c]
            if got:
                cur = min(got, key=len)
                size = min(size, max(1, (len(cur) - 2) // 2))
            else:
                size //= 2
        return cur
