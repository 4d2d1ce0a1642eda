"""Runs contract units: annotate real sources, compile with goto-cc, discharge
obligations with CBMC, and on failure search for / replay a concrete input."""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
import annot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
COMPAT = '/opt/vp/compat/freebsd.h'
if not os.path.exists(COMPAT):
    COMPAT = os.path.join(VERIF, 'fw', 'freebsd.h')
BASE = ['-U_FORTIFY_SOURCE', '-std=gnu99', '-include', COMPAT, '-DLIBBSD_NETBSD_VIS',
        '-isystem', '/usr/include/x86_64-linux-gnu/bsd', '-DLIBBSD_OVERLAY',
        '-DGITREV="x"', '-I' + REPO, '-I' + os.path.join(VERIF, 'fw')]
STD = ['--no-standard-checks']
MEM = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--pointer-primitive-check']
ARITH = ['--signed-overflow-check', '--div-by-zero-check', '--undefined-shift-check']

def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        os.setsid()
    return f

SLOTS = threading.BoundedSemaphore(int(os.environ.get('VF_JOBS', '8')))

def solve(cmd, timeout, gb):
    t0 = time.time()
    with SLOTS:
        left = timeout - (time.time() - t0)
        if left < 5: return -999, 'no time left', 0.0
        return run(cmd, left, gb)

def run(cmd, timeout, gb=10, cwd=None, inp=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.PIPE if inp else subprocess.DEVNULL,
                         preexec_fn=limit(gb), cwd=cwd, text=True, errors='replace')
    try:
        out, _ = p.communicate(inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        rc = -999
    return rc, out, time.time() - t0

class Result:
    def __init__(self, unit, mode):
        self.unit, self.mode = unit, mode
        self.status = None         # proved / failed / error / vacuous
        self.note = ''
        self.obligations = self.discharged = 0
        self.failed = []           # (obligation id, line, text)
        self.reach = 0
        self.secs = 0.0
        self.trace = None          # list of nondet values
        self.output = ''
        self.cmd = ''

LINE = re.compile(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN)$')

def sources(u, mode, d):
    """annotated (proof) or verbatim copies of the repo sources; -DSRC_x flags"""
    flags = []
    for fn in u['src']:
        src = open(os.path.join(REPO, fn)).read()
        key = re.sub(r'\W', '_', os.path.splitext(fn)[0])
        if mode == 'proof':
            spec = {f: s for f, s in u.get('loops', {}).items() if s.get('file', u['src'][0]) == fn}
            spec = {f: {k: v for k, v in s.items() if k != 'file'} for f, s in spec.items()}
            det = [x.split(':')[1] if ':' in x else x for x in u.get('detach', ())
                   if (x.split(':')[0] if ':' in x else u['src'][0]) == fn]
            src = annot.annotate(src, spec, det)
        elif u.get('detach_all'):
            det = [x.split(':')[1] if ':' in x else x for x in u['detach_all']
                   if (x.split(':')[0] if ':' in x else u['src'][0]) == fn]
            src = annot.annotate(src, {}, det)
        out = os.path.join(d, key + '.c')
        with open(out, 'w') as f:
            f.write('#line 1 "%s"\n' % os.path.join(REPO, fn))
            f.write(src)
        flags.append('-DSRC_%s="%s"' % (key, out))
    return flags

def reshaped(u):
    """functions of this unit whose annotated loops have another structure than
    the ones the annotations were written for (units/shapes.json)"""
    try:
        base = json.load(open(os.path.join(VERIF, 'units', 'shapes.json')))
        res = []
        for f, sp in u.get('loops', {}).items():
            fn = sp.get('file', u['src'][0])
            new = annot.shape(open(os.path.join(REPO, fn)).read()).get(f, [])
            if annot.reshaped(base[fn][f], new): res.append(f)
        return res
    except (OSError, KeyError, ValueError, annot.AnnotError):
        return []

def cbmc_unit(u, mode, tier, timeout):
    """mode: proof | bounded"""
    r = Result(u, mode)
    if 'lean' in u:
        fn = os.path.join(VERIF, u['lean'])
        txt = open(fn).read()
        code = re.sub(r'/-.*?-/', '', txt, flags=re.S)
        r.cmd = 'lean ' + fn
        rc, out, r.secs = run(['lean', fn], timeout, 1 << 10)
        r.output = out
        r.obligations = len(re.findall(r'^theorem ', code, re.M))
        if rc == 0 and not re.search(r'\b(sorry|axiom|native_decide)\b', code):
            r.discharged, r.status, r.reach = r.obligations, 'proved', 1
        else:
            r.status, r.note = 'error', 'lean: ' + out[-300:]
        return r
    d = tempfile.mkdtemp(prefix='vf.')
    t0 = time.time()
    try:
        try:
            flags = sources(u, mode, d)
        except (annot.AnnotError, OSError) as e:
            r.status, r.note = 'error', 'annotation does not apply: %s' % e
            return r
        defs = ['-DVF_PROOF' if mode == 'proof' else '-DVF_BOUNDED']
        defs += u.get('defs', [])
        cfg = u.get(mode, {})
        defs += cfg.get('defs', [])
        if tier == 'thorough':
            defs = defs + cfg.get('thorough_defs', [])
        gb = os.path.join(d, 'a.gb')
        h = os.path.join(VERIF, 'units', u['harness'])
        cmd = ['goto-cc'] + BASE + flags + defs + ['--function', u.get('entry', 'harness'), h, '-o', gb]
        rc, out, _ = run(cmd, 120)
        if rc != 0:
            r.status, r.note, r.output = 'error', 'goto-cc: ' + out[-600:], out
            return r
        gi = u.get('instrument')
        if gi and mode == 'proof':
            gb2 = os.path.join(d, 'b.gb')
            rc, out, _ = run(['goto-instrument'] + gi + [gb, gb2], 120)
            if rc != 0:
                r.status, r.note, r.output = 'error', 'goto-instrument: ' + out[-600:], out
                return r
            gb = gb2
        cmd = ['cbmc', '--drop-unused-functions', '--unwinding-assertions', '--unwind',
               str(cfg.get('unwind', 40) if tier != 'thorough' else cfg.get('thorough_unwind', cfg.get('unwind', 40)))]
        for k in cfg.get('unwindset', []):
            cmd += ['--unwindset', k]
        cmd += u.get('checks', STD) + cfg.get('solver', u.get('solver', []))
        cmd += ['--object-bits', str(u.get('object_bits', 8))]
        r.cmd = ' '.join(cmd + ['<goto binary of %s + %s>' % (','.join(u['src']), u['harness'])])
        quick_trace = mode == 'bounded' and 'proof' in u and tier != 'thorough'
        if quick_trace:
            # stand-in after a failed/undecided proof: one solver call, no covers
            rc, out, secs = run(['goto-cc'] + BASE + flags + defs + ['-DVF_NOCOVER', '--function', u.get('entry', 'harness'), h, '-o', gb], 120)
            rc, out, secs = solve(cmd + ['--trace', '--stop-on-fail', gb], timeout, u.get('gb', 14))
            r.secs, r.output = secs, out[-400000:]
            if rc == 10:
                r.status = 'failed'
                r.obligations = 1
                m = re.search(r'Violated property:\s*\n\s*file (.*)\n\s*(.*)\n', out)
                t = m.group(2).strip() if m else 'see output'
                if 'unwinding assertion' in t:
                    r.status, r.note = 'error', 'unwinding bound too small: ' + (m.group(1) if m else '')
                    return r
                ln = re.search(r'line (\d+)', m.group(1)) if m else None
                r.failed = [(m.group(1).split()[-3] if m else '?', ln.group(1) if ln else '?', t)]
                r.trace = [int(x) for x in re.findall(r'^\s*(?:main::|VF_ND::)?vf_nd_log=(\d+)', out, re.M)]
            elif rc == 0 and 'VERIFICATION SUCCESSFUL' in out:
                r.status, r.obligations, r.discharged = 'proved', 1, 1
                m = re.search(r'(\d+) VCC', out)
            else:
                r.status, r.note = 'error', 'solver did not answer (rc=%s): %s' % (rc, out[-300:])
            return r
        if u.get('split') and mode == 'proof':
            # one solver run per obligation, in parallel
            rc, out, _ = run(cmd + ['--show-properties', gb], 120)
            props = re.findall(r'^Property (\S+):$', out, re.M)
            r.cmd += ' (one run per obligation)'
            with cf.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda p: solve(cmd + ['--slice-formula', '--property', p, gb], timeout, u.get('gb', 14)), props))
            bad = [x for x in res if x[0] not in (0, 10)]
            rc = bad[0][0] if bad else max([x[0] for x in res] + [0])
            out = '\n'.join(l for x in (res if not bad else res + bad) for l in x[1].splitlines())
            if not props: rc, out = -999, 'no obligations'
            secs = sum(x[2] for x in res)
        else:
            rc, out, secs = solve(cmd + [gb], timeout, u.get('gb', 14))
        r.secs = secs
        r.output = out
        parse(r, out, rc)
        if r.status == 'failed' and mode == 'bounded':
            tr_cmd = cmd + ['--trace', '--stop-on-fail', gb]
            for f in r.failed[:1]:
                tr_cmd = cmd + ['--trace', '--property', f[0], gb]
            rc, out, secs = solve(tr_cmd, timeout, u.get('gb', 14))
            r.trace = [int(x) for x in re.findall(r'^\s*(?:main::|VF_ND::)?vf_nd_log=(\d+)', out, re.M)]
            r.output += '\n\n' + out[:400000]
        return r
    finally:
        if os.environ.get('VF_KEEP'):
            print('kept', d)
        else:
            shutil.rmtree(d, ignore_errors=True)

def parse(r, out, rc):
    reach_ok = reach_bad = 0
    unw = False
    for l in out.splitlines():
        m = LINE.match(l)
        if not m: continue
        pid, line, txt, st = m.groups()
        if txt.startswith('REACH '):
            if st == 'FAILURE': reach_ok += 1
            else:
                reach_bad += 1
                r.note += ' unreachable: ' + txt
            continue
        r.obligations += 1
        if st == 'SUCCESS': r.discharged += 1
        else:
            if 'unwinding assertion' in txt or 'recursion unwinding' in txt: unw = True
            else: r.failed.append((pid, line or '?', txt))
    r.reach = reach_ok
    if r.failed and (rc in (0, 10) or r.unit.get('split')):
        r.status = 'failed'
    elif 'VERIFICATION ' not in out or rc == -999 or rc not in (0, 10):
        r.status = 'error'
        r.note += ' solver did not answer (rc=%s): %s' % (rc, out[-300:])
    elif r.failed:
        r.status = 'failed'
    elif unw:
        r.status = 'error'
        r.note += ' unwinding bound too small'
    elif reach_bad or reach_ok == 0 or r.obligations == 0:
        r.status = 'vacuous'
    else:
        r.status = 'proved'

def native(u, values, what, asan=True):
    """Replay nondet values against the real code compiled with gcc."""
    d = tempfile.mkdtemp(prefix='vfn.')
    try:
        try:
            flags = sources(u, 'native', d)
        except (annot.AnnotError, OSError) as e:
            return 'error', str(e)
        exe = os.path.join(d, 'replay')
        cmd = ['gcc', '-g', '-w', '-O0'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if asan else []) + BASE + flags + \
              ['-DVF_NATIVE'] + u.get('defs', []) + u.get('bounded', {}).get('defs', []) + \
              [os.path.join(VERIF, 'units', u['harness']), os.path.join(VERIF, 'fw', 'vf_native.c'), '-o', exe] + \
              ['-Wl,--unresolved-symbols=ignore-all'] + u.get('libs', ['-lbsd', '-lmd', '-lz'])
        rc, out, _ = run(cmd, 120, gb=1 << 20)
        if rc != 0:
            return 'error', 'gcc: ' + out[-2000:]
        vf = os.path.join(d, 'values')
        with open(vf, 'w') as f:
            f.write('\n'.join(map(str, values)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        rc, out, _ = run([exe, vf], 60, gb=1 << 20, cwd=d)
        if 'pc 0x000000000000' in out:
            return 'error', 'calls a function outside the unit\n' + out
        if 'VF-VIOLATION' in out or 'ERROR: AddressSanitizer' in out or 'runtime error:' in out:
            return 'violated', out
        if rc == -999:
            return 'violated', 'does not terminate on this input\n' + out[-2000:]
        return 'held', out
    finally:
        shutil.rmtree(d, ignore_errors=True)
