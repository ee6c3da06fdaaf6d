#!/usr/bin/env python3
"""Runs the checks of one property.

  run.py check ID [--tier quick|thorough] [--only HARNESS] [--keep]
  run.py replay FILE           replay one reported violation on the real code
  run.py setup                 build the engine, the bitcode and the replay objects
  run.py list

A check: takes /repo's current sources, compiles them to LLVM bitcode, links
each harness of the property against them, lets vse execute every path with
symbolic inputs, replays every solver counterexample on a native sanitizer
build of the same sources, and writes evidence/ID.json.
"""
import sys, os, threading, atexit, json, subprocess, hashlib, glob, time, shutil, tempfile, re, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'
CLANG = LLVM + '/bin/clang'
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, VERIF)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, 'little')); h.update(p)
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

class BuildError(Exception): pass

# ------------------------------------------------------------------ engine
def engine():
    src = [os.path.join(HERE, x) for x in ('vse.cpp', 'expr.cpp', 'expr.h')]
    key = digest(*[rd(s) for s in src])
    out = os.path.join(BUILD, 'engine', key)
    if os.path.exists(out + '/vse'): return out + '/vse'
    os.makedirs(out, exist_ok=True)
    flags = ['-O2', '-std=c++17', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w']
    def cc(s): return sh(['g++'] + flags + ['-c', s, '-o', out + '/' + os.path.basename(s) + '.o'])
    with ThreadPoolExecutor(2) as ex: rs = list(ex.map(cc, src[:2]))
    for r in rs:
        if r.returncode: raise BuildError('engine: ' + r.stdout[-2000:])
    r = sh(['g++', out + '/vse.cpp.o', out + '/expr.cpp.o', '-o', out + '/vse.tmp', '-L' + LLVM + '/lib', '-lLLVM-18', '-lz3'])
    if r.returncode: raise BuildError('engine link: ' + r.stdout[-2000:])
    os.rename(out + '/vse.tmp', out + '/vse')
    return out + '/vse'

# ------------------------------------------------------------------ sources
def sync_sources():
    """copy /repo's working tree to build/src and add what its build generates"""
    dst = os.path.join(BUILD, 'src'); os.makedirs(dst, exist_ok=True)
    r = sh(['rsync', '-rlpc', '--delete', '--exclude=/.git', '--exclude=/_build', '--exclude=/tests', '--exclude=/man', '--exclude=/po',
            '--exclude=*.o', '--exclude=*.a', '--exclude=*.exe', '--exclude=/bin', '--exclude=config.c', '--exclude=/config.h', '--exclude=/libcu8/config.h',
            '--exclude=/libfasteval/lib/parser.c', '--exclude=/libfasteval/lib/parser.h', '--exclude=/libfasteval/lib/scanner.c', '--exclude=/dump/dump.h', '--exclude=/dump/gen', REPO + '/', dst + '/'])
    if r.returncode: raise BuildError('rsync: ' + r.stdout)
    for a, b in (('config.h', 'config.h'),):
        a = os.path.join(VERIF, 'models', a); b = os.path.join(dst, b)
        if os.path.exists(a) and (not os.path.exists(b) or rd(a) != rd(b)): shutil.copy(a, b)
    lib = dst + '/libfasteval/lib'
    y = digest(rd(lib + '/parser.y'), rd(lib + '/scanner.l')); stamp = os.path.join(BUILD, 'gen.stamp')
    if not (os.path.exists(lib + '/scanner.c') and os.path.exists(lib + '/parser.c') and os.path.exists(stamp) and rd(stamp).decode() == y):
        for c in (['bison', '-d', '-p', 'evaluator_', '-o', 'parser.c', 'parser.y'], ['flex', '-Pevaluator_', '-L', '-oscanner.c', 'scanner.l']):
            r = sh(c, cwd=lib)
            if r.returncode: raise BuildError(' '.join(c) + ': ' + r.stdout[-1500:])
        open(stamp, 'w').write(y)
    g = os.path.join(dst, 'dump'); y = digest(rd(g + '/dump_h_gen.c')); stamp = os.path.join(BUILD, 'gend.stamp')
    if not (os.path.exists(g + '/dump.h') and os.path.exists(stamp) and rd(stamp).decode() == y):
        r = sh(['gcc', '-w', '-I..', 'dump_h_gen.c', '-o', 'gen'], cwd=g)
        if r.returncode: raise BuildError('dump_h_gen.c: ' + r.stdout[-1500:])
        r = subprocess.run([g + '/gen'], stdout=subprocess.PIPE, cwd=g); open(g + '/dump.h', 'wb').write(r.stdout); os.remove(g + '/gen')
        open(stamp, 'w').write(y)
    return dst

INC = ['-Ilibpbat', '-Imicrogettext', '-Ilibfasteval/lib', '-I.', '-Ipbat/core', '-Itea/src']
UNITS = {
    'core': dict(files=['libpbat/**/*.c', 'microgettext/*.c', 'libfasteval/lib/*.c', 'pbat/**/*.c'], skip=[], flags=[], mains={'pbat/pBat.c': 'pbat_main'}),
    'tea': dict(files=['libpbat/**/*.c', 'tea/src/**/*.c'], skip=[], flags=[], mains={'tea/src/tea.c': 'tea_main'}),
    'dump': dict(files=['dump/dump.c'], skip=[], flags=[], mains={'dump/dump.c': 'dump_main'}),
    'pbatize': dict(files=['libpbat/**/*.c', 'pbatize/*.c'], skip=[], flags=[], mains={'pbatize/pbatize.c': 'pbatize_main'}),
    'cu8': dict(files=['libcu8/src/%s.c' % x for x in ('encoding', 'read', 'write', 'fdio', 'dup', 'dirent', 'iconv/iconv')], skip=[],
                flags=['-fshort-wchar', '-DWIN32', '-I' + os.path.join(VERIF, 'models', 'win'), '-Ilibcu8/include', '-Ilibcu8/src'], mains={}),
}
BCFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-fno-builtin', '-fno-strict-aliasing', '-fwrapv', '-fno-delete-null-pointer-checks',
           '-w', '-fno-stack-protector', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-std=gnu17']
NFLAGS = ['-O1', '-g1', '-c', '-fno-inline', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=integer-divide-by-zero,unreachable', '-fno-sanitize-recover=all',
          '-ftrivial-auto-var-init=pattern', '-fno-strict-aliasing', '-fwrapv', '-fno-delete-null-pointer-checks', '-fno-builtin', '-w', '-D_GNU_SOURCE', '-Wno-error=implicit-function-declaration',
          '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-std=gnu17', '-fcommon']
OPTS = 'function(sroa,early-cse,simplifycfg,instsimplify)'

def unit_files(unit, src):
    u = UNITS[unit]; out = []
    for p in u['files']: out += glob.glob(os.path.join(src, p), recursive=True)
    out = sorted(set(os.path.relpath(f, src) for f in out) - set(u['skip']))
    return out

def headers_key(src):
    hs = sorted(glob.glob(src + '/**/*.h', recursive=True)) + sorted(glob.glob(os.path.join(VERIF, 'models', '**', '*.h'), recursive=True)) + sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))
    hs += sorted(glob.glob(src + '/libcu8/src/**/*.c', recursive=True)) if os.path.isdir(src + '/libcu8') else []
    return digest(*[x for h in hs for x in (os.path.relpath(h, '/'), rd(h))])

def compile_all(src, hk, jobs):
    """jobs: list of (path, flags) -> list of object paths (cached)"""
    def one(j):
        path, flags, ext = j
        full = path if path.startswith('/') else os.path.join(src, path)
        key = digest(rd(full), hk, path, ' '.join(flags))
        out = os.path.join(BUILD, 'obj', key + ext)
        if not os.path.exists(out):
            r = sh([CLANG] + flags + [path, '-o', out + '.tmp%d' % os.getpid()], cwd=src)
            if r.returncode: raise BuildError(path + ': ' + r.stdout[-1500:])
            os.rename(out + '.tmp%d' % os.getpid(), out)
        return out
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, jobs))

def unit_jobs(unit, src, base, ext):
    u = UNITS[unit]; js = []
    for f in unit_files(unit, src):
        fl = base + INC + ['-I' + os.path.dirname(f)] + u['flags']
        if f in u['mains']: fl = fl + ['-Dmain=' + u['mains'][f]]
        js.append((f, fl, ext))
    return js

def hjob(h, tier, base, ext):
    defs = ['-D%s=%s' % kv for kv in h.get(tier, h.get('quick', {})).items()]
    fl = base + INC + ['-I' + os.path.join(VERIF, 'harness')] + UNITS[h['unit']]['flags'] + defs
    return (os.path.join(VERIF, 'harness', h['file']), fl, ext)

def unit_bc(unit, src, hk):
    objs = compile_all(src, hk, unit_jobs(unit, src, BCFLAGS, '.bc'))
    key = digest(*objs); out = os.path.join(BUILD, 'obj', 'unit-%s-%s.bc' % (unit, key))
    if not os.path.exists(out):
        t = out + '.tmp%d' % os.getpid()
        r = sh(['llvm-link-18'] + objs + ['-o', t + 'l'])
        if r.returncode: raise BuildError('llvm-link: ' + r.stdout[-1500:])
        r = sh(['opt-18', '-passes=' + OPTS, t + 'l', '-o', t])
        if r.returncode: raise BuildError('opt: ' + r.stdout[-1500:])
        os.remove(t + 'l'); os.rename(t, out)
    return out

def harness_bc(h, tier, ubc, src, hk):
    ex = compile_all(src, hk, [hjob(h, tier, BCFLAGS, '.bc'), (os.path.join(VERIF, 'models', 'libc.c'), BCFLAGS + UNITS[h['unit']]['flags'][:1] + ['-fno-builtin'], '.bc')])
    key = digest(ubc, *ex, h['entry']); out = os.path.join(BUILD, 'obj', 'h-%s-%s.bc' % (h['entry'], key))
    if not os.path.exists(out):
        t = out + '.tmp%d' % os.getpid()
        r = sh(['opt-18', '-passes=' + OPTS, ex[0], '-o', t + 'h']); r2 = sh(['opt-18', '-passes=' + OPTS, ex[1], '-o', t + 'c'])
        if r.returncode or r2.returncode: raise BuildError('opt: ' + r.stdout + r2.stdout)
        # the harness may stand in for a function of the code; the libc model only fills gaps
        r = sh(['llvm-link-18', ubc, '--override=' + t + 'h', '-o', t + 'l'])
        if r.returncode: raise BuildError('llvm-link harness: ' + r.stdout[-1500:])
        r = sh(['llvm-link-18', '--only-needed', t + 'l', t + 'c', '-o', t + 'm'])
        if r.returncode: raise BuildError('llvm-link libc: ' + r.stdout[-1500:])
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + h['entry'], t + 'm', '-o', t])
        if r.returncode: raise BuildError('opt internalize: ' + r.stdout[-1500:])
        for s in 'hclm': os.remove(t + s)
        os.rename(t, out)
    return out

# ------------------------------------------------------------------ native replay
def native_bin(h, tier, src, hk):
    js = unit_jobs(h['unit'], src, NFLAGS, '.o')
    objs = compile_all(src, hk, [hjob(h, tier, NFLAGS + ['-DVF_NATIVE'], '.o')] + js + [(os.path.join(VERIF, 'models', 'native.c'), NFLAGS + ['-DVF_NATIVE', '-DVF_ENTRY=' + h['entry'], '-I' + os.path.join(VERIF, 'harness')], '.o')])
    key = digest(*objs); out = os.path.join(BUILD, 'obj', 'n-%s-%s' % (h['entry'], key))
    if not os.path.exists(out):
        t = out + '.tmp%d' % os.getpid()
        r = sh([CLANG, '-fsanitize=address', '-fsanitize=integer-divide-by-zero,unreachable', '-Wl,-z,muldefs'] + objs + ['-o', t, '-lm', '-ldl', '-lpthread'] + h.get('nlibs', []))
        if r.returncode: raise BuildError('native link: ' + r.stdout[-2500:])
        os.rename(t, out)
    return out

_prog = {}; _plock = threading.Lock()
def prog_copy(binary):
    """a copy an unprivileged user can run (made once: a copy written while another thread forks cannot be executed)"""
    with _plock:
        if binary not in _prog:
            d = tempfile.mkdtemp(prefix='vfp'); os.chmod(d, 0o755); atexit.register(shutil.rmtree, d, True)
            subprocess.check_call(['cp', binary, d + '/prog']); os.chmod(d + '/prog', 0o755); _prog[binary] = d + '/prog'
        return _prog[binary]

def native_run(binary, inp, timeout=20, show=False):
    """run one concrete input on the real code as an unprivileged user in a scratch directory"""
    prog = prog_copy(binary); d = tempfile.mkdtemp(prefix='vfr')
    try:
        os.chmod(d, 0o755)
        os.mkdir(d + '/cwd'); 
        with open(d + '/in', 'w') as f: f.write(' '.join(map(str, inp)) + '\n')
        os.chmod(d + '/in', 0o644)
        root = os.getuid() == 0
        if root: os.chown(d + '/cwd', 65534, 65534)
        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (timeout + 5, timeout + 5)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
            os.setsid()
            if root: os.setgroups([]); os.setgid(65534); os.setuid(65534)
        env = {'PATH': '/usr/bin:/bin', 'HOME': d + '/cwd', 'ASAN_OPTIONS': 'log_path=' + d + '/cwd/_asan:exitcode=99:detect_leaks=0:max_malloc_fill_size=100000:malloc_fill_byte=170:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:abort_on_error=0:allow_user_segv_handler=1:strict_string_checks=0',
               'ASAN_SYMBOLIZER_PATH': LLVM + '/bin/llvm-symbolizer', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99'}
        p = subprocess.Popen([prog, d + '/in'], cwd=d + '/cwd', stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=env)
        try:
            o, e = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
            try: os.killpg(p.pid, 9)
            except OSError: pass
            o, e = p.communicate()
        try: os.killpg(p.pid, 9)
        except OSError: pass
        e = e.decode('latin-1')
        for f in glob.glob(d + '/cwd/_asan*'): e += rd(f).decode('latin-1')[:4000]
        if show:
            for f in sorted(glob.glob(d + '/cwd/**', recursive=True)):
                if os.path.isfile(f) and not os.path.islink(f) and '_asan' not in f: e += '--- %s ---\n%s\n' % (f[len(d) + 5:], rd(f).decode('latin-1')[:3000])
        obs = [int(x) for x in re.findall(r'^VF-OBS (-?\d+)', e, re.M)]
        return rc, obs, e
    finally:
        shutil.rmtree(d, ignore_errors=True)

def confirmed(rc): return rc == 77 or rc == 99 or rc == 'timeout' or (isinstance(rc, int) and rc < 0)

# ------------------------------------------------------------------ check
def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def check(pid, tier, only=None, keep=False):
    import checks
    t00 = time.time()
    prop = checks.P[pid]; seed = int(os.environ.get('VERIF_SEED', '1'))
    hs = [h for h in prop['harness'] if tier in h.get('tiers', ('quick', 'thorough')) and (not only or h['entry'] in only)]
    with Lock():
        notes = []; src = None
        with ThreadPoolExecutor(1) as ex:
            fut = ex.submit(engine)
            src = sync_sources(); hk = headers_key(src)
            ubc = {}; err = {}
            for u in sorted(set(h['unit'] for h in hs)):
                try: ubc[u] = unit_bc(u, src, hk)
                except BuildError as e: err[u] = str(e)
            vse = fut.result()
        bcs = {}
        for h in hs:
            k = h['entry']
            if h['unit'] in err: notes.append('%s: sources do not compile: %s' % (k, err[h['unit']][:600])); continue
            try: bcs[k] = harness_bc(h, tier, ubc[h['unit']], src, hk)
            except BuildError as e: notes.append('%s: %s' % (k, str(e)[:800]))
        nat = {}
        for h in hs:
            if h['entry'] in bcs:
                try: nat[h['entry']] = native_bin(h, tier, src, hk)
                except BuildError as e: notes.append('%s: native replay build: %s' % (h['entry'], str(e)[:1500]))
    build_s = time.time() - t00
    tot = dict(paths=0, forks=0, steps=0, queries=0, by_model=0, by_domain=0, z3_queries=0, z3_unsat=0, z3_sat=0, z3_seconds=0.0, checks=0, checks_to_z3=0, xchecks=0)
    per = []; samples = []; viols = []; validated = 0; mism = []; funcs = set(); complete = bool(hs) and len(bcs) == len(hs); unconf = []; knownhit = {}
    kf = {f['id']: f for f in known_findings()['findings'] if f['property'] == pid}
    for h in hs:
        k = h['entry']
        if k not in bcs: continue
        tl = h.get('time', {}).get(tier, 90 if tier == 'quick' else 900)
        out = os.path.join(BUILD, 'out-%s-%s-%d.jsonl' % (pid, k, os.getpid()))
        cmd = [vse, bcs[k], k, out, '-t', str(tl), '-j', str(NCPU), '-s', str(h.get('steps', 3000000))] + (['-x'] if not h.get('nox') else []) + ['-k']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: st = json.loads(r.stdout)
        except Exception:
            notes.append('%s: engine failed: %s %s' % (k, r.stdout[-300:], r.stderr[-600:])); complete = False; continue
        recs = [json.loads(l) for l in open(out, errors='replace')]
        if not keep: os.remove(out)
        cov = set(x['label'] for x in recs if x['t'] == 'cover'); fn = set(x['name'] for x in recs if x['t'] == 'fn'); funcs |= fn
        miss = [c for c in h.get('covers', []) if c not in cov]
        uns = sorted(set(x['msg'] for x in recs if x['t'] == 'unsup'))
        kn = {}
        for x in recs:
            if x['t'] == 'known': kn.setdefault(x['id'], x['in'])
        vs = [x for x in recs if x['t'] == 'viol']
        for key in tot: tot[key] += st.get(key, 0)
        if not st['complete']: complete = False
        if miss and not vs: notes.append('%s: not reached: %s' % (k, ', '.join(miss))); complete = False
        # replay counterexamples, one per distinct (kind, message, top frame), a few inputs each
        groups = {}
        for x in vs: groups.setdefault((x['kind'], x['msg'], x['where'].split(' < ')[0]), []).append(x)
        conf = []
        for g, xs in list(groups.items())[:12]:
            ok = None
            for x in xs[:3]:
                if k not in nat: break
                rc, obs, e = native_run(nat[k], x['in'], h.get('rtimeout', 20))
                if confirmed(rc): ok = (x, rc, e); break
                last = (rc, e[-300:])
            if ok: conf.append(ok)
            else: unconf.append('%s: %s %s at %s in=%s native=%s' % (k, g[0], g[1], xs[0]['where'], xs[0]['in'], last if k in nat else 'no native build'))
            if len(conf) >= 3: break
        for x, rc, e in conf: viols.append((h, x, rc, e))
        for kid, inp in kn.items():
            if kid in kf:
                rc = native_run(nat[k], inp + [], h.get('rtimeout', 20))[0] if k in nat else None
                knownhit[kid] = (k, inp, rc)
            else:
                x = {'kind': 'check', 'msg': 'unlisted finding ' + kid, 'where': k, 'in': inp}
                if k in nat and confirmed(native_run(nat[k], inp)[0]): viols.append((h, x, 77, ''))
        # completed paths on the real code: same observations?
        ps = [x for x in recs if x['t'] == 'path']; step = max(1, len(ps) // h.get('validate', 16)); okv = 0
        if k in nat:
            pick = ps[::step][:h.get('validate', 16)]
            def v(x):
                rc, obs, e = native_run(nat[k], x['in'], h.get('rtimeout', 20)); return x, rc, obs, e
            with ThreadPoolExecutor(NCPU) as ex:
                for x, rc, obs, e in ex.map(v, pick):
                    if rc == 0 and obs == x['obs']: okv += 1; validated += 1
                    else: mism.append('%s in=%s engine=%s native=%s rc=%s %s' % (k, x['in'], x['obs'], obs, rc, e[-200:] if rc else ''))
        samples += [{'harness': k, 'input_bytes': x['in'], 'observed': x['obs'][:32]} for x in ps[:2]]
        per.append(dict(harness=k, bounds=bounds_text(h, tier), defines=h.get(tier, h.get('quick', {})), complete=st['complete'] and not miss, covers=sorted(cov), missing=miss, unsupported=uns[:5],
                        functions=len(fn), validated=okv, native=k in nat, **{q: st[q] for q in ('paths', 'steps', 'forks', 'queries', 'by_model', 'by_domain', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_seconds', 'checks', 'checks_to_z3', 'max_symbolic_bytes', 'xchecks', 'xbad', 'wall', 'assume_killed', 'dropped', 'violations')}))
        print('%-24s %s paths=%d queries=%d z3=%d (%.1fs) checks=%d wall=%.1fs validated=%d%s' % (k, 'complete' if st['complete'] else 'INCOMPLETE', st['paths'], st['queries'], st['z3_queries'], st['z3_seconds'], st['checks'], st['wall'], okv,
              (' unsupported: ' + '; '.join(uns[:2])) if uns else ''))
        sys.stdout.flush()
    rdir = os.path.join(BUILD, 'replay', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, (h, x, rc, e) in enumerate(viols):
        f = os.path.join(rdir, '%d.json' % i)
        json.dump(dict(property=pid, harness=h['entry'], tier=tier, kind=x['kind'], message=x['msg'], where=x['where'], input=x['in'], native=str(rc), native_stderr=e[-3000:]), open(f, 'w'), indent=1)
        lines.append((f, x, rc))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t00, 2), violations=len(viols),
              coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples[:12] or [{'note': 'no completed path'}],
                            exhaustive=complete and not viols, explanation='states = symbolic paths executed to their end on the LLVM IR of the current sources, transitions = IR instructions executed; exhaustive refers to all inputs within the stated bounds',
                            complete=complete, queries_discharged=tot['queries'], queries_by_model=tot['by_model'], queries_by_byte_domain=tot['by_domain'], solver_queries=tot['z3_queries'], solver_unsat=tot['z3_unsat'], solver_sat=tot['z3_sat'],
                            solver_seconds=round(tot['z3_seconds'], 3), assertions_checked=tot['checks'], assertions_to_solver=tot['checks_to_z3'], pruned_branches_cross_checked=tot['xchecks'],
                            functions_encoded=sorted(funcs), harnesses=per, build_seconds=round(build_s, 1)),
              assumptions=checks.COMMON + prop.get('assumptions', []) + ['INCONCLUSIVE: ' + n for n in notes] + ['UNCONFIRMED engine report (not counted): ' + n for n in unconf] + ['ENGINE/NATIVE MISMATCH: ' + m for m in mism[:10]])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in notes: print('NOTE', n)
    for n in unconf: print('UNCONFIRMED', n)
    for m in mism[:6]: print('MISMATCH', m)
    for kid, (k, inp, rc) in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kf[kid]['what'], kid))
    for f, x, rc in lines:
        print('  %s: %s at %s; input %s; native replay: %s' % (x['kind'], x['msg'], x['where'], x['in'], rc))
    if lines:
        print('VIOLATION property=%s replay=%s' % (pid, lines[0][0])); return 1
    print('property %s: %s within the stated bounds (%d paths, %.1fs)' % (pid, 'holds' if complete else 'no violation found, exploration INCOMPLETE', tot['paths'], time.time() - t00))
    return 0

def bounds_text(h, tier):
    """what the harness leaves open, and the sizes it is built with"""
    import bounds
    return '; '.join(x for x in (bounds.T.get(h['entry'], h.get('bounds', '')), ', '.join('%s=%s' % kv for kv in h.get(tier, h.get('quick', {})).items())) if x)

def replay(f):
    import checks
    d = json.load(open(f)); h = [h for h in checks.P[d['property']]['harness'] if h['entry'] == d['harness']][0]
    with Lock():
        src = sync_sources(); hk = headers_key(src); b = native_bin(h, d['tier'], src, hk)
    rc, obs, e = native_run(b, d['input'], show=True)
    print(e); print('exit', rc, 'confirmed' if confirmed(rc) else 'not reproduced')
    return 1 if confirmed(rc) else 0

def prune():
    d = os.path.join(BUILD, 'obj')
    if os.path.isdir(d):
        fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
        size = sum(os.path.getsize(p) for _, p in fs)
        for _, p in fs:
            if size < 6 << 30: break
            size -= os.path.getsize(p); os.remove(p)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'setup':
        with Lock():
            engine(); src = sync_sources(); hk = headers_key(src)
            import checks
            for u in sorted(set(h['unit'] for p in checks.P.values() for h in p['harness'])): unit_bc(u, src, hk)
        prune(); print('ready'); return 0
    if a[0] == 'list':
        import checks
        for k, p in checks.P.items(): print(k, p.get('title', ''), [h['entry'] for h in p['harness']])
        return 0
    if a[0] == 'replay': return replay(a[1])
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; i = 2
        while i < len(a):
            if a[i] == '--tier': tier = a[i + 1]; i += 2
            elif a[i] == '--only': only = a[i + 1].split(','); i += 2
            elif a[i] == '--keep': keep = True; i += 1
            else: print('unknown argument', a[i]); return 2
        if tier not in ('quick', 'thorough'): tier = 'quick'
        return check(a[1], tier, only, keep)
    return 2
if __name__ == '__main__': sys.exit(main())
