#!/usr/bin/env python3
"""Build and run the checks.
  vf.py setup              build every flavour and harness (warm caches; optional)
  vf.py check ID           build what the check of property ID needs from /repo's tree, run it
  vf.py replay FILE        re-run a replay file (verbosely)
  vf.py build FLAVOUR      build one library flavour
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VF_ARGS (extra engine args).
"""
import sys, os, subprocess, hashlib, json, shutil, tempfile, time, fcntl
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', os.path.join(V, '.build'))
sys.path.insert(0, V)

SAN = '-fsanitize=address -fsanitize=bounds,integer-divide-by-zero,return,vla-bound -fno-sanitize-recover=all'
COV = '-fsanitize-coverage=inline-8bit-counters'
BASE = '-gline-tables-only -fno-omit-frame-pointer -w -Wno-error -ffile-prefix-map=%s=.' % R
COMMON_OPTS = """-DHITLS_BUILD_GEN_INFO=ON -DHITLS_BUILD_PROFILE=full -DHITLS_CRYPTO_RAND_CB=ON
 -DHITLS_EAL_INIT_OPTS=9 -DHITLS_CRYPTO_ASM_CHECK=ON
 -DHITLS_CRYPTO_ENTROPY=ON -DHITLS_CRYPTO_ENTROPY_DEVRANDOM=ON -DHITLS_CRYPTO_ENTROPY_GETENTROPY=ON
 -DHITLS_CRYPTO_ENTROPY_SYS=ON -DHITLS_CRYPTO_ENTROPY_HARDWARE=ON -DHITLS_CRYPTO_ENTROPY_NS_CPUJITTER=ON
 -DHITLS_CRYPTO_DRBG_GM=ON -DHITLS_CRYPTO_ACVP_TESTS=ON -DHITLS_CRYPTO_DSA_GEN_PARA=ON
 -DHITLS_CRYPTO_HSS_LMS=ON -DHITLS_BSL_UIO_SCTP=OFF -DHITLS_BUILD_STATIC=ON -DHITLS_BUILD_SHARED=OFF
 -DHITLS_CRYPTO_SP800_STRICT_CHECK=ON -DHITLS_SM2_PRECOMPUTE_512K_TBL=OFF
 -DHITLS_PLATFORM_ENDIAN=little
 -DHITLS_PKI_X509_CRL_LITE=ON -DHITLS_PKI_X509_VFY_CRL_LITE=ON
 -D_HITLS_COMPILE_OPTIONS_DEL=-O2 -DHITLS_TLS_FEATURE_SM_TLS13=ON -DHITLS_CRYPTO_CMVP=ON""".split()
ASM = ['-DHITLS_ASM_X8664=ON']
# flavour -> (cmake options, C flags, harness flags)
FLAVOURS = {
    'san':   (COMMON_OPTS + ASM, f'-O1 {SAN} {COV} {BASE}', f'-O1 {SAN} {BASE}'),
    'exe':   (COMMON_OPTS + ASM + ['-DHITLS_BUILD_EXE=ON'], f'-O1 {SAN} {BASE}', f'-O1 {SAN} {BASE}'),
    'fast':  (COMMON_OPTS + ASM, f'-O2 {BASE}', f'-O2 {BASE}'),
    'noasm': (COMMON_OPTS, f'-O1 {SAN} {BASE}', f'-O1 {SAN} {BASE}'),
    'tsan':  (COMMON_OPTS + ASM, f'-O1 -fsanitize=thread {BASE}', f'-O1 -fsanitize=thread {BASE}'),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(B, 'ccache')
    e['CCACHE_NOHASHDIR'] = '1'
    e['CCACHE_SLOPPINESS'] = 'pch_defines,time_macros'
    e['CC'] = 'clang'; e['CXX'] = 'clang++'
    for k in ('MAKEFLAGS', 'LD_LIBRARY_PATH', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS'):
        e.pop(k, None)
    return e

SRC_DIRS = ['CMakeLists.txt', 'cmake', 'config', 'include', 'bsl', 'crypto', 'codecs', 'pki', 'tls', 'auth', 'apps']
def manifest():
    """content hash and mtime of every source file of the tree under test"""
    m = {}
    for d in SRC_DIRS:
        p = os.path.join(R, d)
        if os.path.isfile(p):
            files = [p]
        else:
            files = [os.path.join(a, f) for a, _, fs in os.walk(p) for f in fs]
        for f in files:
            try:
                with open(f, 'rb') as fh:
                    m[os.path.relpath(f, R)] = hashlib.sha1(fh.read()).hexdigest()
            except OSError:
                pass
    return m

def die(msg, log=None):
    print('BUILD ERROR:', msg)
    if log:
        try:
            print(open(log, errors='replace').read()[-6000:])
        except OSError:
            pass
    sys.exit(2)

def build_lib(fl):
    opts, cflags, _ = FLAVOURS[fl]
    d = os.path.join(B, fl)
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, fl + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        m = manifest()
        key = hashlib.sha1(json.dumps([opts, cflags, R]).encode()).hexdigest()
        mf = os.path.join(d, 'vf_manifest.json')
        old = None
        try:
            old = json.load(open(mf))
        except (OSError, ValueError):
            pass
        if old and old['key'] == key and old['files'] == m and os.path.exists(os.path.join(d, 'vf_ok')):
            return d
        fresh = True
        if old and old['key'] == key and set(old['files']) == set(m):
            changed = [f for f in m if old['files'][f] != m[f]]
            # incremental only when the timestamps agree with the contents
            ok = all(os.stat(os.path.join(R, f)).st_mtime > old['time'] for f in changed)
            cm = any(f.endswith(('CMakeLists.txt', '.cmake', '.in')) for f in changed)
            fresh = not ok or cm
        if fresh and os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d, exist_ok=True)
        for f in ('vf_ok',):
            try: os.unlink(os.path.join(d, f))
            except OSError: pass
        t = time.time() - 2
        log = os.path.join(d, 'build.log')
        e = env()
        if fresh:
            cc = ['-DCMAKE_C_COMPILER_LAUNCHER=ccache', '-DCMAKE_ASM_COMPILER_LAUNCHER=ccache'] if shutil.which('ccache') else []
            gen = ['-GNinja'] if shutil.which('ninja') else []
            with open(log, 'w') as lf:
                r = sh(['cmake'] + gen + cc + opts + ['-DCMAKE_C_FLAGS=' + cflags, R], cwd=d, env=e, stdout=lf, stderr=lf)
            if r.returncode:
                die('cmake failed', log)
        with open(log, 'a') as lf:
            r = sh(['cmake', '--build', '.', '-j', '8'], cwd=d, env=e, stdout=lf, stderr=lf)
        if r.returncode:
            die('library build failed', log)
        json.dump({'key': key, 'files': m, 'time': t}, open(mf, 'w'))
        open(os.path.join(d, 'vf_ok'), 'w').close()
    return d

def incdirs():
    out = []
    for d in ('include/bsl', 'include/crypto', 'include/pki', 'include/tls', 'include/auth', 'config/macro_config', 'crypto/include', 'bsl/include',
              'bsl/err/include'):
        out += ['-I', os.path.join(R, d)]
    return out

def build_harness(pid, cfg, fl, libdir):
    """compile harness sources of a property against a flavour"""
    _, _, hflags = FLAVOURS[fl]
    e = env()
    hd = os.path.join(B, 'h', fl); os.makedirs(hd, exist_ok=True)
    macros = open(os.path.join(libdir, 'macros.txt')).read().split()
    inc = incdirs()
    for d in cfg.get('inc', []):
        inc += ['-I', os.path.join(R, d)]
    inc += ['-I', os.path.join(V, 'engine'), '-I', os.path.join(V, 'harness')]
    std = ['-std=c++17', '-Wno-everything', '-fno-strict-aliasing']
    objs = []
    procs = []
    cov = [] if fl != 'san' else []
    for s in ['engine/pbt.cpp'] + cfg['src']:
        src = os.path.join(V, s)
        o = os.path.join(hd, pid + '_' + os.path.basename(s) + '.o')
        # harness objects are rebuilt through ccache: content addressed, headers of /repo included
        comp = ['clang++'] + std if s.endswith('.cpp') else ['clang', '-Wno-everything']
        cmd = (['ccache'] if shutil.which('ccache') else []) + comp + hflags.split() + macros + cfg.get('defs', []) + inc + ['-c', src, '-o', o]
        procs.append((src, subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print(out.decode(errors='replace')[-6000:])
            die('harness compile failed: ' + s)
    exe = os.path.join(hd, pid)
    libs = [os.path.join(libdir, f'libhitls_{l}.a') for l in ('auth', 'tls', 'pki', 'crypto', 'bsl')]
    cmd = ['clang++'] + hflags.split() + objs + ['-Wl,--start-group'] + libs + ['-Wl,--end-group'] + cfg.get('ld', []) + ['-lcrypto', '-ldl', '-lpthread', '-lm', '-o', exe]
    r = sh(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode(errors='replace')[-6000:])
        die('harness link failed')
    return exe

def run_env(extra=None):
    e = env()
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:symbolize=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:second_deadlock_stack=1'
    e['TZ'] = 'UTC'
    e['LC_ALL'] = 'C'
    if extra: e.update(extra)
    return e

def do_check(pid, replay=None):
    from checks import CHECKS
    cfg = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    if 'py' in cfg:
        mod = __import__('harness.' + cfg['py'], fromlist=['run'])
        return mod.run(pid, cfg, tier, int(seed), sys.modules[__name__])
    fls = cfg.get('flavours', ['san'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    rc = 0
    # 'reuse': the harnesses of other properties, run against another flavour of the library
    items = [(fl, None, cfg) for fl in fls] if 'reuse' not in cfg else [(fl, sub, CHECKS[sub]) for fl in fls for sub in cfg['reuse']]
    for k, (fl, sub, hcfg) in enumerate(items):
        if replay and sub and ('-' + sub + os.sep) not in os.path.abspath(replay):
            continue
        if replay and not sub and len(fls) > 1 and ('-' + fl + '-') not in replay and k != 0:
            continue
        if sub:
            rdir = os.path.join(V, 'replays', f'{pid}-{sub}'); os.makedirs(rdir, exist_ok=True)
        lib = build_lib(fl)
        exe = build_harness(sub or pid, hcfg, fl, lib)
        tb = time.time() - t0
        with tempfile.TemporaryDirectory(prefix='vf_') as tmp:
            ev = os.path.join(V, 'evidence', f'{pid}.json') if k == 0 else os.path.join(tmp, 'ev.json')
            args = [exe, '--property', pid, '--tier', tier, '--seed', seed, '--evidence', ev, '--replaydir', rdir,
                    '--known', os.path.join(V, 'known_findings.txt'), '--tmp', tmp, '--level', cfg.get('level', 'exploration')]
            if 'scale' in cfg: args += ['--scale', str(cfg['scale'])]
            if replay: args += ['--replay', os.path.abspath(replay)]
            if cfg.get('budget') and tier == 'quick': args += ['--budget', str(cfg['budget'])]
            args += os.environ.get('VF_ARGS', '').split()
            e = run_env(hcfg.get('env'))
            e['VF_TMP'] = tmp; e['VF_REPO'] = R; e['VF_DIR'] = V; e['VF_LIBDIR'] = lib
            print(f'[{pid}] flavour {fl}{" harness " + sub if sub else ""}: built in {tb:.1f}s', flush=True)
            r = sh(args, env=e, cwd=tmp)
            if k > 0 and os.path.exists(ev):
                main = os.path.join(V, 'evidence', f'{pid}.json')
                a, b = json.load(open(main)), json.load(open(ev))
                for f in ('evaluations', 'distinct_nontrivial', 'nontrivial', 'discarded'):
                    a['coverage'][f] += b['coverage'][f]
                a['coverage']['flavour_' + fl + ('_' + sub if sub else '')] = {x: b['coverage'][x] for x in ('evaluations', 'distinct_nontrivial', 'per_test')}
                a['wall_s'] = round(time.time() - t0, 2); a['violations'] += b['violations']
                json.dump(a, open(main, 'w'), indent=1)
        if r.returncode != 0:
            return r.returncode if r.returncode == 1 else 2
    return rc

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == 'check': sys.exit(do_check(a[1]))
    if a[0] == 'build': print(build_lib(a[1])); sys.exit(0)
    if a[0] == 'replay':
        pid = None
        for l in open(a[1]):
            if l.startswith('property: '): pid = l.split()[1]
        sys.exit(do_check(pid, replay=a[1]))
    if a[0] == 'setup':
        from checks import CHECKS
        for fl in sorted({f for c in CHECKS.values() for f in c.get('flavours', ['san'])}):
            build_lib(fl)
        sys.exit(0)
    print(__doc__); sys.exit(2)
main()
