#!/usr/bin/env python3
"""Builds (a) the simulator and (b) the programs under test from /repo's working tree.

Each program's real sources (main.c included) are compiled, every libc symbol they use that the simulator
models is renamed foo -> sim_foo in the object file, and the result is linked as a shared object that the
simulator loads.  Both products are cached under /verif/build by a hash of everything that went into them.
Usage: build.py [sim|code|all]; prints the paths as KEY=VALUE lines."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'build')
SIMFLAGS = '-std=c++17 -O2 -g1 -Wall -Wno-misleading-indentation -Wno-unused-function'.split()
CFLAGS = ['-O1', '-g', '-fPIC', '-std=gnu11', '-w', '-DHAVE_CONFIG_H', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0',
          '-fno-stack-protector', '-fno-builtin-malloc', '-fsanitize=thread', '-fsanitize-coverage=trace-pc']
PROGS = {'blogc': ['blogc'], 'blogc-make': ['blogc-make'], 'blogc-runserver': ['blogc-runserver'],
         'blogc-git-receiver': ['blogc-git-receiver']}
# functions with no effect outside their arguments: they may run natively
PURE = set('''strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strcasestr strspn strcspn strpbrk memcmp memchr memrchr
strtol strtoul strtoll strtoull strtod strtof atoi atol atoll isalpha isdigit isspace isalnum isupper islower toupper tolower
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc ceil ceilf ceill floor floorf round lround fmod fmodf log log10 log2 pow sqrt exp fabs
qsort bsearch strnlen strchrnul abs labs inet_ntop inet_pton inet_ntoa inet_addr htons htonl ntohs ntohl
basename dirname __xpg_basename sscanf __isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoll
__isoc23_strtoull strftime setjmp _setjmp longjmp __longjmp_chk strcoll strxfrm strsep rawmemchr strptime difftime ffs
isatty_ div ldiv memmem memccpy index rindex bcmp qsort_r swab strverscmp __sigsetjmp siglongjmp regcomp regexec regfree regerror getsubopt localeconv mblen mbstowcs vsscanf __isoc99_vsscanf __isoc23_vsscanf clock_getres getpagesize strsignal lldiv fnmatch tolower isprint iscntrl ispunct isxdigit modf modff
_GLOBAL_OFFSET_TABLE_ __stack_chk_guard'''.split())

def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: ' + ' '.join(cmd) + '\n' + r.stdout[-4000:] + r.stderr[-8000:])
        sys.exit(2)
    return r.stdout

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def prune(prefix, keep, n):
    ds = [d for d in glob.glob(os.path.join(OUT, prefix + '-*')) if d != keep and not d.endswith('.tmp')]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[n:]:
        if time.time() - os.path.getmtime(d) > 1800: shutil.rmtree(d, ignore_errors=True)

def build_sim():
    src = sorted(glob.glob(HERE + '/sim/*.cpp')); hdr = sorted(glob.glob(HERE + '/sim/*.h'))
    d = os.path.join(OUT, 'sim-' + digest(src + hdr, ' '.join(SIMFLAGS))); exe = d + '/sim'
    if os.path.exists(exe): os.utime(d); return exe
    os.makedirs(d + '.o', exist_ok=True)
    hd = digest(hdr, ' '.join(SIMFLAGS)); objs = []
    def cc(s):
        o = os.path.join(OUT, 'obj', os.path.basename(s)[:-4] + '-' + digest([s], hd) + '.o')
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True); sh(['g++', *SIMFLAGS, '-c', s, '-o', o + '.%d' % os.getpid()]); os.rename(o + '.%d' % os.getpid(), o)
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, src))
    t = d + '.tmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    sh(['g++', '-g1', '-rdynamic', '-o', t + '/sim', *objs, '-ldl', '-lpthread']); shutil.rmtree(d + '.o', ignore_errors=True)
    os.rename(t, d); prune('sim', d, 3); return exe

def sim_symbols(exe):
    s = set()
    for l in sh(['nm', '-D', '--defined-only', exe]).splitlines():
        f = l.split()
        if len(f) >= 3 and f[2].startswith('sim_'): s.add(f[2][4:])
        elif len(f) >= 3: s.add('=' + f[2])
    return s

def build_code(exe):
    files = [f for p in ('src/*/*.c', 'src/*/*.h', 'src/*.c', 'src/*.h') for f in glob.glob(os.path.join(REPO, p))] + [f for f in glob.glob(REPO + '/src/*/CMakeLists.txt') + glob.glob(REPO + '/src/CMakeLists.txt') + glob.glob(REPO + '/CMakeLists.txt')]
    me = open(os.path.abspath(__file__), 'rb').read()
    syms = sim_symbols(exe)
    d = os.path.join(OUT, 'code-' + digest(files, hashlib.sha256(me).hexdigest() + ' '.join(sorted(syms)) + open(HERE + '/cfg/config.h').read()))
    if os.path.exists(d + '/ok'): os.utime(d); return d
    t = d + '.tmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    def cc(a):
        s, variant = a
        o = '%s/%s.%s.o' % (t, variant, os.path.relpath(s, REPO).replace('/', '_'))
        inc = ['-I' + HERE + '/cfg', '-I' + t, '-I' + os.path.join(REPO, 'src'), '-I' + REPO]
        ex = ['-DMAKE_EMBEDDED'] if variant == 'blogc-embedded' and (emball or '/blogc-make/' not in s or s.endswith('/main.c')) else []
        sh(['gcc', *CFLAGS, *ex, *inc, '-c', s, '-o', o]); return o
    # the build files define MAKE_EMBEDDED for the sources of the target blogc (main.c of blogc-make is one), or for all of blogc-make
    emball = any(re.search(r'(?<!BUILD_BLOGC_)MAKE_EMBEDDED', open(f).read()) for f in (REPO + '/CMakeLists.txt', REPO + '/src/CMakeLists.txt', REPO + '/src/blogc-make/CMakeLists.txt') if os.path.exists(f))
    common = sorted(glob.glob(REPO + '/src/common/*.c')) + sorted(glob.glob(REPO + '/src/*.c'))
    progs = dict(PROGS); progs['blogc-embedded'] = ['blogc', 'blogc-make']
    jobs = {}
    for p, dirs in progs.items():
        jobs[p] = [(s, p) for dd in dirs for s in sorted(glob.glob('%s/src/%s/*.c' % (REPO, dd)))] + [(s, p) for s in common]
    allj = sorted({j for js in jobs.values() for j in js})
    with cf.ThreadPoolExecutor(8) as ex: objof = dict(zip(allj, ex.map(cc, allj)))
    unknown_all = set()
    def link(p):
        objs = [objof[j] for j in jobs[p]]
        und, dfn = set(), set()
        for l in sh(['nm', '-A', *objs]).splitlines():
            m = re.match(r'.*:\s*[0-9a-f]*\s+(\w)\s+(\S+)$', l)
            if not m: continue
            (und if m.group(1) in 'Uw' else dfn).add(m.group(2))
        und -= dfn
        red = sorted(x for x in und if x in syms and '=' + x not in {'=' + y for y in ()} and not x.startswith('__tsan_') and not x.startswith('__sanitizer_'))
        unknown = sorted(x for x in und if x not in syms and x not in PURE and not x.startswith('__tsan_') and not x.startswith('__sanitizer_'))
        unknown_all.update(unknown)
        rf = t + '/%s.redefine' % p
        open(rf, 'w').write(''.join('%s sim_%s\n' % (x, x) for x in red) + ''.join('%s simmissing_%s\n' % (x, x) for x in unknown))
        for o in objs: sh(['objcopy', '--redefine-syms=' + rf, o])
        extra = []
        if unknown:
            c = t + '/%s.missing.c' % p
            open(c, 'w').write('void sim_unmodelled(const char *);\n' + ''.join('void simmissing_%s(void) { sim_unmodelled("%s"); }\n' % (x, x) for x in unknown))
            sh(['gcc', '-O1', '-fPIC', '-c', c, '-o', c[:-2] + '.o']); extra = [c[:-2] + '.o']
        sh(['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-soname,%s.so' % p, '-o', '%s/%s.so' % (t, p), *objs, *extra, '-lm'])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(link, progs))
    for o in glob.glob(t + '/*.o'): os.unlink(o)
    open(t + '/ok', 'w').write(' '.join(sorted(unknown_all)) + '\n')
    shutil.rmtree(d, ignore_errors=True); os.rename(t, d); prune('code', d, 4); return d

def build_all():
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_sim(); return exe, build_code(exe)

if __name__ == '__main__':
    t0 = time.time(); exe, code = build_all()
    print('SIM=' + exe); print('CODE=' + code); print('UNMODELLED=' + open(code + '/ok').read().strip()); print('SECONDS=%.1f' % (time.time() - t0))
