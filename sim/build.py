#!/usr/bin/env python3
"""Builds simrun: muon's objects from the current /repo working tree + simos.

usage: build.py [--repo /repo] [--out /verif/build] [--san]
Every muon object is compiled from source here; nothing of /repo/_build is used.
"""
import argparse, concurrent.futures, glob, hashlib, os, re, subprocess, sys, time

ap = argparse.ArgumentParser()
ap.add_argument('--repo', default='/repo')
ap.add_argument('--out', default='/verif/build')
ap.add_argument('--opt', default='-O2')
A = ap.parse_args()
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, OUT = A.repo, A.out
CACHE = os.path.join(OUT, 'cache')
os.makedirs(CACHE, exist_ok=True)
ENV = dict(os.environ)
for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPATH', 'C_INCLUDE_PATH'):
    ENV.pop(k, None)

def die(msg):
    sys.stderr.write('build.py: ' + msg + '\n')
    sys.exit(2)

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, **kw)
    if p.returncode:
        die('%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[:4000]))
    return p.stdout

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]

t0 = time.time()
# ---- sources: what src/**/meson.build selects for a posix host
SKIP = {'src/amalgam.c', 'src/functions/template.c', 'src/external/samurai_null.c', 'src/external/tinyjson_null.c',
        'src/external/bestline.c', 'src/external/libpkgconf.c', 'src/external/libarchive_null.c', 'src/external/libcurl_null.c'}
srcs = []
for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
    dirs.sort()
    for f in sorted(files):
        rel = os.path.relpath(os.path.join(root, f), REPO)
        if not rel.endswith('.c') or rel in SKIP:
            continue
        if '/windows/' in rel or '/platform/null/' in rel:
            continue
        srcs.append(rel)
# only files the build files name (a stray file must not be linked)
mb = b''.join(rd(p) for p in sorted(glob.glob(REPO + '/src/**/meson.build', recursive=True))).decode(errors='replace')
named = [s for s in srcs if os.path.basename(s) in mb or s.startswith('src/external/')]
srcs = named

gen = os.path.join(OUT, 'gen')
os.makedirs(gen, exist_ok=True)
top = rd(REPO + '/meson.build').decode(errors='replace')
m = re.search(r"version:\s*'([^']+)'", top)
v = rd(REPO + '/src/version.c.in').decode().replace('@version@', m.group(1) if m else '0').replace('@vcs_tag@', 'sim').replace('@meson_compat@', '1.1')
def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    if not os.path.exists(path) or rd(path) != data:
        with open(path, 'wb') as f:
            f.write(data)
put(gen + '/version.c', v)
run(['gcc', '-w', '-I' + REPO + '/include', '-DMUON_PLATFORM_posix', '-DMUON_BOOTSTRAPPED', '-o', gen + '/embedder', REPO + '/tools/embedder.c'])
smb = rd(REPO + '/src/script/meson.build').decode()
scripts = re.findall(r"'([^']+\.meson)'", smb)
args = []
for s in scripts:
    args += [os.path.join(REPO, 'src/script', s), s]
emb = run([gen + '/embedder'] + args, cwd=REPO)
put(gen + '/embedded_files.h', emb)

hdrs = b''
for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'include'))):
    for f in sorted(files):
        hdrs += f.encode() + rd(os.path.join(root, f))
for f in sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)) + sorted(glob.glob(REPO + '/subprojects/tinyjson/*.h')):
    hdrs += f.encode() + rd(f)
hh = sha(hdrs, rd(gen + '/embedded_files.h'))

CF = ['-std=c99', A.opt, '-g1', '-w', '-fno-pic', '-fno-pie', '-fno-common', '-fno-stack-protector', '-U_FORTIFY_SOURCE',
      '-fno-builtin-printf', '-fno-builtin-fprintf', '-fno-omit-frame-pointer', '-fcf-protection=none',
      '-DMUON_PLATFORM_posix', '-DMUON_BOOTSTRAPPED', '-D_FILE_OFFSET_BITS=64',
      '-I' + gen, '-I' + REPO + '/include', '-I' + REPO + '/subprojects/tinyjson', '-I' + HERE + '/stubs']
jobs = []  # (cmd, out)
objs = []
def cc(src, tag, cmd, key):
    o = os.path.join(CACHE, tag + '-' + key + '.o')
    if not os.path.exists(o):
        jobs.append((cmd + ['-c', src, '-o', o + '.tmp'], o))
    return o
for s in srcs:
    p = os.path.join(REPO, s)
    objs.append(cc(p, s.replace('/', '_'), ['gcc'] + CF, sha(rd(p), hh, ' '.join(CF), p)))
tj = REPO + '/subprojects/tinyjson/tiny-json.c'
objs.append(cc(tj, 'tinyjson', ['gcc'] + CF, sha(rd(tj), hh, ' '.join(CF))))
objs.append(cc(gen + '/version.c', 'version', ['gcc'] + CF, sha(rd(gen + '/version.c'), hh, ' '.join(CF))))

# ---- simos
simhdr = b''.join(rd(f) for f in sorted(glob.glob(HERE + '/*.h')))
XF = ['-std=c++17', '-O1', '-g1', '-Wall', '-fno-pie', '-fcf-protection=none', '-U_FORTIFY_SOURCE', '-I' + HERE + '/stubs']
sobjs = []
for f in sorted(glob.glob(HERE + '/*.cc')):
    sobjs.append(cc(f, 'sim_' + os.path.basename(f), ['g++'] + XF, sha(rd(f), simhdr, ' '.join(XF))))

def one(j):
    cmd, o = j
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    if p.returncode:
        return '%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[:4000])
    os.rename(o + '.tmp', o)
    return None
with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
    for r in ex.map(one, jobs):
        if r:
            die('compile failed: ' + r)

key = sha(*(objs + sobjs))
exe = os.path.join(OUT, 'simrun-' + key)
if not os.path.exists(exe):
    # ---- muon as one relocatable object with its libc calls redirected
    tmp = os.path.join(OUT, 'tmp-%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    allo = tmp + '/muon_all.o'
    run(['ld', '-r', '-o', allo] + objs)
    simdefs = set()
    for o in sobjs:
        for l in run(['nm', '--defined-only', '-g', o]).decode().split('\n'):
            w = l.split()
            if len(w) == 3 and w[2].startswith('sim_') and w[1] in 'TBDVRd':
                simdefs.add(w[2])
    und = [l.split()[-1] for l in run(['nm', '-u', allo]).decode().split('\n') if l.strip()]
    ALIAS = {'__posix_getopt': 'getopt', '_IO_putc': 'putc', '_IO_getc': 'getc', '__xstat': 'stat', '__isoc99_fscanf': 'fscanf'}
    PURE = set('''memchr memcmp memcpy memmove memset memrchr mempcpy strchr strcmp strerror strlen strnlen strncmp strncpy strrchr strstr
        strtok strtok_r strtol strtoll strtoul strtoull strtod strcpy strcat strncat stpcpy strspn strcspn strpbrk strcasecmp strncasecmp
        snprintf vsnprintf sprintf vsprintf __isoc99_sscanf sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull __isoc23_sscanf
        qsort bsearch __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc tolower toupper isalpha isdigit isalnum isspace isxdigit isupper islower isprint ispunct
        __errno_location atoi atol atoll abs labs memmem basename dirname strerror_r strchrnul strsep ffs
        __stack_chk_fail _GLOBAL_OFFSET_TABLE_ sigemptyset sigaddset sigfillset difftime mktime gmtime gmtime_r localtime localtime_r strftime
        setjmp _setjmp longjmp __sigsetjmp setlocale strcoll div ldiv rawmemchr strsignal'''.split())
    redef = [('main', 'muon_main')]
    unknown = []
    for u in und:
        base = ALIAS.get(u, u)
        if base.endswith('64') and 'sim_' + base[:-2] in simdefs:
            base = base[:-2]
        if 'sim_' + base in simdefs:
            redef.append((u, 'sim_' + base))
        elif u not in PURE and not u.startswith(("archive_", "curl_")):
            unknown.append(u)
    put(tmp + '/redef', ''.join('%s %s\n' % r for r in redef))
    put(OUT + '/unknown_symbols.txt', '\n'.join(unknown) + '\n')
    if unknown:
        sys.stderr.write('build.py: note: libc symbols left unsimulated: %s\n' % ' '.join(unknown))
    mo = tmp + '/muon_sim.o'
    run(['objcopy', '--redefine-syms=' + tmp + '/redef', '--keep-global-symbol=muon_main',
         '--set-section-flags', '.bss=alloc,load,contents,data', '--rename-section', '.bss=mudata,alloc,load,contents,data',
         '--rename-section', '.data=mudata,alloc,load,contents,data', allo, mo])
    run(['g++', '-no-pie', '-o', exe + '.tmp', mo] + sobjs + ['-Wl,-z,noexecstack'])
    os.rename(exe + '.tmp', exe)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
link = os.path.join(OUT, 'simrun')
try:
    os.unlink(link)
except FileNotFoundError:
    pass
os.symlink(os.path.basename(exe), link)
# drop stale cache entries
live = set(objs + sobjs)
for f in os.listdir(CACHE):
    p = os.path.join(CACHE, f)
    if p not in live and time.time() - os.path.getmtime(p) > 3600:
        os.unlink(p)
for f in glob.glob(OUT + '/simrun-*'):
    if f != exe and time.time() - os.path.getmtime(f) > 3600:
        os.unlink(f)
print(exe)
sys.stderr.write('build.py: %d compiled, %.1fs\n' % (len(jobs), time.time() - t0))
