"""Builds everything a check needs from /repo's current tree, cached by content under /verif/build."""
import hashlib, os, re, subprocess, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSX_REPO', '/repo')
B = os.path.join(V, 'build')
NCPU = min(8, os.cpu_count() or 4)
BASE = ['-std=c++20', '-msse4.2', '-DNDEBUG', '-DOPENSSL_API_COMPAT=0x10100000L', '-DFLASHMQ_VERSION="x"', '-I' + REPO]
IRF = ['-O2', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only']
NATF = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DFSX_NATIVE']
# translation units that no harness reaches unless it asks for them (process start-up, config parser built on std::regex, log writer replaced by a model)
SKIP = {'main', 'logger', 'flashmqtestclient', 'configfileparser', 'mainapp', 'listener', 'dnsresolver', 'sdnotify', 'globber', 'oneinstancelock', 'scopedsocket', 'fmqmain', 'mosquittoauthoptcompatwrap_'}
# string streams are modelled, so their members must stay calls
PCH = '#include <string>\n#include <vector>\n#include <algorithm>\n#include <memory>\n#include <istream>\n#include <ostream>\n#pragma clang attribute push(__attribute__((noinline)), apply_to = function)\n#include <sstream>\n#include <fstream>\n#pragma clang attribute pop\n#include <' + '>\n#include <'.join('memory cassert vector optional string stdexcept cstring list unordered_map mutex chrono thread sstream string.h iostream functional array stdint.h algorithm signal.h limits fstream exception errno.h time.h stdlib.h stdio.h set pthread.h map inttypes.h forward_list cstdint random shared_mutex unordered_set'.split()) + '>\n'
# the event array of the worker loop is zeroed in one step instead of element by element
PCH += '#include <sys/epoll.h>\nnamespace std { template<> inline constexpr void vector<epoll_event>::_M_default_initialize(size_type n) { if (!std::is_constant_evaluated()) __builtin_memset((void *)this->_M_impl._M_start, 0, n * sizeof(epoll_event)); this->_M_impl._M_finish = this->_M_impl._M_start + n; } }\n'

class BuildError(Exception): pass
def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode: raise BuildError(' '.join(cmd[:6]) + ' ...: ' + p.stdout[-3000:])
    return p.stdout
def rd(p):
    with open(p, 'rb') as f: return f.read()
def h(*xs):
    m = hashlib.sha256()
    for x in xs: m.update(x if isinstance(x, bytes) else str(x).encode()); m.update(b'\0')
    return m.hexdigest()[:24]
class Lock:
    def __init__(s, name): os.makedirs(B, exist_ok=True); s.p = os.path.join(B, name + '.lock')
    def __enter__(s): s.f = open(s.p, 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()
def atomic(out, fn):
    if os.path.exists(out): os.utime(out); return out
    os.makedirs(os.path.dirname(out), exist_ok=True); tmp = out + '.%d.%d.tmp' % (os.getpid(), __import__('threading').get_ident()); fn(tmp); os.rename(tmp, out); return out

def engine():
    src = sorted(os.listdir(os.path.join(V, 'engine'))); key = h(*[rd(os.path.join(V, 'engine', s)) for s in src]); d = os.path.join(B, 'engine-' + key)
    with Lock('engine'):
        if not os.path.exists(d + '/fsx'):
            for o in os.listdir(B):
                if o.startswith('engine-') and o != os.path.basename(d) and not o.endswith('.lock'): shutil.rmtree(os.path.join(B, o), ignore_errors=True)
            sh(['make', '-s', '-j%d' % NCPU, '-C', os.path.join(V, 'engine'), 'B=' + d])
    return d + '/fsx'

_hdr = None
def headers():
    global _hdr
    if _hdr is None: _hdr = h(*[f + '\0' + hashlib.sha256(rd(os.path.join(REPO, f))).hexdigest() for f in sorted(os.listdir(REPO)) if f.endswith(('.h', '.hpp'))])
    return _hdr
def repo_tus():
    t = rd(os.path.join(REPO, 'CMakeLists.shared')).decode(errors='replace'); names = set(re.findall(r'([A-Za-z0-9_]+)\.cpp', t)); return sorted(n for n in names if os.path.exists(os.path.join(REPO, n + '.cpp')))
def pch(flags, tag):
    out = os.path.join(B, 'pch', h(PCH, *flags) + '.' + tag + '.pch'); hd = out[:-4] + '.h'
    with Lock('pch'):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True); open(hd, 'w').write(PCH); atomic(out, lambda t: sh(['clang++'] + flags + ['-x', 'c++-header', hd, '-o', t, '-fpch-instantiate-templates']))
    return out
def gcdir(d, keep=3000):
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-keep]: os.unlink(f)
    except OSError: pass
def compile_tu(n, native=False):
    fl = BASE + (NATF if native else IRF); src = os.path.join(REPO, n + '.cpp'); key = h(rd(src), headers(), PCH, *fl); out = os.path.join(B, 'tu', '%s-%s.%s' % (n, key, 'o' if native else 'bc'))
    if os.path.exists(out): os.utime(out); return out
    p = pch(fl, 'n' if native else 'i'); return atomic(out, lambda t: sh(['clang++'] + fl + ['-include-pch', p, '-w', '-c'] + ([] if native else ['-emit-llvm']) + [src, '-o', t]))
def model(n, native=False):
    src = os.path.join(V, 'model' if n != 'rt' else 'native', n + '.cpp'); hd = [rd(os.path.join(V, 'model', x)) for x in ('fsx.h', 'env.h')]
    fl = BASE + ['-fno-access-control', '-I' + V + '/model'] + (NATF if native else IRF + ['-fno-builtin']); key = h(rd(src), *hd, headers() if n == 'logger' else '', *fl); out = os.path.join(B, 'tu', 'm_%s-%s.%s' % (n, key, 'o' if native else 'bc'))
    return atomic(out, lambda t: sh(['clang++'] + fl + ['-w', '-c'] + ([] if native else ['-emit-llvm']) + [src, '-o', t]))
def harness_obj(src, defs, native=False):
    fl = BASE + ['-fno-access-control', '-I' + V + '/model', '-I' + V + '/harness'] + (NATF if native else IRF) + ['-D' + d for d in defs]; p = os.path.join(V, 'harness', src); deps = [rd(os.path.join(V, 'harness', f)) for f in sorted(os.listdir(V + '/harness')) if f.endswith('.hpp')] + [rd(os.path.join(V, 'model', x)) for x in ('fsx.h', 'env.h')]
    key = h(rd(p), headers(), PCH, *deps, *fl); out = os.path.join(B, 'h', '%s-%s.%s' % (src.split('.')[0], key, 'o' if native else 'bc'))
    pf = BASE + (NATF if native else IRF); ph = pch(pf, 'n' if native else 'i')
    return atomic(out, lambda t: sh(['clang++'] + fl + ['-include-pch', ph, '-w', '-c'] + ([] if native else ['-emit-llvm']) + [p, '-o', t]))
def pmap(fn, xs):
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(fn, xs))
def tu_list(tus, extra=()):
    al = repo_tus(); r = [n for n in al if n not in SKIP] if tus is None else [n for n in tus if n in al]; return r + [n for n in extra if n in al and n not in r]
# slowest first, so the pool ends evenly
ORDER = ['configfileparser', 'threaddata', 'client', 'mqttpacket', 'subscriptionstore', 'plugin', 'mainapp', 'session', 'sessionsandsubscriptionsdb', 'retainedmessagesdb', 'bridgeconfig']
def order(names): return sorted(names, key=lambda n: ORDER.index(n) if n in ORDER else 99)
def bitcode(hs, tus, extra, entries):
    """hs: list of (src, defs). Returns {(src, defs): linked module}."""
    names = tu_list(tus, extra); work = [('t', n) for n in order(names)] + [('h', x) for x in hs] + [('m', n) for n in ('stdlib', 'logger', 'env')]
    work = [w for w in work if w[0] == 'h'] + [w for w in work if w[0] != 'h']
    pch(BASE + IRF, 'i')
    def do(w): return compile_tu(w[1]) if w[0] == 't' else harness_obj(*w[1]) if w[0] == 'h' else model(w[1])
    res = dict(zip([(w[0], str(w[1])) for w in work], pmap(do, work)))
    tf = [res[('t', n)] for n in names]; mf = [res[('m', n)] for n in ('stdlib', 'logger', 'env')]
    out = {}
    def link(x):
        ho = res[('h', str(x))]; ents = entries[x]; key = h(ho, *tf, *mf, *ents); o = os.path.join(B, 'mod', '%s-%s.bc' % (x[0].split('.')[0], key))
        def mk(t): sh(['llvm-link', ho] + mf + tf + ['-o', t + '.l']); sh(['opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(ents), t + '.l', '-o', t]); os.unlink(t + '.l')
        return x, atomic(o, mk)
    out = dict(pmap(link, hs)); gcdir(os.path.join(B, 'mod'), 400); gcdir(os.path.join(B, 'tu')); gcdir(os.path.join(B, 'h'), 800); return out
def wraps():
    return ['-Wl,--wrap=' + n for n in sorted(set(re.findall(r'\bW\((\w+)\)\(', rd(V + '/model/env.cpp').decode()))) if n != 'name']
def asan_dir(): return os.path.dirname(sh(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so']).strip())
def native(hs, tus, extra):
    """Real sources plus harness, AddressSanitizer. Returns {(src, defs): executable}."""
    names = tu_list(None, extra)  # the system linker wants the whole program
    al = repo_tus(); names = [n for n in al if n not in ('main', 'logger', 'flashmqtestclient')]
    pch(BASE + NATF, 'n'); work = [('t', n) for n in order(names)] + [('h', x) for x in hs] + [('m', n) for n in ('rt', 'env', 'logger')]
    def do(w): return compile_tu(w[1], True) if w[0] == 't' else harness_obj(*w[1], True) if w[0] == 'h' else model(w[1], True)
    res = dict(zip([(w[0], str(w[1])) for w in work], pmap(do, work))); objs = [res[(w[0], str(w[1]))] for w in work if w[0] != 'h']
    def link(x):
        ho = res[('h', str(x))]; key = h(ho, *objs); o = os.path.join(B, 'nat', '%s-%s' % (x[0].split('.')[0], key))
        return x, atomic(o, lambda t: sh(['clang++', '-fsanitize=address', '-shared-libasan', '-Wl,-rpath,' + asan_dir(), '-rdynamic', ho] + objs + wraps() + ['-o', t, '-lpthread', '-ldl', '-lssl', '-lcrypto', '-lresolv', '-lanl']))
    r = dict(pmap(link, hs)); gcdir(os.path.join(B, 'nat'), 60); return r
