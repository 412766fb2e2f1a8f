#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <property>      run one check (tier: VERIF_TIER, seed: VERIF_SEED)
  run.py replay <file>         run the failing part of an earlier check again
  run.py list                  list properties and their steps

A check builds the library from /repo's working tree together with its
harnesses, in several instrumented variants, runs them in shards and merges
what the monitors observed into evidence/<property>.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 no answer (build error, time out,
nothing observed).
"""
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get('LEXI_REPO', '/repo'))
BUILD = VERIF / 'build'
HARN = VERIF / 'harness'
EVID = VERIF / 'evidence'
SHARDS = 8
JOBS = max(1, min(16, os.cpu_count() or 1))
sys.path.insert(0, str(VERIF))
from checks import CHECKS, VARIANTS, CONFIGS, HARNESS_FLAGS   # noqa: E402


class NoAnswer(Exception):
    pass


class Interface(Exception):
    """The library compiles, a program that uses its public interface no longer does."""
    def __init__(self, step, text):
        super().__init__(text)
        self.step, self.text = step, text


# harnesses that use nothing but the documented entry points
PUBLIC = {'h_int', 'h_intx', 'h_flt', 'h_fltx', 'h_words', 'h_enum', 'h_disp', 'h_str', 'h_obj', 'h_ext', 'h_cost', 'h_intr'}


# harnesses that can do without the internal headers
FALLBACK = ('h_thr.cpp', 'h_env.cpp', 'h_oom.cpp', 'h_life.cpp', 'h_same.cpp', 'h_pure.cpp', 'h_stack.cpp')


# ---------------------------------------------------------------- building
def sources():
    return sorted(p for p in (REPO / 'src').rglob('*.cpp'))


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO / 'include', REPO / 'src'):
        for p in sorted(base.rglob('*')):
            if p.is_file():
                h.update(str(p.relative_to(REPO)).encode() + b'\0' + p.read_bytes() + b'\0')
    return h.hexdigest()[:16]


TREE = None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def config_header(cfg):
    words = CONFIGS[cfg]
    q = lambda s: '"' + ''.join(chr(b) if 32 <= b < 127 and chr(b) not in '"\\?' else '\\%03o' % b for b in s.encode()) + '"'
    names = ['TRUE', 'FALSE', 'NULL', 'NAN', 'INFINITY', 'NEGATIVE_INFINITY']
    short = ['TRUE', 'FALSE', 'NULL', 'NAN', 'INF', 'NINF']
    out = '#pragma once\n#define CFG_NAME %s\n' % q(cfg)
    for n, s, w in zip(names, short, words):
        out += '#define CFG_%s %s\n' % (s, q(w))
        if cfg != 'default':
            out += '#define LEXI_%s %s\n' % (n, q(w))
    return out


def compile_all(jobs, pool):
    """jobs: list of (cmd, out). Compiles in parallel; returns error text or None."""
    def one(job):
        cmd, out = job
        if out.exists():
            return None
        tmp = out.with_name('%s.%d.tmp' % (out.name, os.getpid()))
        r = sh(cmd + ['-o', str(tmp)])
        if r.returncode != 0 and any(x in cmd[-1] for x in FALLBACK):
            # internals that the catalogue of conversions also uses may have changed
            r = sh(cmd + ['-DPUBLIC_ONLY', '-o', str(tmp)])
        if r.returncode != 0:
            return ' '.join(cmd) + '\n' + r.stdout[-4000:]
        os.replace(tmp, out)
        return None
    errs = [e for e in pool.map(one, jobs) if e]
    return errs[0] if errs else None


def dep_hash(name):
    h = hashlib.sha256()
    for p in sorted(HARN.glob('*.hpp')) + [HARN / (name + '.cpp')]:
        h.update(p.read_bytes())
    return h.hexdigest()[:10]


def binary(harness, variant, config=None):
    v = VARIANTS[variant]
    flags = v['flags'] + (['-include', str(BUILD / 'cfg' / (config + '.h'))] if config else [])
    hx = HARNESS_FLAGS.get(harness, {})
    key = hashlib.sha256(json.dumps([v, hx, config, config and CONFIGS[config]]).encode()).hexdigest()[:8]
    lib = BUILD / ('lib-%s-%s-%s' % (variant, TREE, key if config else hashlib.sha256(json.dumps(v).encode()).hexdigest()[:8]))
    exe = BUILD / ('%s-%s-%s-%s-%s' % (harness, variant, TREE, dep_hash(harness), key))
    return lib, exe, flags, hx, v


def build(steps):
    """Builds everything the steps need. Optional harnesses that do not compile
    are dropped. Returns the list of steps that can run."""
    BUILD.mkdir(exist_ok=True)
    (BUILD / 'cfg').mkdir(exist_ok=True)
    for s in steps:
        if s.get('config'):
            f = BUILD / 'cfg' / (s['config'] + '.h')
            t = config_header(s['config'])
            if not f.exists() or f.read_text() != t:
                tmp = f.with_suffix('.%d' % os.getpid()); tmp.write_text(t); os.replace(tmp, f)
    prune()
    objs, exes, seen = [], [], set()
    for s in steps:
        lib, exe, flags, hx, v = binary(s['harness'], s['variant'], s.get('config'))
        if lib not in seen:
            seen.add(lib)
            lib.mkdir(exist_ok=True)
            for src in sources():
                o = lib / (str(src.relative_to(REPO / 'src')).replace('/', '_') + '.o')
                objs.append((v['cc'] + ['-std=c++14', '-include', 'cstdint', '-I', str(REPO / 'include')] + flags + v.get('libflags', []) + ['-w', '-c', str(src)], o))
        if exe not in seen:
            seen.add(exe)
            objs.append((v['cc'] + ['-std=c++17', '-include', 'cstdint', '-I', str(REPO / 'include'), '-I', str(HARN)] + flags + v.get('harnessflags', []) + ['-w', '-pthread', '-c', str(HARN / (s['harness'] + '.cpp'))], exe.with_suffix('.o')))
            exes.append((s, lib, exe, flags, hx, v))
    optional = {str(binary(s['harness'], s['variant'], s.get('config'))[1].with_suffix('.o')) for s in steps if s.get('optional')}
    with ThreadPoolExecutor(JOBS) as pool:
        own = {str(e[2].with_suffix('.o')) for e in exes}
        err = compile_all([j for j in objs if str(j[1]) not in own], pool)
        if err:
            raise NoAnswer('build failed:\n' + err)
        err = compile_all([j for j in objs if str(j[1]) in own - optional], pool)
        if err:
            for s, lib, exe, *_ in exes:
                if s['harness'] in PUBLIC and not s.get('nofail') and not exe.with_suffix('.o').exists():
                    raise Interface(s, err)
            raise NoAnswer('build failed:\n' + err)
        opt_err = compile_all([j for j in objs if str(j[1]) in optional], pool)
        links = []
        for s, lib, exe, flags, hx, v in exes:
            if exe.with_suffix('.o').exists():
                links.append((v['cc'] + flags + [str(exe.with_suffix('.o'))] + sorted(str(p) for p in lib.glob('*.o')) + ['-pthread'] + hx.get('link', []) + v.get('link', []), exe))
        err = compile_all(links, pool)
    dropped = []
    if err or opt_err:
        # a link error is fatal unless it concerns optional harnesses only
        for s, lib, exe, *_ in exes:
            if not exe.exists():
                if s.get('optional'):
                    dropped.append(s)
                else:
                    raise NoAnswer('build failed:\n' + (err or opt_err))
    gone = {(d['harness'], d['variant']) for d in dropped}
    return [s for s in steps if (s['harness'], s['variant']) not in gone], sorted('%s/%s' % g for g in gone)


def prune():
    # keep the build folder small: drop products of other trees
    for p in BUILD.iterdir():
        if p.name in ('cfg', 'locales') or TREE in p.name:
            continue
        try:
            if time.time() - p.stat().st_mtime < 3600:
                continue
            shutil.rmtree(p) if p.is_dir() else p.unlink()
        except OSError:
            pass


def locales():
    """Compiles a few locales with other separators, digits and case rules."""
    d = BUILD / 'locales'
    want = [('de_DE', 'ISO-8859-1'), ('de_DE', 'UTF-8'), ('ps_AF', 'UTF-8'), ('fa_IR', 'UTF-8'), ('tr_TR', 'ISO-8859-9'), ('ru_RU', 'KOI8-R')]
    d.mkdir(parents=True, exist_ok=True)
    def one(lc):
        out = d / ('%s.%s' % lc)
        if not (out / 'LC_NUMERIC').exists():
            tmp = d / ('tmp%d%s%s' % (os.getpid(), lc[0], lc[1]))
            sh(['localedef', '-i', lc[0], '-f', lc[1], '--no-archive', str(tmp)])
            if (tmp / 'LC_NUMERIC').exists():
                try:
                    os.replace(tmp, out)
                except OSError:
                    pass
            shutil.rmtree(tmp, ignore_errors=True)
        return out.name if (out / 'LC_NUMERIC').exists() else None
    with ThreadPoolExecutor(JOBS) as pool:
        return str(d), [n for n in pool.map(one, want) if n]


def harvest(steps):
    """Constants and words that the library itself contains, from its sources and
    its objects: values it may treat in a special way. They only add to the
    workload; what is right is decided by the monitors alone."""
    pick = sorted({s['variant'] for s in steps}, key=lambda v: (v != 'rel', v != 'relc', bool(VARIANTS[v].get('sanitizer')), v))[0]
    lib = next(binary(s['harness'], s['variant'], s.get('config'))[0] for s in steps if s['variant'] == pick)
    lits, wins, strs, runs = set(), set(), set(), set()
    for base in (REPO / 'include', REPO / 'src'):
        for p in sorted(base.rglob('*')):
            if not p.is_file():
                continue
            t = re.sub(r'^\s*#\s*include[^\n]*$|/\*.*?\*/|//[^\n]*', '', p.read_text(errors='replace'), flags=re.S | re.M)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                try:
                    strs.add(m.group(1).encode('utf-8').decode('unicode_escape').encode('latin-1'))
                except (UnicodeError, ValueError):
                    pass
            t = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', t)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|(?:\d[\d']*)?\.?\d[\d']*(?:[eE][-+]?\d+)?\.?)(?=[uUlLfF]*\b|[^\w])", t):
                w = m.group(1).replace("'", '')
                try:
                    v = int(w, 0) if not re.match(r'0\d', w) else int(w, 8)
                    if v < 1 << 64:
                        lits.add(v)
                        lits.add(int.from_bytes(struct.pack('<d', float(v)), 'little'))
                except ValueError:
                    try:
                        f = float(w)
                        lits.add(int.from_bytes(struct.pack('<d', f), 'little'))
                        if 1 <= f < 2 ** 64:
                            lits.add(int(f))
                    except (ValueError, OverflowError):
                        pass
    for p in sorted(lib.glob('*.o')):
        b = p.read_bytes()
        if b[:4] != b'\x7fELF':
            continue
        off, = struct.unpack_from('<Q', b, 0x28)
        size, num = struct.unpack_from('<HH', b, 0x3A)
        for i in range(num):
            _, kind, flags, _, at, n = struct.unpack_from('<IIQQQQ', b, off + i * size)
            if kind != 1 or not flags & 2 or n > 1 << 20:
                continue
            d = b[at:at + n]
            if flags & 0x20:
                strs |= {x for x in d.split(b'\0') if x}
            for k in range(len(d)):
                w = d[k:k + 8]
                if len(w) == 8 and any(w):
                    wins.add(int.from_bytes(w, 'little'))
                if len(w) >= 4 and any(w[:4]):
                    wins.add(int.from_bytes(w[:4], 'little'))
                    wins.add(int.from_bytes(w[:4], 'little', signed=True) % (1 << 64))
            runs |= set(re.findall(rb'[\x20-\x7e]{4,64}', d))
    strs = sorted((x for x in strs if 0 < len(x) <= 64), key=lambda x: (len(x), x))[:300]
    strs += sorted(runs - set(strs))[:100]
    wins = sorted(wins - lits)[:300000]
    f = BUILD / ('harvest-%s-%s' % (TREE, pick))
    text = ''.join('L %x\n' % v for v in sorted(lits)) + ''.join('W %x\n' % v for v in wins) + ''.join('S %s\n' % x.hex() for x in strs)
    tmp = f.with_name('%s.%d.tmp' % (f.name, os.getpid()))
    tmp.write_text(text)
    os.replace(tmp, f)
    return f, {'literals': len(lits), 'words_of_its_objects': len(wins), 'texts': len(strs)}


# harnesses that take the harvest
HARVESTERS = {'h_int', 'h_intx', 'h_flt', 'h_fltx', 'h_words', 'h_enum', 'h_disp', 'h_str', 'h_obj', 'h_ext', 'h_big', 'h_cls', 'h_fp', 'h_env', 'h_same', 'h_thr', 'h_oom', 'h_pure', 'h_stack', 'h_cap', 'h_raw'}


# ---------------------------------------------------------------- running
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:strict_init_order=1:detect_invalid_pointer_pairs=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_leaks=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=67',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=68:second_deadlock_stack=1:history_size=4',
    'LSAN_OPTIONS': 'exitcode=69',
}
SAN_REPORT = re.compile(r'ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|ERROR: LeakSanitizer|ERROR: ThreadSanitizer|WARNING: MemorySanitizer|\*\*\* (buffer overflow|stack smashing)|ERROR SUMMARY: [1-9]|free\(\): |malloc\(\): |double free|corrupted size|munmap_chunk|realloc\(\): |Assertion .* failed')
SAN_INFRA = re.compile(r'unexpected memory mapping|LeakSanitizer has encountered a fatal error|ReserveShadowMemoryRange failed|Shadow memory range interleaves|hard rss limit exhausted|failed to allocate|ptrace|Tracer caught signal')


def cpu_of_group(pgid):
    total = 0
    for d in os.listdir('/proc'):
        if not d.isdigit():
            continue
        try:
            t = open('/proc/%s/stat' % d).read()
            f = t[t.rindex(')') + 2:].split()
            if int(f[2]) == pgid:
                total += int(f[11]) + int(f[12])
        except (OSError, ValueError):
            pass
    return total / os.sysconf('SC_CLK_TCK')


def read_ctx(path):
    try:
        b = Path(path).read_bytes()
        prog = int.from_bytes(b[0:8], 'little')
        ln = int.from_bytes(b[8:12], 'little')
        num = int.from_bytes(b[16:24], 'little')
        op = b[24:76].split(b'\0')[0].decode('latin-1')
        data = b[76:76 + min(ln, 4000)]
        return {'progress': prog, 'operation': op, 'number': '0x%016x' % num, 'bytes_hex': data.hex()[:2000], 'length': ln}
    except OSError:
        return {}


class Result:
    def __init__(self):
        self.fails, self.stats, self.crash, self.infra, self.ctx, self.cmd, self.tail = [], None, None, None, {}, None, ''
        self.digests, self.cases = {}, []


def run_one(step, shard, seed, scale, tmp, deadline, attempt=0):
    lib, exe, flags, hx, v = binary(step['harness'], step['variant'], step.get('config'))
    r = Result()
    ctx = tmp / ('ctx-%d-%d-%d' % (step['n'], shard, attempt))
    shards = step.get('repeat') or SHARDS
    bitmap = tmp / ('bm-%s-%s-%d' % (step['harness'], step.get('mon', 'all'), shard % SHARDS))
    args = ['--seed', str(seed + (shard * 7919 if step.get('repeat') else 0)), '--shard', str(shard), '--shards', str(shards), '--scale', repr(scale), '--ctx', str(ctx)]
    # shards that run side by side must not share a bitmap file; a repeat does not keep one
    if not step.get('repeat') and step.get('distinct', True):
        args += ['--bitmap', str(bitmap)]
    if step.get('mon'):
        args += ['--mon', step['mon']]
    if step.get('nofail'):
        args += ['--nofail']
    if step.get('harvest'):
        args += ['--harvest', step['harvest']]
    if step.get('extra'):
        args += ['--extra', step['extra']]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('LC_') or k in ('LANG', 'LANGUAGE', 'LOCPATH', 'GLIBC_TUNABLES'):
            del env[k]
    env.update(SAN_ENV)
    env['LC_ALL'] = 'C'
    env.update(step.get('env', {}))
    if attempt and 'leak' in step.get('degrade', ''):
        env['ASAN_OPTIONS'] += ':detect_leaks=0'
    cmd = v.get('wrap', []) + [str(exe)] + args
    if attempt and 'aslr' in step.get('degrade', ''):
        cmd = ['setarch', '-R'] + cmd
    r.cmd = cmd
    out, err = tmp / ('out-%d-%d' % (step['n'], shard)), tmp / ('err-%d-%d' % (step['n'], shard))

    def limits():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not v.get('sanitizer'):
            resource.setrlimit(resource.RLIMIT_AS, (step.get('space', 6) << 30,) * 2)
    with open(out, 'wb') as fo, open(err, 'wb') as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, preexec_fn=limits, cwd=str(tmp))
        last, last_cpu, last_t, hang = -1, 0.0, time.time(), False
        nap = 0.02
        while True:
            try:
                p.wait(timeout=nap)
                break
            except subprocess.TimeoutExpired:
                nap = min(1.0, nap * 1.5)
            now = time.time()
            prog = read_ctx(ctx).get('progress', 0)
            if prog != last:
                last, last_t, last_cpu = prog, now, None
            elif now - last_t > 20:
                c = cpu_of_group(p.pid)
                if last_cpu is None:
                    last_cpu = c
                elif c - last_cpu > 45:
                    hang = True
            if hang or now > deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    r.ctx = read_ctx(ctx)
    text = out.read_bytes().decode('latin-1')
    errt = err.read_bytes().decode('latin-1')
    r.tail = errt[:6000]
    for line in text.splitlines():
        if line.startswith('FAIL '):
            try:
                r.fails.append(json.loads(line[5:]))
            except ValueError:
                r.fails.append({'key': 'unparsed', 'what': line[5:300]})
        elif line.startswith('DIGEST '):
            f = line.split(' ', 4)
            r.digests[(f[1], f[2])] = (f[3], f[4])
        elif line.startswith('CASE '):
            r.cases.append(tuple(line[5:].split(' ', 1)))
        elif line.startswith('STATS '):
            try:
                r.stats = json.loads(line[6:])
            except ValueError:
                pass
    rc = p.returncode
    san = SAN_REPORT.search(errt)
    infra = SAN_INFRA.search(errt)
    if hang:
        if attempt:
            r.crash = {'key': 'hang', 'what': 'one call did not return within 45 s of processor time'}
        else:
            return run_one(step, shard, seed, scale, tmp, deadline, 1)
    elif rc == -signal.SIGKILL and time.time() > deadline:
        r.infra = 'time out'
    elif infra and rc != 0:
        if attempt:
            r.infra = 'sanitizer could not run: ' + infra.group(0)
        else:
            step = dict(step, degrade='leak' if 'LeakSan' in errt or 'ptrace' in errt or 'Tracer' in errt else 'aslr')
            return run_one(step, shard, seed, scale, tmp, deadline, 1)
    elif rc == -signal.SIGKILL:
        r.infra = 'killed (memory?)'
    elif san:
        m = re.search(r'SUMMARY: (\S+: [^\n]*)|(runtime error: [^\n]*)|(\*\*\* [^\n]*)|(ERROR SUMMARY[^\n]*)', errt)
        first = next((l for l in errt.splitlines() if SAN_REPORT.search(l)), '')
        r.crash = {'key': 'sanitizer', 'what': (first + ' | ' + (m.group(0) if m else ''))[:600]}
    elif rc < 0:
        name = signal.Signals(-rc).name
        if step.get('nofail') and 'terminate called' in errt:
            r.infra = None
            r.stats = r.stats or {'evaluations': 0, 'exact_distinct': 0, 'stats': {'ended_by_uncaught_exception': 1}, 'classes': {}, 'samples': []}
        else:
            r.crash = {'key': 'crash.' + name, 'what': 'the process died of %s: %s' % (name, errt.strip()[-300:])}
    elif rc == 70:
        r.crash = {'key': 'memcheck', 'what': errt[:600]}
    elif rc not in (0, 3):
        r.infra = 'exit %d: %s' % (rc, errt.strip()[-300:])
    elif rc == 3 and not r.fails:
        r.infra = 'exit 3 without a report'
    elif rc == 0 and r.stats is None:
        r.infra = 'no statistics'
    try:
        ctx.unlink()
    except OSError:
        pass
    return r


def join(name, a, b):
    """Counters add up over processes; extremes do not."""
    return max(a, b) if name.startswith(('largest_', 'most_', 'slowest_')) else a + b


def popcount(files):
    total = None
    for f in files:
        b = f.read_bytes()
        n = int.from_bytes(b, 'little')
        total = n if total is None else total | n
    return bin(total).count('1') if total is not None else 0


def known_findings():
    out = []
    f = VERIF / 'KNOWN_FINDINGS.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r'known: property=(\S+) key=(\S+) match="([^"]*)" (.*)', line)
            if m:
                out.append(m.groups())
    return out


def check(prop):
    global TREE
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    TREE = tree_hash()
    EVID.mkdir(exist_ok=True)
    deadline = t0 + (860 if tier == 'quick' else 6 * 3600)
    steps = []
    for s in c['steps']:
        if s.get('tier', tier) != tier:
            continue
        s = dict(s, n=len(steps))
        if tier == 'thorough':
            if s.get('repeat'):
                s['repeat'] *= s.get('tmul', 8)
            else:
                s['scale'] = s.get('scale', 1) * s.get('tmul', c.get('tmul', 10))
        steps.append(s)
    if any(s.get('locales') for s in steps):
        d, names = locales()
        if not names:
            raise NoAnswer('no locale could be compiled')
        for s in steps:
            if s.get('locales'):
                s['env'] = dict(s.get('env', {}), LOCPATH=d)
                s['extra'] = ','.join(names)
    early = None
    try:
        steps, dropped = build(steps)
    except Interface as e:
        m = re.search(r'error: [^\n]*', e.text)
        early = {'step': e.step, 'shard': 0, 'fail': {'key': 'interface', 'what': 'the library compiles, but a use of its public interface does not: ' + (m.group(0) if m else '')}, 'context': {}, 'stderr': e.text, 'cmd': []}
        steps, dropped = [], []
    found = {}
    if steps:
        f, found = harvest(steps)
        for s in steps:
            if s['harness'] in HARVESTERS:
                s['harvest'] = str(f)
    t_build = time.time() - t0
    tmp = Path(tempfile.mkdtemp(prefix='run-', dir=str(BUILD)))
    violations, infra, known = [early] if early else [], [], []
    merged = {'evaluations': 0, 'stats': {}, 'classes': {}, 'samples': [], 'exact': {}, 'steps': []}
    klist = [k for k in known_findings() if k[0] == prop]
    reference = None
    try:
        for s in steps:
            ts = time.time()
            n = s.get('repeat') or SHARDS
            par = max(1, JOBS // s.get('width', 1))
            with ThreadPoolExecutor(par) as pool:
                res = list(pool.map(lambda i: run_one(s, i, seed, s.get('scale', 1), tmp, deadline), range(n)))
            ev = 0
            st = {}
            for i, r in enumerate(res):
                if r.infra:
                    infra.append('%s/%s shard %d: %s' % (s['harness'], s['variant'], i, r.infra))
                bad = list(r.fails) + ([r.crash] if r.crash else [])
                for f in bad:
                    hit = next((k for k in klist if k[1] == f['key'] and k[2] in f['what']), None)
                    if hit:
                        known.append(hit)
                    else:
                        violations.append({'step': s, 'shard': i, 'fail': f, 'context': r.ctx, 'stderr': r.tail if f is r.crash else '', 'cmd': r.cmd})
                if r.stats:
                    ev += r.stats['evaluations']
                    for k, x in r.stats['stats'].items():
                        st[k] = join(k, st.get(k, 0), x)
                    for k, x in r.stats['classes'].items():
                        merged['classes'].setdefault(k, set()).update(x)
                    for x in r.stats['samples']:
                        if x not in merged['samples']:
                            merged['samples'].append(x)
            if s.get('digest'):
                if reference is None:
                    reference = (s, res)
                else:
                    violations += compare(reference, s, res, seed, tmp, deadline, st)
            ex = sum(r.stats['exact_distinct'] for r in res if r.stats)
            key = s['harness'] + '/' + s.get('mon', 'all')
            merged['exact'][key] = max(merged['exact'].get(key, 0), ex)
            merged['evaluations'] += ev
            for k, x in st.items():
                merged['stats'][k] = join(k, merged['stats'].get(k, 0), x)
            merged['steps'].append({'harness': s['harness'], 'variant': s['variant'], 'config': s.get('config'), 'processes': n, 'observed': ev, 'wall_s': round(time.time() - ts, 2)})
            if ev == 0 and not violations and not infra:
                infra.append('%s/%s observed nothing' % (s['harness'], s['variant']))
            if violations or (infra and time.time() > deadline):
                break
        distinct = popcount_groups(tmp) + sum(merged['exact'].values())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    cov = {
        'evaluations': merged['evaluations'], 'distinct_nontrivial': distinct, 'rule': c['rule'],
        'samples': merged['samples'][:10] or ['(none)'],
        'observed': {k: v for k, v in sorted(merged['stats'].items())},
        'classes_seen': {k: (len(v) if len(v) > 60 else sorted(v)) for k, v in sorted(merged['classes'].items())},
        'harvested_from_the_library': found, 'steps': merged['steps'], 'build_s': round(t_build, 2), 'tree': TREE,
    }
    if dropped:
        cov['skipped_optional_harnesses'] = dropped
    if infra:
        cov['problems'] = infra[:10]
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': cov,
                'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    rep = None
    if violations:
        v = violations[0]
        rd = EVID / 'replay'
        rd.mkdir(exist_ok=True)
        rep = rd / (prop + '.json')
        rep.write_text(json.dumps({'property': prop, 'tier': tier, 'seed': seed, 'violation': v, 'others': [x['fail'] for x in violations[1:20]]}, indent=1, default=str) + '\n')
    (EVID / (prop + '.json')).write_text(json.dumps(evidence, indent=1) + '\n')
    if violations:
        for x in violations[:5]:
            print('  [%s/%s] %s: %s' % (x['step']['harness'], x['step']['variant'], x['fail']['key'], x['fail']['what'][:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if infra:
        for x in infra[:5]:
            print('NO ANSWER: ' + x)
        return 2
    print('%s held: %d evaluations, %d distinct, %.1f s' % (prop, merged['evaluations'], distinct, time.time() - t0))
    return 0


def compare(reference, s, res, seed, tmp, deadline, stats):
    """Outcomes of two builds, block by block; the cases of a differing block are listed."""
    out = []
    s0, res0 = reference
    for i, (a, b) in enumerate(zip(res0, res)):
        if a.stats is None or b.stats is None:
            continue
        for k in a.digests:
            stats['blocks_compared'] = stats.get('blocks_compared', 0) + 1
            if a.digests[k] == b.digests.get(k) or len(out) >= 3:
                continue
            x, y = (run_one(dict(z, extra='dump:%s:%s' % k, distinct=False), i, seed, z.get('scale', 1), tmp, deadline) for z in (s0, s))
            d = next((p + q for p, q in zip(x.cases, y.cases) if p != q), None)
            what = '%s: builds %s and %s differ' % (a.digests[k][1], s0['variant'], s['variant'])
            if d:
                what += ', argument %s gives %s and %s' % (d[0], d[1][:200], d[3][:200])
            out.append({'step': s, 'shard': i, 'fail': {'key': 'builds.differ', 'what': what}, 'context': {}, 'stderr': '', 'cmd': b.cmd, 'reference': s0})
    return out


def popcount_groups(tmp):
    groups = {}
    for f in tmp.glob('bm-*'):
        groups.setdefault(f.name.rsplit('-', 1)[0], []).append(f)
    return sum(popcount(fs) for fs in groups.values())


def replay(path):
    global TREE
    d = json.loads(Path(path).read_text())
    v = d['violation']
    TREE = tree_hash()
    s = v['step']
    if s.get('locales'):
        locales()
    ref = v.get('reference')
    try:
        build([s] + ([ref] if ref else []))
    except Interface as e:
        print(e.text)
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    tmp = Path(tempfile.mkdtemp(prefix='replay-', dir=str(BUILD)))
    try:
        r = run_one(s, v['shard'], d['seed'], s.get('scale', 1), tmp, time.time() + 3600)
        if ref:
            a = run_one(ref, v['shard'], d['seed'], s.get('scale', 1), tmp, time.time() + 3600)
            r.fails += [x['fail'] for x in compare((ref, [a] * (v['shard'] + 1)), s, [Result()] * v['shard'] + [r], d['seed'], tmp, time.time() + 3600, {})]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for f in r.fails + ([r.crash] if r.crash else []):
        print('%s: %s' % (f['key'], f['what']))
    if r.tail:
        print(r.tail)
    if r.fails or r.crash:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced' + (': ' + r.infra if r.infra else ''))
    return 2 if r.infra else 0


def main():
    a = sys.argv[1:]
    try:
        if len(a) == 2 and a[0] == 'check' and a[1] in CHECKS:
            return check(a[1])
        if len(a) == 2 and a[0] == 'replay':
            return replay(a[1])
        if a == ['list']:
            for p in CHECKS:
                print(p, [(s['harness'], s['variant']) for s in CHECKS[p]['steps']])
            return 0
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        return 2
    except (OSError, MemoryError, subprocess.SubprocessError) as e:
        # the machine's trouble, not the library's
        traceback.print_exc()
        print('NO ANSWER: %s' % e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
