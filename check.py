#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]

Builds /repo's current working tree together with the harness of the property
into a scratch directory, explores it, and writes evidence/<property>.json.
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
CC = 'gcc'

HARNESS = {}
for _f in glob.glob(os.path.join(VERIF, 'harness', 'h_*.c')):
    with open(_f) as fh:
        for _id in re.findall(r'^\s*\{\s*"(C\d+)"\s*,', fh.read(), re.M):
            HARNESS[_id] = _f
HARNESS['C41'] = HARNESS['C43'] = HARNESS['C44'] = 'py'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='backslashreplace', **kw)


def make_config(build, floats=True):
    """The configured header, from /repo's template, as CMake makes it."""
    with open(os.path.join(REPO, 'src', 'config.h.in')) as f:
        t = f.read()
    ver = ['0', '0', '0']
    with open(os.path.join(REPO, 'CMakeLists.txt')) as f:
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', f.read())
        if m:
            ver = list(m.groups())
    sub = {'EMBC_PLATFORM': 'STDLIB', 'PROJECT_PREFIX': 'EMBC', 'PROJECT_VERSION_MAJOR': ver[0],
           'PROJECT_VERSION_MINOR': ver[1], 'PROJECT_VERSION_PATCH': ver[2]}
    t = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), ''), t)
    # the float parser is part of the library's configuration space: build it in
    if floats:
        t = re.sub(r'(#define\s+EMBC_CSTR_FLOAT_ENABLE\s+)0', r'\g<1>1', t)
    d = os.path.join(build, 'gen', 'embc')
    os.makedirs(d)
    with open(os.path.join(d, 'config.h'), 'w') as f:
        f.write(t)


def build(build_dir, harness):
    make_config(build_dir)
    inc = ['-I', os.path.join(build_dir, 'gen'), '-I', os.path.join(REPO, 'include')]
    for d in sorted(glob.glob(os.path.join(REPO, 'third-party', '*', 'src'))):
        if 'cmocka' not in d:
            inc += ['-I', d]
    common = ['-std=gnu99', '-O1', '-g1', '-w', '-fno-pie', '-fno-common', '-fno-omit-frame-pointer', '-fsanitize=address',
              '-fno-strict-aliasing' if False else '-fstrict-aliasing']
    inc += ['-I', os.path.join(REPO, 'third-party', 'tinyprintf')]
    jobs = []
    objs = []
    for src in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True)) + [os.path.join(REPO, 'third-party', 'tinyprintf', 'tinyprintf.c')]:
        o = os.path.join(build_dir, re.sub(r'\W', '_', os.path.relpath(src, REPO)) + '.o')
        extra = []
        if os.path.basename(src) == 'lib.c':
            extra = ['-Dembc_fatal=embc_lib_fatal_impl']
        jobs.append([CC] + common + extra + ['-D__FILENAME__="%s"' % os.path.basename(src)] + inc + ['-c', src, '-o', o])
        objs.append(o)
    mco = os.path.join(build_dir, 'mc.o')
    ho = os.path.join(build_dir, 'harness.o')
    jobs.append([CC, '-std=gnu11', '-O2', '-g1', '-w', '-fno-pie', '-fsanitize=address', '-I', os.path.join(VERIF, 'mc'),
                 '-c', os.path.join(VERIF, 'mc', 'mc.c'), '-o', mco])
    jobs.append([CC] + common + ['-std=gnu11', '-D__FILENAME__="harness"', '-I', os.path.join(VERIF, 'mc'), '-I', os.path.join(VERIF, 'harness')]
                + inc + ['-c', harness, '-o', ho])
    with ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                print('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout))
                sys.exit(2)
    repo_o = os.path.join(build_dir, 'repo.o')
    exe = os.path.join(build_dir, 'mc')
    steps = [
        ['ld', '-r', '-o', repo_o + '.1'] + objs + [ho],
        ['objcopy', '--set-section-flags', '.bss=alloc,load,data,contents',
         '--rename-section', '.bss=mcbss,alloc,load,data,contents',
         '--rename-section', '.data=mcdata,alloc,load,data,contents', repo_o + '.1', repo_o],
        [CC, '-no-pie', '-fsanitize=address', '-o', exe, mco, repo_o,
         '-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc', '-lm'],
    ]
    for cmd in steps:
        r = sh(cmd)
        if r.returncode:
            print('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout))
            sys.exit(2)
    return exe


def build_python(build_dir, prop):
    """The Python package and programs, with the shared library it loads; returns the command that explores it."""
    make_config(build_dir, False)
    inc = ['-I', os.path.join(build_dir, 'gen'), '-I', os.path.join(REPO, 'include')]
    for d in sorted(glob.glob(os.path.join(REPO, 'third-party', '*', 'src'))):
        if 'cmocka' not in d:
            inc += ['-I', d]
    site = os.path.join(build_dir, 'site')
    shutil.copytree(os.path.join(REPO, 'py', 'embc'), os.path.join(site, 'embc'), ignore=shutil.ignore_patterns('test', '__pycache__', '*.dll', '*.so'))
    shutil.copytree(os.path.join(REPO, 'py', 'bin'), os.path.join(site, 'bin'), ignore=shutil.ignore_patterns('__pycache__'))
    objs, jobs = [], []
    own = [os.path.join(VERIF, 'py', 'count_alloc.c')]
    if prop == 'C43':   # with the log of every buffer
        inc = ['-DEMBC_LOG_LEVEL=EMBC_LOG_LEVEL_ALL'] + inc
        own.append(os.path.join(VERIF, 'py', 'log_alloc.c'))
    for src in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True)) + own:
        o = os.path.join(build_dir, re.sub(r'\W', '_', src) + '.o')
        jobs.append([CC, '-std=gnu99', '-O1', '-g', '-w', '-fPIC', '-D__FILENAME__="%s"' % os.path.basename(src)] + inc + ['-c', src, '-o', o])
        objs.append(o)
    jobs2 = [[CC, '-shared', '-g', '-o', os.path.join(site, 'embc', 'libembc.dll')] + objs + ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=free', '-lm']]
    with ThreadPoolExecutor(8) as ex:
        for cmd, r in list(zip(jobs, ex.map(sh, jobs))) + [(c, sh(c)) for c in jobs2]:
            if r.returncode:
                print('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout))
                sys.exit(2)
    return [sys.executable, os.path.join(VERIF, 'py', 'run.py'), '--site', site]


def known_findings(prop):
    """known-findings.txt: 'finding: property=<id> key=<key> <what fails>' lines."""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def run_plain(cmd):
    """Run a command, passing on what it prints as plain ASCII: what a broken library wrote may be any bytes."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def copy(src, dst):
        for line in src:
            dst.write(line.decode('ascii', 'backslashreplace'))
            dst.flush()
    t = [threading.Thread(target=copy, args=x, daemon=True) for x in ((p.stdout, sys.stdout), (p.stderr, sys.stderr))]
    for x in t:
        x.start()
    rc = p.wait()
    for x in t:
        x.join(10)
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--cap', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop = a.property
    if prop not in HARNESS:
        print('no harness for', prop)
        return 2
    t0 = time.time()
    bd = tempfile.mkdtemp(prefix='embc-mc-%s-' % prop)
    try:
        exe = build_python(bd, prop) if HARNESS[prop] == 'py' else [build(bd, HARNESS[prop])]
        if a.replay:
            return run_plain(exe + ['--replay', os.path.abspath(a.replay), '--work', bd])
        cap = a.cap if a.cap is not None else (420 if a.tier == 'quick' else 5400)
        out = os.path.join(bd, 'out.json')
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, prop + '.json')
        if os.path.exists(replay):
            os.unlink(replay)
        kf = known_findings(prop)
        cmd = exe + ['--property', prop, '--tier', a.tier, '--out', out, '--work', bd, '--replay-out', replay,
               '--workers', str(a.workers), '--cap', str(cap)]
        if kf:
            cmd += ['--known', ',' + ','.join(kf) + ',']
        if a.only:
            cmd += ['--only', a.only]
        rc = run_plain(cmd)
        if rc not in (0, 1):
            print('check error: exit', rc)
            return 2
        with open(out, encoding='utf-8', errors='backslashreplace') as f:
            res = json.load(f)
        sc = res['scenarios']
        wall = time.time() - t0
        samples = []
        for s in sc:
            for x in s.pop('samples', []):
                samples.append({'scenario': s['scenario'], 'trace': x})
        complete = all(s['complete'] for s in sc)
        ev = {
            'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'model_checking',
            'coverage': {
                'states': res['states'],
                'transitions': sum(s['transitions'] for s in sc),
                'traces_validated_against_impl': sum(s['executions'] for s in sc),
                'exhaustive': complete,
                'explanation': 'states: distinct states of the reference model reached; transitions: operations executed on the real code and '
                               'compared with the model; traces: complete executions of the real code, each one checked step by step',
                'pruned_executions': sum(s['pruned'] for s in sc),
                'states_is_lower_bound': bool(res['states_saturated']),
                'scenarios': sc,
                'known_findings_seen': res['known'],
                'samples': samples[:24],
            },
            'assumptions': ['operations, argument values, faults and orders beyond the bounds listed per scenario are not explored',
                            'gcc with AddressSanitizer on x86-64; the code under test is single-threaded'],
            'wall_s': round(wall, 2),
            'violations': 1 if rc == 1 else 0,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not a.only:
            with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        for k in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]))
        print('%s %s: %d executions, %d transitions, %d model states, %s, %.1f s' % (
            prop, a.tier, ev['coverage']['traces_validated_against_impl'], ev['coverage']['transitions'], res['states'],
            'violated' if rc else ('bounds completed' if complete else 'time cap reached'), wall))
        return rc
    finally:
        shutil.rmtree(bd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
