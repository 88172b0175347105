"""Replay into the driver scripts (polycc, inscop), in scratch directories of their own."""
import concurrent.futures as cf
import os, re, shutil, signal, subprocess, tempfile
import lib

CMDS = 'mv cp cat grep rm dirname basename sed awk cut head tail ln tee install test mktemp'.split()
WRAP = '''#!/bin/sh
# counts the driver's commands; delivers the fault at the chosen one
n=$(($(/bin/cat "$VP_STATE/n") + 1)); echo $n > "$VP_STATE/n"
hit() { : > "$VP_STATE/hit"; case "$VP_SIG" in INT) kill -INT -- -$VP_PG;; *) kill -$VP_SIG $VP_PG;; esac; }
[ "$VP_WHEN" = before ] && [ $n = "$VP_AT" ] && hit
%s
rc=$?
[ "$VP_WHEN" = after ] && [ $n = "$VP_AT" ] && hit
exit $rc
'''
# a stand-in for the optimizer: a kernel for the first region of the source file
PLUTO = '''#!/bin/sh
r=$(($(/bin/cat "$VP_STATE/r") + 1)); echo $r > "$VP_STATE/r"
die() { : > "$VP_STATE/hit"; [ "$VP_RC" = 139 ] && { ulimit -c 0; kill -SEGV $$; }; exit $VP_RC; }
[ "$VP_FAIL" = before ] && [ $r = "$VP_AT" ] && die
o=
for a in "$@"; do if [ "$o" = - ]; then o=$a; else case "$a" in -o) o=-;; -*) ;; *) src=$a;; esac; fi; done
out=${o:-$(/usr/bin/basename "$src" .c).pluto.c}
echo "$src" > .srcfilename; echo "$out" > .outfilename
k=$(/bin/sed -n '/#pragma[[:space:]][[:space:]]*scop/,$p' "$src" | /bin/sed -n 's/^s\\([0-9]*\\)();$/\\1/p' | /usr/bin/head -1)
[ -n "$k" ] || exit 3
printf '#include <omp.h>\\n\\n\\tint t%%sv;\\nt%%s();\\n' $k $k > "$out"
[ "$VP_FAIL" = after ] && [ $r = "$VP_AT" ] && die
exit 0
'''.replace('%%', '%')


def script(path, text):
    with open(path, 'w') as f:
        f.write(text)
    os.chmod(path, 0o755)


MARKS = ['#pragma %s', '  #pragma %s', '#pragma  %s', '#pragma\t%s', '#pragma %s  // here']


def marks(path):
    if not os.path.isfile(path):
        return []
    r = []
    for l in open(path, errors='replace'):
        l = l.strip()
        if re.match(r'#pragma\s+(end)?scop', l):
            r.append(l.split()[1])
        else:
            m = re.fullmatch(r'([ast]\d+)\(\);', l)
            if m:
                r.append(m.group(1))
    return r


def driver_dir(base):
    """One installation of the driver with recording commands in front."""
    os.makedirs(base + '/bin')
    os.makedirs(base + '/tool')
    os.makedirs(base + '/real')
    for c in CMDS:
        real = shutil.which(c, path='/usr/bin:/bin')
        if real:
            script(base + '/bin/' + c, WRAP % ('%s "$@"' % real))
    shutil.copy(os.path.join(lib.REPO, 'inscop'), base + '/real/inscop')
    os.chmod(base + '/real/inscop', 0o755)
    script(base + '/real/pluto', PLUTO)
    script(base + '/tool/pluto', WRAP % ('PATH=/usr/bin:/bin %s/real/pluto "$@"' % base))
    script(base + '/inscop', WRAP % ('PATH=/usr/bin:/bin %s/real/inscop "$@"' % base))
    t = open(os.path.join(lib.REPO, 'polycc.sh.in')).read()
    script(base + '/polycc', t.replace('@abs_top_builddir@', base).replace('@abs_top_srcdir@', base))


def polycc(base, case, work):
    os.makedirs(work + '/st')
    os.makedirs(work + '/w/sub')
    src = os.path.join(work, 'w', case['dir'], 'prog.c')
    n = case['n']
    # the marks: style 5 changes from region to region
    mark = lambda i, w: MARKS[case['style'] if case['style'] < 5 else i % 5] % w
    res = case['res']
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\na0();\n' + ''.join(
            '%s\ns%d();\n%s\n\na%d();\n' % (mark(i, 'scop'), i, mark(i, 'endscop'), i) for i in range(1, n + 1)))
    for x in 'nr':
        with open('%s/st/%s' % (work, x), 'w') as f:
            f.write('0\n')
    ft = case['fault']
    e = {'PATH': base + '/bin:/usr/bin:/bin', 'HOME': work, 'VP_STATE': work + '/st', 'VP_AT': str(ft['at']),
         'VP_WHEN': ft['when'] if ft['kind'] == 'signal' else '', 'VP_SIG': ft['sig'], 'VP_RC': str(ft['rc']),
         'VP_FAIL': ft['when'] if ft['kind'] == 'fail' else '', 'LC_ALL': 'C'}
    arg = 'prog.c' if case['dir'] == '.' else 'sub/prog.c'
    p = subprocess.Popen(['/bin/bash', '-c', 'export VP_PG=$$; exec /bin/bash %s/polycc %s --parallel --tile%s' % (base, arg, ' -o ' + res if res else '')],
                         cwd=work + '/w', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    status = 'ok'
    try:
        p.communicate(timeout=40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        status = 'timeout'
    hit = os.path.exists(work + '/st/hit')
    end = 'done' if not hit else 'failed' if ft['kind'] == 'fail' else 'stopped'
    return {'in': case, 'status': status, 'out': {'ret': end, 'end': end, 'rc': p.returncode, 'src': marks(src),
            'out': marks(work + '/w/' + (res or 'prog.pluto.c')), 'cmds': int(open(work + '/st/n').read())}}


TABLE = '''#include <stdio.h>
int main(void) { int a, b;
for (a = -40; a <= 40; a += 3) for (b = 1; b <= 9; b++) {
 printf("floord %d %d %d\\n", a, b, (int)floord(a, b)); printf("ceild %d %d %d\\n", a, b, (int)ceild(a, b));
 printf("max %d %d %d\\n", a, 2 * b - 9, (int)max(a, 2 * b - 9)); printf("min %d %d %d\\n", a, 2 * b - 9, (int)min(a, 2 * b - 9)); }
return 0; }
'''


def squeeze(s):
    return re.sub(r'\s+', ' ', s).strip()


def inscop(case, work, seen):
    os.makedirs(work + '/w')
    d = work + '/w/'
    open(d + 'orig.c', 'w').write(''.join(l['t'] + '\n' for l in case['orig']))
    open(d + 'kern.c', 'w').write(''.join(l.get('w', l['t']) + '\n' for l in case['kern']))
    out = 'kern.c' if case['same'] else 'out.c'
    try:
        r = subprocess.run(['/bin/bash', os.path.join(lib.REPO, 'inscop'), 'orig.c', 'kern.c', out], cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=40)
    except subprocess.TimeoutExpired:
        return {'in': case, 'status': 'timeout', 'out': {}}
    lines = open(d + out, errors='replace').read().split('\n') if os.path.exists(d + out) else []
    left = sorted(set(os.listdir(d)) - {'orig.c', 'kern.c', out})
    raw = {l['t'] for l in case['orig']}
    got = [l if l in raw else squeeze(l) for l in lines]
    defs = [{'h': m.group(1), 'p': i + 1} for i, l in enumerate(lines)
            for m in [re.match(r'\s*#\s*define\s+(ceild|floord|max|min)\(', l)] if m]
    text = '\n'.join(l for l in lines if re.match(r'\s*#\s*define\s+(ceild|floord|max|min)\(', l))
    tab = []
    if text not in seen:        # each text of the helpers is examined once
        seen.add(text)
        t = work + '/t'
        os.makedirs(t)
        open(t + '/t.c', 'w').write(text + '\n' + TABLE)
        if subprocess.run(['gcc', '-w', '-o', t + '/t', t + '/t.c'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            for l in subprocess.run([t + '/t'], stdout=subprocess.PIPE, text=True, timeout=10).stdout.splitlines():
                f, a, b, v = l.split()
                tab.append({'f': f, 'a': int(a), 'b': int(b), 'v': int(v)})
    c = dict(case)
    c['kern'] = [{'k': l['k'], 't': squeeze(l['t'])} for l in case['kern']]
    same = open(d + 'orig.c').read() == ''.join(l['t'] + '\n' for l in case['orig'])
    return {'in': c, 'status': 'ok', 'err': r.stderr.decode(errors='replace')[-300:],
            'out': {'ret': 'done', 'lines': got, 'defs': defs, 'left': left + ([] if same else ['orig.c changed']), 'tab': tab}}


def replay(tmp, cases, name):
    """Records, in the order of the cases."""
    root = tempfile.mkdtemp(prefix='sc_', dir=tmp)
    drv = root + '/drv'
    seen = set()
    if any(c['kind'] == 'polycc' for c in cases):
        driver_dir(drv)

    def one(i):
        w = '%s/c%d' % (root, i)
        os.makedirs(w)
        try:
            return polycc(drv, cases[i], w) if cases[i]['kind'] == 'polycc' else inscop(cases[i], w, seen)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with cf.ThreadPoolExecutor(lib.NPROC) as ex:
        r = list(ex.map(one, range(len(cases))))
    shutil.rmtree(root, ignore_errors=True)
    return r
