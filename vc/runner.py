"""Contract checker: builds units from /repo's current source, has CBMC
discharge their obligations, replays counterexamples on the real code."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
sys.path.insert(0, VERIF)
from vc import annot

BASE_FLAGS = ['--drop-unused-functions', '--no-malloc-may-fail', '--slice-formula',
              '--no-signed-overflow-check', '--no-undefined-shift-check',
              '--no-pointer-primitive-check', '--unwinding-assertions']


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=14):
    t0 = time.time()
    pre = 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024) if mem_gb else 'exec "$@"'
    p = subprocess.Popen(['bash', '-c', pre, 'x'] + cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        rc = 'timeout'
    return rc, out.decode('utf-8', 'replace'), time.time() - t0


class Env:
    """Generated headers and include path for the current tree."""

    def __init__(self, work):
        self.work = work
        self.gen = os.path.join(work, 'gen')
        os.makedirs(self.gen, exist_ok=True)
        rc, out, _ = sh(['pkg-config', '--cflags', 'libgsf-1', 'gio-2.0'], 30)
        self.pkg = out.split()
        with open(os.path.join(self.gen, 'config.h'), 'w') as f:
            f.write('#pragma once\n#define DATADIR "/usr/share"\n#define GETTEXT_PACKAGE "msitools"\n'
                    '#define LOCALEDIR "/usr/share/locale"\n#define PACKAGE_NAME "msitools"\n'
                    '#define PACKAGE_STRING "msitools"\n#define PACKAGE_VERSION "0"\n')
        rc, out, _ = sh(['glib-mkenums', '--template', REPO + '/include/libmsi-enums.h.etemplate',
                         REPO + '/include/libmsi-types.h'], 60)
        with open(os.path.join(self.gen, 'libmsi-enums.h'), 'w') as f:
            f.write(out)
        sh(['bison', REPO + '/libmsi/sql-parser.y', '-y', '-Wno-yacc', '--defines', '-o',
            os.path.join(self.gen, 'sql-parser.c')], 60)

    def inc(self, extra=()):
        return (list('-I' + e for e in extra) +
                ['-I' + self.gen, '-I' + REPO + '/libmsi', '-I' + REPO, '-I' + VERIF + '/harness',
                 '-I' + VERIF, '-I' + REPO + '/include', '-I' + REPO + '/tools'] + self.pkg +
                ['-DG_DISABLE_CAST_CHECKS', '-D_FILE_OFFSET_BITS=64'])


class Unit:
    def __init__(self, name, file, kind, defs=(), unwind=None, unwindset=None, flags=(), annot=None,
                 dfcc=None, timeout=240, funcs=(), bound='', native=True, fallback=(), solver=None,
                 tier='quick', random=20, ubsan=False, native_defs=(), assumes=(), reach=True,
                 object_bits=None, extract=None, drop=(), swap=()):
        self.__dict__.update(locals())
        del self.__dict__['self']

    # ---- build -----------------------------------------------------------
    def build(self, env):
        d = os.path.join(env.work, self.name)
        os.makedirs(d, exist_ok=True)
        self.dir = d
        extra = []
        if self.annot:
            extra = [d + '/annot']
            for src, spec in self.annot.items():
                dst = os.path.join(d, 'annot', src)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(os.path.join(REPO, src), encoding='utf-8', errors='surrogateescape') as f:
                    text = f.read()
                with open(dst, 'w', encoding='utf-8', errors='surrogateescape') as f:
                    f.write(annot.inject(text, spec))
        if self.extract:
            extra.append(d)
            self.extract(env, d)
        self.cc = ['goto-cc'] + env.inc(extra) + ['-D' + x for x in self.defs]
        gb = os.path.join(d, 'a.gb')
        cmd = self.cc + ['-o', gb, os.path.join(VERIF, 'harness', self.file)]
        rc, out, _ = sh(cmd, 120)
        if rc != 0:
            return False, errs(out)
        if self.drop:
            rc, out, _ = sh(['goto-instrument'] + [x for f in self.drop for x in ('--remove-function-body', f)] +
                            [gb, d + '/d.gb'], 120)
            if rc != 0:
                return False, errs(out)
            gb = d + '/d.gb'
        if self.swap:
            cmd = ['goto-instrument'] + [x for s in self.swap for x in ('--replace-calls', s)] + [gb, d + '/s.gb']
            rc, out, _ = sh(cmd, 120)
            if rc != 0:
                return False, errs(out)
            gb = d + '/s.gb'
        if self.dfcc is not None:
            gc = os.path.join(d, 'b.gb')
            cmd = ['goto-instrument', '--dfcc', 'main'] + list(self.dfcc) + [gb, gc]
            rc, out, _ = sh(cmd, 120)
            if rc != 0:
                return False, errs(out)
            gb = gc
        self.gb = gb
        return True, ''

    def cbmc(self, extra=(), json_ui=True):
        f = list(BASE_FLAGS)
        if self.unwind:
            f += ['--unwind', str(self.unwind)]
        if self.unwindset:
            f += ['--unwindset', self.unwindset]
        if self.object_bits:
            f += ['--object-bits', str(self.object_bits)]
        f += list(self.solver or [])
        f += list(self.flags)
        return ['cbmc'] + f + list(extra) + (['--json-ui'] if json_ui else []) + [self.gb]

    # ---- decide ----------------------------------------------------------
    def run(self, env):
        """-> dict(status = ok | fail | undecided, ...)"""
        r = dict(unit=self.name, kind=self.kind, functions=list(self.funcs), bound=self.bound,
                 obligations=0, discharged=0, solver_s=0.0, failed=[], status='undecided', why='',
                 solver=' '.join(self.solver or ['sat:minisat2']))
        try:
            ok, log = self.build(env)
        except (annot.AnnotError, OSError) as e:
            r['why'] = 'extraction: %s' % e
            return r
        if not ok:
            r['why'] = 'build: ' + log[-3000:]
            return r
        rc, out, dt = sh(self.cbmc(), self.timeout)
        r['solver_s'] = round(dt, 2)
        r['cmd'] = ' '.join(self.cbmc(json_ui=False))
        if rc == 'timeout':
            r['why'] = 'timeout after %d s' % self.timeout
            return r
        props, msgs = parse(out)
        if props is None:
            r['why'] = 'cbmc: rc=%s %s' % (rc, msgs[-1500:])
            return r
        props = [p for p in props if not (p['description'].startswith('no body for callee ') and p['description'].split()[-1] in self.drop)]
        reach = [p for p in props if p['description'].startswith('REACH')]
        obl = [p for p in props if not p['description'].startswith('REACH')]
        r['obligations'] = len(obl)
        r['discharged'] = sum(p['status'] == 'SUCCESS' for p in obl)
        r['reach'] = len(reach)
        bad = [p for p in obl if p['status'] != 'SUCCESS']
        posts = [p for p in obl if p['description'].startswith('POST')]
        r['posts'] = len(posts)
        dead = [p for p in reach if p['status'] == 'SUCCESS']
        capped = [p for p in bad if 'unwinding assertion' in p['description']
                  or p['description'].startswith('BOUND')]
        real = [p for p in bad if p not in capped]
        r['failed'] = real
        if any(p['status'] not in ('SUCCESS', 'FAILURE') for p in real):
            real = [p for p in real if p['status'] == 'FAILURE']
            r['failed'] = real
        if real:
            r['status'] = 'fail'
        elif capped:
            r['why'] = 'bound too small for this code: ' + capped[0]['description']
        elif bad:
            r['why'] = 'not decided: ' + bad[0]['description']
        elif not obl or not posts and not self.flags_safety_only():
            r['why'] = 'no obligations generated'
        elif dead and self.reach:
            r['why'] = 'vacuous: cannot reach ' + dead[0]['description']
            r['vacuous'] = True
        else:
            r['status'] = 'ok'
        return r

    def flags_safety_only(self):
        return 'SAFETY_ONLY' in self.defs

    # ---- replay ----------------------------------------------------------
    def native_build(self, env):
        exe = os.path.join(self.dir, 'native')
        if os.path.exists(exe):
            return exe, ''
        san = 'address,bounds,null,integer-divide-by-zero' + (',undefined' if self.ubsan else '')
        extra = [self.dir] if self.extract else []
        cmd = (['gcc', '-g', '-O1', '-w', '-fsanitize=' + san, '-fno-sanitize-recover=all',
                '-fno-builtin', '-ffunction-sections', '-fdata-sections', '-DVH_NATIVE'] + env.inc(extra) +
               ['-D' + x for x in self.defs] + ['-D' + x for x in self.native_defs] +
               ['-o', exe, os.path.join(VERIF, 'harness', self.file),
                os.path.join(VERIF, 'models', 'native_main.c'),
                '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm'])
        rc, out, _ = sh(cmd, 180, mem_gb=0)
        if rc != 0:     # hidden symbols of code the unit does not run
            syms = set(re.findall(r"undefined reference to `(\w+)'", out)) | set(re.findall(r"hidden symbol `(\w+)'", out))
            if syms:
                rc, out, _ = sh(cmd + ['-Wl,--defsym=%s=vh_unmodelled' % x for x in sorted(syms)], 180, mem_gb=0)
        return (exe, '') if rc == 0 else (None, out)

    def native_run(self, exe, args, timeout, out=None):
        res = None
        for fill in ('190', '0'):
            e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=%s'
                     ':allocator_may_return_null=1' % fill)
            if out:
                e['VH_OUT'] = out
            rc, txt, _ = sh([exe] + args, timeout, env=e, mem_gb=0)
            bad = rc == 42 or 'AddressSanitizer' in txt or 'runtime error' in txt or \
                (isinstance(rc, int) and rc < 0) or (isinstance(rc, int) and rc > 128)
            res = (bad, rc, txt)
            if bad:
                return res
        return res

    def search(self, env, r, outdir):
        """The obligations could not be decided: run the contract on concrete inputs of the real code."""
        if not getattr(self, 'dir', None):
            return
        exe, log = self.native_build(env)
        if not exe:
            return
        vf = os.path.join(outdir, self.name + '.vals')
        bad, rc, txt = self.native_run(exe, ['--random', os.environ.get('VERIF_SEED', '1'), '8'], 60, vf)
        if not bad:
            return
        r['found'] = os.path.join(outdir, self.name + '.txt')
        r['status'] = 'fail'
        with open(r['found'], 'w') as f:
            f.write('unit %s (%s) of %s\nundecided by the checker: %s\nfails on the concrete inputs in %s: exit %s\n%s\n'
                    % (self.name, self.file, ', '.join(self.funcs), r['why'], vf, rc, txt[:4000]))

    def replay(self, env, r, outdir, budget=200):
        """-> (confirmed, path)"""
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, self.name + '.txt')
        t0 = time.time()
        lines = ['unit %s (%s) of %s' % (self.name, self.file, ', '.join(self.funcs)), 'failed obligations:']
        for p in r['failed'][:40]:
            lines.append('  %s: %s (%s)' % (p['property'], p['description'], p.get('where', '')))
        lines.append('checker: ' + r.get('cmd', ''))
        exe = None
        confirmed = False
        if self.native:
            exe, log = self.native_build(env)
            if not exe:
                lines.append('native build failed:\n' + log[-3000:])
        if exe:
            order = sorted(r['failed'], key=lambda p: 0 if p['description'].startswith('POST') else 1)
            for p in order[:8]:
                if time.time() - t0 > budget:
                    break
                rc, out, _ = sh(self.cbmc(['--trace', '--property', p['property']]),
                                min(self.timeout, max(20, budget - (time.time() - t0))))
                vals = inputs(out)
                if vals is None:
                    continue
                vf = os.path.join(outdir, self.name + '.vals')
                with open(vf, 'w') as f:
                    f.write('\n'.join(vals) + '\n')
                bad, rc, txt = self.native_run(exe, [vf], 60)
                lines.append('counterexample for %s, inputs in %s: native run exit %s\n%s'
                             % (p['property'], vf, rc, txt[:3000]))
                if bad:
                    confirmed = True
                    break
            if not confirmed and self.random:
                vf = os.path.join(outdir, self.name + '.vals')
                bad, rc, txt = self.native_run(exe, ['--random', os.environ.get('VERIF_SEED', '1'),
                                                     str(self.random)], self.random + 60, vf)
                lines.append('random search: exit %s\n%s' % (rc, txt[:3000]))
                if bad:
                    confirmed = True
                    lines.append('failing input in ' + vf)
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return confirmed, path


def blank(u, why):
    return dict(unit=u.name, kind=u.kind, functions=list(u.funcs), bound=u.bound, obligations=0, discharged=0,
                solver_s=0.0, failed=[], status='undecided', why=why, solver='')


def errs(out):
    l = [x for x in out.splitlines() if 'error' in x.lower() or 'conversion' in x.lower() or 'undeclared' in x]
    return '; '.join(l[:5])[:600] or out[-400:]


def parse(out):
    try:
        i = out.index('[')
        d = json.loads(out[i:])
    except ValueError:
        return None, out[-1500:]
    props = None
    msgs = ''
    for m in d:
        if 'result' in m:
            props = []
            for x in m['result']:
                l = x.get('sourceLocation', {})
                props.append(dict(property=x['property'], description=x['description'], status=x['status'],
                                  where='%s:%s' % (l.get('file', ''), l.get('line', ''))))
        elif m.get('messageType') in ('ERROR', 'WARNING'):
            msgs += m['messageText'] + '\n'
    return props, msgs


def inputs(out):
    try:
        d = json.loads(out[out.index('['):])
    except ValueError:
        return None
    for m in d:
        for x in m.get('result', []):
            if x['status'] == 'FAILURE' and 'trace' in x:
                v = []
                for s in x['trace']:
                    if s['stepType'] == 'input' and s.get('inputID') == 'nd':
                        b = s['values'][0].get('binary')
                        v.append(str(int(b, 2)) if b else '0')
                return v
    return None
