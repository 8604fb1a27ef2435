"""Runs a check: builds the drivers from /repo, lets them record traces of the
real code, lets TLC decide every trace against the specification, reproduces
what TLC refuses, and writes the evidence."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8


class Broken(Exception):
    """The machinery itself failed; says nothing about the property."""


def go_env(**more):
    e = dict(os.environ)
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root',
             LANG='C.UTF-8', TZ='UTC', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE='/root/.cache/go-build', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local',
             GOWORK='off', CGO_ENABLED='1', GOFLAGS='-mod=mod')
    e.update(more)
    return e


class NoParser(Exception):
    """The parser can not be made from the grammar sources."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == 'thorough'
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.start = time.time()
        self.counts = dict(events=0, ok=0, skip=0, bad=0, states=0, transitions=0, traces=0)
        self.findings = []          # confirmed: dict(reason, replay, key)
        self.samples = []
        self.distinct = set()
        self.extra = {}
        self.notes = []
        self.bins = {}
        shutil.copytree(os.path.join(VERIF, 'spec'), os.path.join(self.tmp, 'spec'))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # --- building -------------------------------------------------------
    def build(self, name, variant='', pkg=None):
        """name: v6/drv6 and the like; variant: '' | race | asan"""
        key = name + variant
        if key in self.bins:
            return self.bins[key]
        mod, cmd = name.split('/')
        if variant == 'regen':       # with the parser made anew from the grammar
            mod += '+regen'
        src = os.path.join(self.tmp, 'mod-' + mod)
        if not os.path.isdir(src):   # the go command may touch go.mod: use a copy
            self.source(mod, src)
        out = os.path.join(self.tmp, 'bin-%s-%s' % (mod, cmd + variant))
        args = ['go', 'build', '-o', out]
        env = go_env()
        if variant == 'tsan':        # the C code under ThreadSanitizer
            env.update(CGO_CFLAGS='-g -O1 -fsanitize=thread', CGO_LDFLAGS='-fsanitize=thread')
        elif variant and variant != 'regen':
            args.append('-' + variant)
        args.append(pkg or './cmd/' + cmd)
        p = subprocess.run(args, cwd=src, env=env, capture_output=True, text=True, timeout=800)
        if p.returncode:
            if variant == 'regen' and ('yy' in p.stderr or 'tsl_' in p.stderr):
                raise NoParser('building the parser made from the grammar: %s' % p.stderr[-2000:])
            raise Broken('building %s: %s' % (key, p.stderr[-3000:]))
        self.bins[key] = out
        return out

    def source(self, mod, src):
        """The harness of v4 is the one of v5 but for a few files."""
        here = os.path.join(VERIF, 'harness')
        if mod == 'v6+regen':
            shutil.copytree(os.path.join(here, 'v6'), src)
            lib = os.path.join(self.tmp, 'regen-v6')
            shutil.copytree(os.path.join(REPO, 'v6'), lib, ignore=shutil.ignore_patterns('img', 'test'))
            p = subprocess.run(['bash', os.path.join(lib, 'pkg', 'parser', 'build.sh')], env=go_env(), capture_output=True, text=True, timeout=300)
            if p.returncode:
                raise NoParser('making the parser from the grammar: %s' % (p.stderr or p.stdout)[-2000:])
            gomod = open(os.path.join(src, 'go.mod')).read()
            open(os.path.join(src, 'go.mod'), 'w').write(gomod.replace('=> /repo/v6', '=> ' + lib))
            return
        shutil.copytree(os.path.join(here, 'v5' if mod == 'v4' else mod), src)
        if mod != 'v4':
            return
        shutil.copytree(os.path.join(here, mod), src, dirs_exist_ok=True)
        for d, _, names in os.walk(src):
            for n in names:
                if n.endswith('.go'):
                    p = os.path.join(d, n)
                    text = open(p).read()
                    open(p, 'w').write(text.replace('tree-search-language/v5', 'tree-search-language/v4'))

    def tools(self, mod, pkgs):
        """Builds command line tools (name: package) into one folder."""
        d = os.path.join(self.tmp, 'tools-' + mod)
        os.makedirs(d, exist_ok=True)
        for name, pkg in pkgs.items():
            if not os.path.exists(os.path.join(d, name)):
                shutil.copy(self.build(mod + '/' + name, pkg=pkg), os.path.join(d, name))
        return d

    # --- TLC ------------------------------------------------------------
    def java(self, heap='2600m'):
        return ['java', '-XX:+UseSerialGC', '-Xss900m', '-Xms256m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC']

    def tlc(self, module, cfg=None, args=(), env=None, heap='2600m', timeout=1500, workers=1):
        meta = tempfile.mkdtemp(prefix='md', dir=self.tmp)
        cmd = self.java(heap) + ['-noGenerateSpecTE', '-nowarning', '-workers', str(workers), '-metadir', meta,
                                 '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=os.path.join(self.tmp, 'spec'), env=e, capture_output=True,
                               text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC on %s: no answer in %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        if m:
            self.counts['transitions'] += int(m.group(1))
            self.counts['states'] += int(m.group(2))
        return p

    def behaviours(self, module, cfg, args=(), workers=4, heap='4g', timeout=800, env=None):
        """The behaviours a module of the specification prints."""
        p = self.tlc(module, cfg=cfg, args=args, workers=workers, heap=heap, timeout=timeout, env=env)
        out = [json.loads(json.loads(m)[4:]) for m in re.findall(r'^("@@B .*")\s*$', p.stdout, re.M)]
        if not out or 'Error:' in p.stdout:
            raise Broken('%s makes no behaviours: %s' % (cfg, p.stdout[-2000:]))
        return out

    def simulated(self, module, cfg, n, depth, procs=CORES, env=None):
        """n random behaviours."""
        def one(k):
            return self.behaviours(module, cfg, ['-simulate', 'num=%d' % max(1, n // procs), '-depth', str(depth),
                                                 '-seed', str(self.seed * 100 + k)], workers=1, heap='1500m', env=env)
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            return [b for bs in ex.map(one, range(procs)) for b in bs]

    def judge(self, module, path, env=None):
        """Validate a trace file. Returns (ok, skip, [(index, reason)])."""
        ok = skip = 0
        bad = []
        total = sum(1 for _ in open(path, 'rb'))
        base = 0
        part = path
        while base < total:
            mod, _, cfg = module.partition('@')      # "Module@Config"
            p = self.tlc(mod, cfg=cfg or None, env=dict(env or {}, TRACE=part))
            out = p.stdout
            done = re.search(r'@@DONE (\d+) of (\d+) ok (\d+) skip (\d+) bad (\d+)', out)
            b = [(base + int(i), r) for i, r in re.findall(r'"@@BAD (\d+) \\?"?(.*?)\\?"?"\s*$', out, re.M)]
            if done and p.returncode == 0:
                ok += int(done.group(3))
                skip += int(done.group(4))
                bad += b
                break
            # an event the specification can not even read
            if 'OutOfMemory' in out + p.stderr or 'l = ' not in out:
                raise Broken('TLC on %s: %s' % (module, (out + p.stderr)[-3000:]))
            at = base + int(re.findall(r'l = (\d+)', out)[-1])
            bad += [x for x in b if x[0] < at]
            ok += at - base - 1 - len([x for x in b if x[0] < at])
            why = re.findall(r'(?:Attempted|The exception was|overflow|nonexistent).*', out)
            bad.append((at, 'the event is outside the vocabulary of the specification: ' + ' '.join(why)[:300]))
            if len(bad) > 30:
                break
            base = at
            part = path + '.rest'
            with open(path, 'rb') as f, open(part, 'wb') as g:
                for k, line in enumerate(f):
                    if k >= base:
                        g.write(line)
        return ok, skip, bad

    # --- drivers --------------------------------------------------------
    def drive(self, binary, args, out, timeout=600, env=None):
        """Runs a driver; a crash of the code under test is not an error here.
        Returns None or dict(case, how)."""
        intent = out + '.intent'
        e = go_env(GOTRACEBACK='single')
        e.update(env or {})
        with open(out + '.err', 'wb') as err:
            p = subprocess.Popen([binary, '-out', out, '-intent', intent] + args, env=e, stdout=subprocess.DEVNULL,
                                 stderr=err, start_new_session=True, cwd=self.tmp)
            try:
                rc = p.wait(timeout=timeout)
                how = 'exit status %d' % rc
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, how = -9, 'no answer within %d s' % timeout
        if rc == 0:
            return None
        with open(out + '.err', 'rb') as f:
            f.seek(max(0, os.path.getsize(out + '.err') - 20000))
            tail = f.read().decode('utf8', 'replace')
        if rc == 3 or not os.path.exists(intent) or os.path.getsize(intent) == 0:
            raise Broken('driver %s: %s %s' % (args, how, tail[-2000:]))
        raw = open(intent, 'rb').read()
        n = int(raw[:9])
        case = json.loads(raw[10:10 + n])
        at = case.pop('n')
        m = re.search(r'(SIGSEGV|SIGABRT|fatal error|double free|free\(\)|AddressSanitizer|DATA RACE|panic|malloc)[^\n]*', tail)
        return dict(case=case, n=at, how=how + (': ' + m.group(0) if m else ''), err=tail[-4000:])


def read_lines(path, want):
    want = set(want)
    out = {}
    with open(path, 'rb') as f:
        for i, line in enumerate(f, 1):
            if i in want:
                out[i] = json.loads(line)
    return out


def text(b):
    return bytes(b).decode('utf8', 'backslashreplace') if isinstance(b, list) else str(b)


def case_of(ev):
    return {k: ev[k] for k in ('op', 's', 'arg', 'zone', 'made') if k in ev}


class Traces:
    """The common kind of check: driver modes whose events one module judges."""

    def __init__(self, run, driver, module, variant='', env=None, denv=None, sure=False):
        self.run, self.driver, self.module, self.variant = run, driver, module, variant
        self.env, self.denv = env, denv
        self.sure = sure        # an event refused is a violation, also if it does not come again

    def cases(self, name, cases, chunks=None, timeout=600, extra=()):
        """Run these cases: behaviours made by TLC, for one."""
        self.go(name, len(cases), chunks, timeout, extra, cases)

    def go(self, mode, n, chunks=None, timeout=600, extra=(), cases=None):
        run = self.run
        binary = run.build(self.driver, self.variant)
        chunks = chunks or max(CORES, (n + 3999) // 4000)
        jobs = []

        def chunk(k):
            out = os.path.join(run.tmp, '%s-%s%s-%d.nd' % (os.path.basename(self.driver), mode, self.variant, k))
            if cases is not None:
                with open(out + '.cases', 'w') as f:
                    for c in cases[k::chunks]:
                        f.write(json.dumps(c) + '\n')
                args = ['-in', out + '.cases'] + list(extra)
            else:
                args = ['-mode', mode, '-seed', str(run.seed), '-chunk', str(k), '-of', str(chunks), '-n', str(n)] + list(extra)
            if run.deep:
                args.append('-deep')
            crash = run.drive(binary, args, out, timeout, self.denv)
            # keep only complete lines
            ok = skip = 0
            bad = []
            if os.path.exists(out):
                data = open(out, 'rb').read()
                if not data.endswith(b'\n'):
                    data = data[:data.rfind(b'\n') + 1]
                    open(out, 'wb').write(data)
                if data:
                    ok, skip, bad = run.judge(self.module, out, self.env)
            return k, args, out, crash, ok, skip, bad

        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(chunk, range(chunks)))
        for k, args, out, crash, ok, skip, bad in res:
            run.counts['ok'] += ok
            run.counts['skip'] += skip
            run.counts['bad'] += len(bad)
            run.counts['events'] += ok + skip + len(bad)
            run.counts['traces'] += 1
            self.measure(out)
            if crash:
                self.confirm_crash(binary, args, out, crash)
            if bad:
                self.confirm(binary, args, out, bad)
            for s in ('', '.err', '.intent', '.rest', '.cases'):
                if os.path.exists(out + s):
                    os.remove(out + s)

    def measure(self, out):
        run = self.run
        if not os.path.exists(out):
            return
        with open(out, 'rb') as f:
            for i, line in enumerate(f):
                e = json.loads(line)
                key = hashlib.blake2b(json.dumps(case_of(e)).encode(), digest_size=8).digest()
                if len(e.get('s', [])) >= 3 or e.get('arg'):
                    run.distinct.add(key)
                if len(run.samples) < 6 and i in (3, 40):
                    run.samples.append(show(e))

    def alone(self, calls):
        """The digest of the outcome of each call, in a process of its own."""
        run = self.run
        binary = run.build(self.driver, self.variant)

        def one(ic):
            i, c = ic
            d = tempfile.mkdtemp(prefix='al', dir=run.tmp)
            cf, out = os.path.join(d, 'case'), os.path.join(d, 'out')
            json.dump(dict(op='alone', s=[], arg=c), open(cf, 'w'))
            crash = run.drive(binary, ['-in', cf], out, 120, self.denv)
            if crash:
                case = dict(op='alone', s=[], arg=c)
                run.found(self, 'the process died: ' + crash['how'], case, case)
                return None
            r = json.loads(open(out).read())['digest']
            shutil.rmtree(d)
            return dict(c, alone=r)
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            return [c for c in ex.map(one, enumerate(calls)) if c]

    def pool(self):
        """The calls the driver proposes for sessions, each with its outcome alone."""
        run = self.run
        binary = run.build(self.driver, self.variant)
        out = os.path.join(run.tmp, 'pool.nd')
        crash = run.drive(binary, ['-mode', 'pool', '-seed', str(run.seed)], out, 120, self.denv)
        if crash:
            self.confirm_crash(binary, ['-mode', 'pool', '-seed', str(run.seed)], out, crash)
        return self.alone([json.loads(l)['arg'] for l in open(out) if l.endswith('\n')])

    # --- reproducing ----------------------------------------------------
    def replay(self, binary, case, timeout=120):
        """Run one case in a process of its own: None or a reason."""
        run = self.run
        d = tempfile.mkdtemp(prefix='rp', dir=run.tmp)
        cf, out = os.path.join(d, 'case'), os.path.join(d, 'out')
        json.dump(case, open(cf, 'w'))
        crash = run.drive(binary, ['-in', cf], out, timeout, self.denv)
        if crash:
            return crash['how']
        ok, skip, bad = run.judge(self.module, out, self.env)
        return bad[0][1] if bad else None

    def confirm(self, binary, args, out, bad):
        run = self.run
        # one representative per reason and shape, smallest first
        evs = read_lines(out, [i for i, _ in bad])
        seen = {}
        for i, why in sorted(bad, key=lambda x: len(json.dumps(case_of(evs[x[0]])))):
            seen.setdefault(why, []).append(i)
        again = None
        for why, idx in seen.items():
            found = False
            for i in idx[:3 if len(seen) < 10 else 1]:
                if len(run.findings) >= 12:
                    return
                case = case_of(evs[i])
                r = self.replay(binary, case)
                if r:
                    run.found(self, r, case, evs[i])
                    found = True
            if found:
                continue
            # only after what was done before it: run the whole trace again
            if again is None:
                o2 = out + '.again'
                crash = run.drive(binary, args, o2, 600, self.denv)
                b2 = [] if not os.path.exists(o2) else run.judge(self.module, o2, self.env)[2]
                again = dict(b2)
                if os.path.exists(o2):
                    os.remove(o2)
            for i in idx[:1]:
                if i in again or self.sure:
                    run.found(self, why + ' (after the calls before it)', case_of(evs[i]), evs[i], args)
                else:
                    run.notes.append('not reproduced: %s %s' % (why, show(evs[i])))
                    run.extra['unreproduced'] = run.extra.get('unreproduced', 0) + 1

    def confirm_crash(self, binary, args, out, crash):
        run = self.run
        r = self.replay(binary, crash['case'])
        if r:
            run.found(self, 'the process died: ' + crash['how'], crash['case'], crash['case'])
            return
        o2 = out + '.again'
        c2 = run.drive(binary, args, o2, 600, self.denv)
        if c2:
            run.found(self, 'the process died: ' + c2['how'] + ' (after the calls before it)', c2['case'], c2['case'], args)
        else:
            # schedule dependent: the crash itself is the evidence
            run.found(self, 'the process died (not every time): ' + crash['how'], crash['case'], crash['case'], args,
                      err=crash.get('err'))


def show(e, limit=1500):
    def conv(x):
        if isinstance(x, list) and x and all(isinstance(v, int) for v in x) and len(x) > 0:
            if all(0 <= v < 256 for v in x):
                return text(x)
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, list):
            return [conv(v) for v in x]
        return x
    s = json.dumps(conv(e), ensure_ascii=True)
    return s if len(s) <= limit else s[:limit] + ' ...'


def known():
    """known_findings.txt: lines 'KNOWN-FINDING: property=<id> key=<key> <what fails>' """
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def found(self, tr, reason, case, event, args=None, err=None):
    key = 'k' + hashlib.sha256(json.dumps([case.get('op'), case.get('s'), case.get('arg')], sort_keys=True).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (self.prop, key))
    json.dump(dict(property=self.prop, reason=reason, driver=tr.driver, variant=tr.variant, module=tr.module,
                   case=case, args=args, event=event, shown=show(event), err=err), open(path, 'w'), indent=1)
    self.findings.append(dict(reason=reason, replay=path, key=key, shown=show(event, 600)))


Run.found = found
