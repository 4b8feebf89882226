#!/usr/bin/env python3
"""check.py PROPERTY — discharges every obligation of one property from /repo's
current sources.  Configuration: checks.json-like table in props.py."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = V + '/build'
sys.path.insert(0, V)
import props

DEFS = ['-DNDEBUG', '-DCMMC_ENABLE_DETERMINISTIC', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-fno-access-control']
CPUS = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def includes(work):
    gen = REPO + '/_build/generated'
    inc = ['-I' + work + '/gen'] if os.path.isdir(work + '/gen') else []
    inc += ['-I' + REPO, '-I' + V + '/harness', '-I' + V + '/models', '-I' + REPO + '/cmmc/Support/mimalloc/include']
    if os.path.isdir(gen):
        inc.append('-I' + gen)
    return inc


def build_engine():
    r = sh(['bash', V + '/engine/build.sh'])
    if r.returncode or not os.path.exists(B + '/dvc'):
        die('engine build failed\n' + r.stderr[-2000:])


def compile_bc(src, out, work, extra):
    r = sh(['clang++-18', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-vectorize',
            '-fno-slp-vectorize'] + DEFS + includes(work) + extra + [src, '-o', out])
    return src, r.returncode, r.stderr


def compile_native(src, out, work, extra):
    r = sh(['clang++-18', '-std=c++17', '-O1', '-g0', '-fPIC', '-DVF_NATIVE', '-c'] + DEFS + includes(work) + extra + [src, '-o', out])
    return src, r.returncode, r.stderr


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.cfg = props.PROPS[pid]
        self.work = f'{B}/run/{pid}'
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = f'{B}/replay/{pid}'
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.native_prog = None
        self.early, self.tried, self.stopped = None, set(), []

    def units(self, group):
        us = [(V + '/harness/' + s, 'h') for s in group['harness']]
        us += [(REPO + '/' + s, 'r') for s in group.get('repo', [])]
        us += [(V + '/models/' + s, 'm') for s in group.get('models', [])]
        return us

    def key(self, src, extra):
        return re.sub(r'\W', '_', src.lstrip('/')) + '_' + hashlib.md5(' '.join(extra).encode()).hexdigest()[:6]

    def build(self, groups):
        todo = {}
        # tables and rewriting rules generated from the target descriptions
        for t in sorted({t for g in groups for t in g.get('generate', [])}):
            os.makedirs(self.work + '/gen', exist_ok=True)
            r = sh([sys.executable, REPO + '/cmmc/Target/Template/generate.py', f'{REPO}/cmmc/Target/{t}/{t}.yml', f'{self.work}/gen/{t}'])
            if r.returncode:
                die(f'cannot generate the code of {t}\n{r.stderr[-2000:]}')
        for g in groups:
            for src, _ in self.units(g):
                ex = g.get('flags', [])
                todo[self.key(src, ex)] = (src, ex)
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for src, rc, err in ex.map(lambda kv: compile_bc(kv[1][0], f'{self.work}/{kv[0]}.bc', self.work, kv[1][1]), todo.items()):
                if rc:
                    die(f'cannot compile {src}\n{err[-3000:]}')

    def native(self, g):
        """the harness linked with the real code, for replays"""
        if 'prog' in g:
            return g['prog']
        todo = {}
        for src, kind in self.units(g):
            if kind != 'm' or src.endswith('/support.cpp'):
                todo[self.key(src, g.get('flags', []))] = src
        todo['vf_native'] = V + '/harness/native/vf_native.cpp'
        for s in g.get('native_repo', []):
            todo[self.key(REPO + '/' + s, [])] = REPO + '/' + s
        objs = []
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for (src, rc, err), k in zip(ex.map(lambda kv: compile_native(kv[1], f'{self.work}/{kv[0]}.o', self.work, g.get('flags', [])), todo.items()), todo):
                if rc:
                    print('note: native build failed for', src, err[-500:])
                    g['prog'] = None
                    return None
                objs.append(f'{self.work}/{k}.o')
        # vtables and type descriptions of classes that are not linked, and functions outside the
        # checked code: registration at start-up does nothing, anything else ends the replay
        undef = set(re.findall(r' U (_ZT?[VINK]*4cmmc\w+)', sh(['nm', *objs]).stdout)) - set(re.findall(r' [A-TV-Zvw] (_Z\w+)', sh(['nm', *objs]).stdout))
        stub = f'{self.work}/stub{id(g)}'
        text = '.data\n' + ''.join(f'.weak {u}\n{u}:\n.zero 512\n' for u in sorted(undef) if u.startswith('_ZT'))
        rest = sorted(u for u in undef if not u.startswith('_ZT'))
        shown = subprocess.run(['c++filt'], input='\n'.join(rest), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for u, n in zip(rest, shown):
            if '(' not in n:
                text += f'.data\n.weak {u}\n{u}:\n.zero 512\n'
            else:
                quiet = re.search(r'Registry|TransformPass<|OptionBase|Flag::|::~', n)
                text += f'.text\n.weak {u}\n{u}:\n' + ('xorl %eax,%eax\nret\n' if quiet else 'movl $97,%edi\ncall _exit\n')
        open(stub + '.s', 'w').write(text + '.section .note.GNU-stack,"",@progbits\n')
        sh(['clang++-18', '-c', stub + '.s', '-o', stub + '.o'])
        if os.path.exists(stub + '.o'):
            objs.append(stub + '.o')
        prog = f'{self.work}/native_{id(g)}'
        r = sh(['clang++-18', '-rdynamic', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--gc-sections', '-Wl,-z,muldefs', '-Wl,-z,lazy', *objs, '-o', prog, '-lpthread', '-ldl'])
        if r.returncode:
            print('note: native link failed', r.stderr[-500:])
            prog = None
        g['prog'] = prog
        return prog

    def run_group(self, gi, g, deadline):
        out = f'{self.work}/out{gi}'
        os.makedirs(out, exist_ok=True)
        jobs = []
        for j in g['jobs']:
            jobs.append(j)
        jf = f'{self.work}/jobs{gi}'
        open(jf, 'w').write('\n'.join(jobs) + '\n')
        bcs = [f'{self.work}/{self.key(s, g.get("flags", []))}.bc' for s, _ in self.units(g)]
        wall = g.get('wall', 300)
        cmd = [B + '/dvc', *bcs, '--jobs-file', jf, '--out', out, '-j', str(CPUS), '--wall', str(wall), '--portfolio-s', str(g.get('portfolio_s', 20))] + g.get('opts', [])
        self.cmds.append(' '.join(os.path.basename(c) if c.startswith('/') else c for c in cmd))
        late = False
        proc = subprocess.Popen(cmd, stdout=open(f'{self.work}/log{gi}', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
        hints = {}
        tried, first, searched = 0, None, set()
        while True:
            try:
                proc.wait(3)
                break
            except subprocess.TimeoutExpired:
                pass
            stop = time.time() > deadline
            # a failed obligation whose input fails in the compiled code too: no need to go on
            for f in sorted(os.listdir(out)):
                if stop or tried >= 24 or not f.endswith('.replay') or f in self.tried:
                    continue
                lines = open(f'{out}/{f}').read().split('\n')
                head = dict(re.findall(r'^# (job|obligation) (.*)$', '\n'.join(lines), re.M))
                if 'job' not in head or '# pc' not in '\n'.join(lines) and len(lines) < 6:
                    continue
                self.tried.add(f)
                tried += 1
                first = first or time.time()
                hints.setdefault(head['job'], []).append(f'{out}/{f}')
                r = self.replay(g, head['job'], f'{out}/{f}')
                if r is not None and r.returncode == 3:
                    self.early = (g, head['job'], f'{out}/{f}', head.get('obligation', '?'))
                    stop = True
            for job in list(hints):
                if not stop and job not in searched and len(searched) < 4 and time.time() > first + 12:
                    searched.add(job)
                    hit = self.search(g, job, 8, hints[job])
                    if hit:
                        self.early = (g, job, hit, re.search(r'# obligation (.*)', open(hit).read()).group(1))
                        stop = True
            if first and time.time() > first + 150:
                stop = True
            if stop:
                late = True
                try:
                    os.killpg(proc.pid, 9)
                except ProcessLookupError:
                    pass
                proc.wait()
                break
        if not late and proc.returncode == 2:
            return None, 'verifier set-up: ' + open(f'{self.work}/log{gi}').read()[-1500:]
        res = []
        for f in sorted(os.listdir(out)):
            if f.endswith('.json'):
                try:
                    res.append(json.load(open(out + '/' + f)))
                except Exception as e:
                    res.append({'job': f, 'crashed': True})
        done = {d['job'] for d in res}
        for j, files in hints.items():
            if j not in done:
                fs = []
                for f in files:
                    h = dict(re.findall(r'^# (obligation|at) (.*)$', open(f).read(), re.M))
                    fs.append({'name': h.get('obligation', '?'), 'msg': 'postcondition does not hold', 'where': h.get('at', ''), 'replay': f})
                self.stopped += [(g, j, f) for f in fs]
        for j in jobs:
            if j not in done:
                res.append({'job': j, 'crashed': True, 'late': late})
        return (res if late else self.again(gi, g, res, cmd, deadline)), None

    def again(self, gi, g, res, cmd, deadline):
        """jobs left undecided (a slow or busy machine): look for a failing input, then once more with more time"""
        und = [d['job'] for d in res if d.get('crashed') or d['incomplete'] or d['errors']]
        if not und or len(und) > 12 or any(d.get('failures') for d in res):
            return res
        for j in und[:4]:
            hit = self.search(g, j, 8)
            if hit:
                self.early = (g, j, hit, re.search(r'# obligation (.*)', open(hit).read()).group(1))
                return res
        left = int(deadline - time.time()) - 40
        if left < 60:
            return res
        out = f'{self.work}/again{gi}'
        os.makedirs(out, exist_ok=True)
        jf = f'{self.work}/jobs_again{gi}'
        open(jf, 'w').write('\n'.join(und) + '\n')
        c = list(cmd)
        c[c.index('--jobs-file') + 1] = jf
        c[c.index('--out') + 1] = out
        c[c.index('--wall') + 1] = str(left - 10)
        c[c.index('--portfolio-s') + 1] = str(min(200, left // 2))
        proc = subprocess.Popen(c, stdout=open(f'{self.work}/log_again{gi}', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
        try:
            proc.wait(left)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, 9)
            proc.wait()
        better = {}
        for f in os.listdir(out):
            if f.endswith('.json'):
                try:
                    d = json.load(open(out + '/' + f))
                    better[d['job']] = d
                except Exception:
                    pass
        return [better.get(d['job'], d) for d in res]

    def replay(self, g, job, path):
        prog = self.native(g)
        if not prog:
            return None
        entry, _, args = job.partition(':')
        try:
            r = sh([prog, 'replay', path, entry] + ([a for a in args.split(',')] if args else []), timeout=30)
        except subprocess.TimeoutExpired:
            return None
        return r

    def search(self, g, job, seconds, hints=()):
        prog = self.native(g)
        if not prog:
            return None
        entry, _, args = job.partition(':')
        a = [x for x in args.split(',')] if args else []
        outs = []
        ps = []
        for k in range(CPUS):
            o = f'{self.replays}/search_{re.sub(chr(92)+"W","_",job)}_{k}.replay'
            seed = int(os.environ.get('VERIF_SEED', '1')) * 100 + k
            ps.append((subprocess.Popen([prog, 'search', str(seconds), str(seed), o, entry] + a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                        env=dict(os.environ, VF_HINTS=':'.join(hints))), o))
        hit = None
        for p, o in ps:
            try:
                p.wait(seconds + 15)
            except subprocess.TimeoutExpired:
                p.kill()
            if p.returncode == 3 and os.path.exists(o):
                hit = hit or o
        return hit

    def main(self):
        t0 = time.time()
        deadline = t0 + (800 if self.tier == 'quick' else 7200)
        self.cmds = []
        groups = [dict(g) for g in self.cfg['groups'] if self.tier == 'thorough' or not g.get('thorough')]
        build_engine()
        self.build(groups)
        ob = dict(total=0, discharged=0, failed=0, unknown=0)
        backends, names, functions, contracted, covers = {}, {}, set(), set(), {}
        problems, failures = [], []
        paths = killed = queries = 0
        stime = 0.0
        for lemma in self.cfg.get('lemmas', []):
            dst = f'{self.work}/{lemma}'
            shutil.copy(f'{V}/lemmas/{lemma}', dst)
            r = sh(['timeout', '120', 'coqc', '-q', lemma], cwd=self.work)
            n = len(re.findall(r'^Print Assumptions', open(dst).read(), re.M))
            good = n if r.returncode == 0 and r.stdout.count('Closed under the global context') == n else 0
            if not good:
                problems.append((None, None, f'lemma {lemma} not accepted: ' + (r.stderr or r.stdout)[:300]))
            ob['discharged'] += good
            ob['total'] += n
            ob['unknown'] += n - good
            backends['coqc'] = backends.get('coqc', 0) + good
            names['lemma/' + lemma] = good
        for gi, g in enumerate(groups):
            res, err = self.run_group(gi, g, deadline)
            if err:
                problems.append((g, None, err))
                continue
            seen_cover = {}
            for d in res:
                job = d['job']
                if d.get('crashed'):
                    problems.append((g, job, f'{job}: not finished in time' if d.get('late') else 'verifier crashed in ' + job))
                    continue
                seen_cover.setdefault(job, 0)
                paths += d['paths']
                killed += d['killed']
                queries += d['solver']['queries']
                stime += d['solver'].get('time', 0) + d['solver'].get('int_time', 0) + d['solver'].get('portfolio_time', 0)
                functions.update(d['functions'])
                contracted.update(d['contracted'])
                for c, n in d['covers'].items():
                    seen_cover[job] += n
                    covers[c] = covers.get(c, 0) + n
                for n, o in d['obligations'].items():
                    good = o['simplifier'] + o['ring'] + o['z3'] + sum(o['portfolio'].values())
                    ob['discharged'] += good
                    ob['failed'] += o['failed']
                    ob['unknown'] += o['unknown']
                    ob['total'] += good + o['failed'] + o['unknown']
                    names[n] = names.get(n, 0) + good
                    for b in ('simplifier', 'ring', 'z3'):
                        if o[b]:
                            k = {'simplifier': 'term rewriting', 'ring': 'ring normal form', 'z3': 'z3 (bit-vectors)'}[b]
                            backends[k] = backends.get(k, 0) + o[b]
                    for b, n2 in o['portfolio'].items():
                        backends[b] = backends.get(b, 0) + n2
                for f in d['failures']:
                    failures.append((g, job, f))
                if d['incomplete'] or d['errors']:
                    problems.append((g, job, f'{job}: ' + ('; '.join(d['errors'][:3]) or 'incomplete')))
            for j, n in ({} if g.get('closed') else seen_cover).items():
                if n == 0:
                    problems.append((g, j, f'{j}: vacuous, no cover point reached'))
            if self.early:
                break
        if ob['total'] == 0 and not self.early:
            problems.append((None, None, 'no obligations were generated'))
        known = [k for k in json.load(open(V + '/known_findings.json')) if k.get('property') == self.pid and k.get('status') == 'known']
        violations = []
        seen = set()
        failures += self.stopped
        if self.early:
            g, job, path, name = self.early
            dst = f'{self.replays}/confirmed.replay'
            shutil.copy(path, dst)
            open(dst, 'a').write('# fails in the compiled code as well\n')
            violations.append((name, job, dst, True, {'name': name, 'msg': 'fails for the recorded input, also in the compiled code', 'where': ''}, g))
        for g, job, f in [] if self.early else failures:
            key = (f['name'], job)
            if key in seen:
                continue
            src = f.get('replay')
            dst = f'{self.replays}/{len(violations)}_{re.sub(chr(92) + "W+", "_", f["name"])[:60]}.replay'
            if src and os.path.exists(src):
                shutil.copy(src, dst)
            else:
                open(dst, 'w').write(f'# job {job}\n# obligation {f["name"]}\n# {f["msg"]}\n# at {f["where"]}\n')
            confirmed = False
            r = self.replay(g, job, dst) if src else None
            if r is not None and (r.returncode == 3 or (r.returncode == 4 and ('host' in f['name'] or 'memory' in f['name'] or 'trap' in f['name']))):
                confirmed = True
                open(dst, 'a').write('# replayed on the compiled code: ' + (r.stdout.strip().replace('\n', ' | ') or 'crash') + '\n')
            n = sum(1 for v in violations if v[0] == f['name'])
            if not confirmed and n >= 3:
                continue
            violations.append((f['name'], job, dst, confirmed, f, g))
            if confirmed:
                seen.add(key)
            if len(violations) >= 40:
                break
        # nothing reproduced, or undecided obligations: search for a failing input
        if not any(v[3] for v in violations):
            jobs = []
            for v in violations:
                if (v[5], v[1]) not in jobs:
                    jobs.append((v[5], v[1]))
            for g, job, _ in problems:
                if g is not None and job and (g, job) not in jobs:
                    jobs.append((g, job))
            for g, job in jobs[:10]:
                if time.time() > deadline - 30:
                    break
                hit = self.search(g, job, 10, [v[2] for v in violations if v[5] is g and v[1] == job])
                if hit:
                    name = re.search(r'# obligation (.*)', open(hit).read()).group(1)
                    violations.insert(0, (name, job, hit, True, {'name': name, 'msg': 'found by running the harness', 'where': ''}, g))
                    break
        wall = time.time() - t0
        confirmed = [v for v in violations if v[3]]
        report = confirmed or violations
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.cfg.get('level', 'proof'),
            'coverage': {
                'obligations': ob['total'], 'discharged': ob['discharged'], 'failed': ob['failed'], 'undecided': ob['unknown'],
                'by_back_end': backends, 'named_obligations': names, 'paths': paths, 'solver_queries': queries, 'solver_time_s': round(stime, 1),
                'functions_under_contract': sorted(functions), 'functions_used_through_their_contract': sorted(contracted),
                'cover_points': covers, 'jobs': sum(len(g['jobs']) for g in groups),
                'checker_cmd': self.cmds[0] if self.cmds else '', 'trusted_base': props.TRUSTED + self.cfg.get('trusted', []),
                'bounded': self.cfg.get('bounded', 'none: every obligation holds for all inputs'),
            },
            'assumptions': self.cfg.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': len(report),
        }
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{self.pid}.json', 'w'), indent=1)
        print(f'{self.pid}: {ob["discharged"]}/{ob["total"]} obligations discharged, {ob["failed"]} failed, {ob["unknown"]} undecided; '
              f'{len(functions)} functions, {paths} paths, {queries} queries, {wall:.0f} s')
        # findings the contracts single out (vf_cover("finding/...") where the defect shows)
        for c in sorted(c for c, n in covers.items() if n and c.startswith('finding/')):
            k = [k for k in known if k.get('cover') == c]
            if k:
                print(f'KNOWN-FINDING: property={self.pid} {k[0]["what"]}')
            else:
                path = f'{self.replays}/{c.replace("/", "_")}.txt'
                open(path, 'w').write(f'{c}: reached, and not listed in known_findings.json\n')
                report = report + [(c, '', path, False, {'msg': 'unlisted finding', 'where': ''}, None)]
        for k in known:
            if 'replay' not in k:
                continue
            # a listed finding: the recorded input still fails on the real code
            g = groups[0]
            for gg in groups:
                if k['job'] in gg['jobs'] or k.get('group') == gg.get('name'):
                    g = gg
            r = self.replay(g, k['job'], V + '/' + k['replay'])
            if r is not None and r.returncode == 3:
                print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        if report:
            for name, job, path, conf, f, g in report[:12]:
                print(f'obligation {name} fails in {job}: {f["msg"]} {f["where"]}')
                print(f'VIOLATION property={self.pid} replay={path}' + ('' if conf else ' no-failing-input-found'))
            return 1
        if problems:
            for _, _, p in problems[:20]:
                print('UNDECIDED ' + p)
            open_jobs = [(j, p) for g, j, p in problems if g is not None and j and 'vacuous' not in p]
            if ob['total'] and open_jobs:
                # obligations that are discharged on the unchanged tree and are not any more
                path = f'{self.replays}/undischarged.txt'
                open(path, 'w').write('\n'.join(p for _, p in open_jobs) + '\n')
                print(f'VIOLATION property={self.pid} replay={path} no-failing-input-found')
                return 1
            return 2
        return 0


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    sys.exit(Check(sys.argv[1], tier).main())
