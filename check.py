#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--only ENTRY] : decide one property on /repo's current tree.

Exit 0: every obligation discharged.  Exit 1: a counterexample was found by the solver and
reproduced by running the real code (VIOLATION line).  Exit 2: not decided."""

import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
PY = sys.executable

ENTRY = re.compile(r'^ENTRY\((\w+)\)\s*(?://\s*vopt:\s*(.*))?$')


def parse_opts(text):
    out = {}
    for w in (text or '').split():
        if '=' not in w:
            continue
        k, v = w.split('=', 1)
        if re.fullmatch(r'-?\d+', v):
            v = int(v)
        elif v in ('true', 'false'):
            v = v == 'true'
        out[k] = v
    return out


def entries(path, tier):
    out = []
    fileopts = {}
    with open(path) as f:
        for line in f:
            m = re.match(r'^//\s*vfile:\s*(.*)$', line)
            if m:
                fileopts.update(parse_opts(m.group(1)))
            m = ENTRY.match(line.rstrip())
            if not m:
                continue
            name = m.group(1)
            if name.startswith('deep_') and tier != 'thorough':
                continue
            o = dict(fileopts)
            o.update(parse_opts(m.group(2)))
            out.append((name, o))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_ll(src, work, opts):
    base = os.path.join(work, os.path.basename(src))
    inc = ['-I' + os.path.join(HERE, 'harness')]
    if opts.get('stub'):
        inc = ['-I' + os.path.join(HERE, 'harness', 'stub')] + inc
    cmd = [CLANG, '-std=c++17', '-DVS_SYMBOLIC'] + inc + ['-I' + REPO, '-O0', '-Xclang', '-disable-O0-optnone',
           '-ffp-contract=off', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-w',
           '-fno-discard-value-names',
           '-S', '-emit-llvm', src, '-o', base + '.0.ll']
    p = sh(cmd)
    if p.returncode:
        return None, p.stdout
    p = sh([OPT, '-passes=mem2reg', '-S', base + '.0.ll', '-o', base + '.ll'])
    if p.returncode:
        return None, p.stdout
    return base + '.ll', ''


NOTHING = dict(violations=[], stats={}, functions={}, missed=[], weak=[], notes=[], sites=0, wall=0)


def run_entry(job):
    ll, name, opts, work, secs = job
    out = os.path.join(work, os.path.basename(ll) + '_' + name + '.json')
    t0 = time.time()
    try:
        p = subprocess.run([PY, '-m', 'engine.worker', ll, name, json.dumps(opts), out, str(secs)],
                           cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=secs + 60)
        log = p.stdout
    except subprocess.TimeoutExpired as e:
        if opts.get('blind'):
            log = ''
        else:
            # undecided: inputs of its paths are still worth a run of the real code
            r = run_entry((ll, name, dict(opts, blind=1), work, 60))
            return dict(r, inconclusive=['worker timed out'], wall=time.time() - t0)
    if not os.path.exists(out):
        return dict(NOTHING, entry=name, inconclusive=['worker died: ' + log[-600:]], wall=time.time() - t0)
    with open(out) as f:
        r = json.load(f)
    r['log'] = log[-3000:]
    return r


REPLAY_MAIN = '''#define VS_REPLAY 1
#include "vs.h"
#include "vs_replay.h"
#include "%(src)s"
int main(int argc, char **argv)
{
	if (argc > 1)
		vs_load_(argv[1]);
	%(entry)s();
	puts("replay: property held");
	return 0;
}
'''


class Replayer:
    def __init__(self, pid, work):
        self.pid = pid
        self.dir = os.path.join(HERE, 'replay', pid)
        self.work = work
        self.bins = {}

    def build(self, src, entry, san):
        key = (src, entry, san)
        if key in self.bins:
            return self.bins[key]
        cc = os.path.join(self.work, 'replay_%s_%s_%s.cc' % (os.path.basename(src)[:-3], entry, san))
        with open(cc, 'w') as f:
            f.write(REPLAY_MAIN % dict(src=src, entry=entry))
        exe = cc[:-3]
        cmd = self.command(cc, exe, san)
        p = sh(cmd)
        if p.returncode:
            self.err = p.stdout
            exe = None
        self.bins[key] = exe
        return exe

    def command(self, cc, exe, san):
        cmd = ['g++', '-std=c++17', '-O1', '-g', '-ffp-contract=off', '-w',
               '-ftrivial-auto-var-init=pattern', '-I' + os.path.join(HERE, 'harness'), '-I' + REPO]
        if san:
            cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                    '-fsanitize=float-cast-overflow', '-fno-sanitize=shift-base']
        return cmd + [cc, '-o', exe]

    def confirm(self, src, entry, v, n):
        """replay candidate inputs on the real code; returns path of the replay script or None"""
        tries = [v['inputs']] + list(v.get('more') or [])
        for inputs in tries:
            vals = os.path.join(self.work, 'vals_%s_%d.txt' % (entry, n))
            with open(vals, 'w') as f:
                for k, x in sorted(inputs.items()):
                    f.write('%s %s\n' % (k, x))
            for san in (1, 0):
                exe = self.build(src, entry, san)
                if exe is None:
                    continue
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1',
                           UBSAN_OPTIONS='halt_on_error=1')
                scratch = tempfile.mkdtemp(prefix='vreplay')
                try:
                    p = sh([exe, vals], timeout=20, cwd=scratch, env=env)
                    rc, text = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, text = 'timeout', 'does not terminate within 20 s'
                except UnicodeDecodeError:
                    rc, text = 1, ''
                finally:
                    shutil.rmtree(scratch, ignore_errors=True)
                if rc not in (0, 78):
                    return self.save(src, entry, vals, san, text, n)
        return None

    def save(self, src, entry, vals, san, text, n):
        os.makedirs(self.dir, exist_ok=True)
        base = os.path.join(self.dir, '%s_%d' % (entry, n))
        shutil.copy(vals, base + '.txt')
        with open(base + '.cc', 'w') as f:
            f.write(REPLAY_MAIN % dict(src=src, entry=entry))
        with open(base + '.log', 'w') as f:
            f.write(text)
        with open(base + '.sh', 'w') as f:
            f.write('#!/bin/sh\n# counterexample found by the solver, replayed on the real code; nonzero exit = violated\n')
            f.write('d=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\n')
            f.write(' '.join(self.command(base + '.cc', '"$d/a"', san)) + ' || exit 2\n')
            f.write('cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 20 "$d/a" %s\n' % (base + '.txt'))
        os.chmod(base + '.sh', 0o755)
        return base + '.sh', text


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) match="([^"]*)" (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names),
                       stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    pid = args.id
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 780 if tier == 'quick' else 3 * 3600
    props = {}
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            if line.strip():
                p = json.loads(line)
                props[p['id']] = p
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    rc = 0
    try:
        rc = decide(args, pid, tier, seed, t0, budget, props, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(args, pid, tier, seed, t0, budget, props, work):
    srcs = sorted(glob.glob(os.path.join(HERE, 'harness', pid + '*.cc')))
    if not srcs:
        print('no harness for', pid)
        return 2
    errors = []
    compiled = {}
    ents = {s: entries(s, tier) for s in srcs}

    def comp(s):
        fo = {}
        for line in open(s):
            m = re.match(r'^//\s*vfile:\s*(.*)$', line)
            if m:
                fo.update(parse_opts(m.group(1)))
        return s, compile_ll(s, work, fo)
    with ThreadPoolExecutor(8) as tp:
        for s, (ll, err) in tp.map(comp, srcs):
            if ll is None:
                errors.append('%s does not compile: %s' % (s, err[-2000:]))
            compiled[s] = ll
    jobs = []
    for s in srcs:
        if not compiled[s]:
            continue
        for name, o in ents[s]:
            if args.only and args.only not in name:
                continue
            o = dict(o)
            o['seed'] = seed
            if args.debug:
                o['debug'] = True
            secs = min(int(o.get('t', 300 if tier == 'quick' else 3000)), budget)
            jobs.append((s, (compiled[s], name, o, work, secs)))
    jobs.sort(key=lambda j: -int(j[1][2].get('cost', 1)))
    rep = Replayer(pid, work)
    kf = known()
    found = []

    def one(j):
        src, job = j
        left = t0 + budget - time.time()
        if len(found) >= 3 or left < 10:
            r = dict(NOTHING, entry=job[1], inconclusive=['not run: ' + (
                'violations already found' if found else 'time budget of the check exhausted')])
        else:
            r = run_entry(job[:4] + (min(job[4], int(left)),))
        # replay the counterexamples on the real code
        r['confirmed'] = []
        r['unconfirmed'] = []
        for i, v in enumerate(r['violations']):
            if len(r['confirmed']) >= 2 or len(found) >= 6:
                break
            hit = rep.confirm(src, job[1], v, i)
            if hit is None:
                r['unconfirmed'].append(v)
                continue
            what = None
            for kp, ke, km, kw in kf:
                if kp == pid and ke == job[1] and km in v['msg']:
                    what = kw
            r['confirmed'].append((hit, v, what))
            if what is None:
                found.append(hit)
        return src, r
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as tp:
        results = list(tp.map(one, jobs))
    viols = []
    unconf = []
    knownhits = []
    tot = {}
    funcs = {}
    notes = set()
    per = []
    for s, r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r['functions'])
        notes.update(r['notes'])
        for m in r['missed']:
            errors.append('%s: assertion never reached: %s' % (r['entry'], m))
        for (path, text), v, what in r['confirmed']:
            if what:
                knownhits.append(what)
            else:
                viols.append((path, r['entry'], v, text.strip()[:600]))
        if not r['confirmed']:
            for v in r['unconfirmed']:
                unconf.append('%s: %s: %s %s' % (r['entry'], v['kind'], v['msg'], str(v.get('inputs', ''))[:300]))
        for m in r['inconclusive']:
            errors.append('%s: %s' % (r['entry'], m))
        per.append(dict(entry=r['entry'], wall_s=round(r['wall'], 2), paths=r['stats'].get('paths', 0),
                        queries=r['stats'].get('queries', 0), solver_s=round(r['stats'].get('solver_s', 0), 2),
                        slowest_s=round(r['stats'].get('slowest_s', 0), 2),
                        steps=r['stats'].get('steps', 0), inputs=r.get('inputs', 0), sites=r['sites'],
                        witness=r.get('witness', [])[:1]))
        if args.debug:
            print(r['entry'], 'wall %.1f' % r['wall'], r['stats'], r['inconclusive'], r.get('log', ''), file=sys.stderr)
            for v in r['violations']:
                print('   candidate', v['kind'], v['msg'], v['inputs'], v['where'], file=sys.stderr)
    names = sorted(funcs)
    dn = [d for d in demangle(names) if d.startswith('DSP::') or ' DSP::' in d] if names else []
    man = {}
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                man[c['property']] = c
    except Exception:
        pass
    bounds = []
    stubs = []
    for s in srcs:
        for line in open(s):
            m = re.match(r'^//\s*bounds?:\s*(.*)$', line)
            if m:
                bounds.append(m.group(1))
            m = re.match(r'^//\s*assume:\s*(.*)$', line)
            if m:
                stubs.append(m.group(1))
    ev = dict(property=pid, tier=tier, seed=seed, level=man.get(pid, {}).get('level', 'model_checking'),
              coverage=dict(
                  entries=len(per), symbolic_inputs=sum(p['inputs'] for p in per),
                  paths=tot.get('paths', 0), merges=tot.get('merges', 0), instructions_executed=tot.get('steps', 0),
                  queries=tot.get('queries', 0), queries_unsat=tot.get('unsat', 0), queries_sat=tot.get('sat', 0),
                  queries_unknown=tot.get('unknown', 0), obligations=tot.get('obligations', 0),
                  assertions=tot.get('asserts', 0), solver_s=round(tot.get('solver_s', 0), 2),
                  assertion_sites_reached=sum(p['sites'] for p in per),
                  functions_encoded=dn[:400], functions_encoded_count=len(dn),
                  bounds=bounds, per_entry=per, undecided=len(errors) + len(unconf)),
              wall_s=round(time.time() - t0, 2),
              assumptions=stubs + sorted(notes),
              violations=[dict(replay=p, entry=e, what=v['msg'], inputs=v['inputs'], output=o) for p, e, v, o in viols])
    if not args.no_evidence and not args.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for w in sorted(set(knownhits)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for p, e, v, o in viols:
        print('%s: %s (%s)' % (e, v['msg'], v['kind']))
        print('  ' + (o.split('\n')[0] if o else ''))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    for u in unconf:
        print('UNCONFIRMED:', u)
    for x in errors:
        print('UNDECIDED:', x)
    print('%s %s: %d entries, %d obligations, %d queries, %.1f s solver, %.1f s wall' % (
        pid, tier, len(per), tot.get('obligations', 0), tot.get('queries', 0), tot.get('solver_s', 0),
        time.time() - t0))
    if viols:
        return 1
    if errors or unconf:
        return 2
    return 0


main()
