#!/usr/bin/env python3-vt
"""check.py <property> <quick|thorough>: decides one property for /repo's current tree."""
import copy
import json
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
QUICK, THOROUGH = 60, 200       # randomly drawn types added to the corpus
if len(sys.argv) > 1:
    tier_ = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ.setdefault('VCG_RANDOM', '1:%d' % QUICK if tier_ == 'quick' else '%s:%d' % (os.environ.get('VERIF_SEED', '1'), THOROUGH))
import build
from corpus import CORPUS, BY
from values import Unsupported, Theory
from report import Report
import engine
import verify_ser as VS
import deser as D
import battery as B
import fnspecs
import derivespecs
import safe

VERIF = build.VERIF
LEVEL = json.load(open(VERIF + '/vcg/levels.json'))
PROG = None
DPROG = None
EXE = None


class Late(Exception):
    pass


def alarm(*a):
    raise Late()


# -- tasks ------------------------------------------------------------------------------------------------------
def verify_tasks(prop):
    out = []
    for t in CORPUS:
        if t.de:
            out += [('de', t.name, m) for m in D.modes(t)]
            if prop == 'C10':
                out.append(('safe', t.name, ''))
        if t.ser:
            out += [('ser', t.name, ''), ('sat', t.name, '')]
    out += [('fn', n, '') for n in fnspecs.names()]
    out += [('der', n, '') for n in derivespecs.names()]
    return out


def do_verify(task):
    kind, name, mode, limit = task
    rep, th = Report(), Theory()
    t0 = time.time()
    info = dict(assumptions=[], kind=kind, name=name, mode=mode, fns=[])
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    why = None
    try:
        if kind == 'de':
            r = D.verify_de(PROG, th, BY[name], rep, mode)
            eng = r.eng
        elif kind == 'ser':
            eng = VS.verify_ser(PROG, th, BY[name], rep)
        elif kind == 'safe':
            eng = safe.verify_safe(PROG, th, BY[name], rep).eng
        elif kind == 'sat':
            eng = VS.verify_sat(PROG, th, BY[name], rep)
        elif kind == 'der':
            if DPROG is None:
                raise Unsupported('no MIR of the derive crate')
            eng = derivespecs.verify(DPROG, th, name, rep)
        else:
            eng = fnspecs.verify(PROG, th, name, rep)
        info['assumptions'] = sorted(eng.assumptions)
        info['fns'] = sorted(getattr(eng, 'seen_fns', ()))
    except Unsupported as e:
        why = 'unsupported: %s' % str(e)[:400]
    except Late:
        why = 'time limit of %d s' % limit
    except RecursionError:
        why = 'recursion limit of the verifier'
    except Exception:
        why = 'verifier error: ' + traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    if why:
        # whatever was already decided exactly on the way stays
        rep.add(task_props(kind, name), {'de': 'deserialize of %s (%s)' % (name, mode), 'ser': 'serialize of ' + name, 'sat': 'serialize_attributes of ' + name,
                                         'safe': 'deserialize of %s (any input)' % name,
                                         'fn': name, 'der': derivespecs.subject(name) if kind == 'der' else ''}[kind], 'within reach of the verifier', 'unsupported', why)
    info.update(time=time.time() - t0, queries=th.stats.queries, solver=th.stats.time, why=why)
    return 'verify', info, [(sorted(o.props), o.subject, o.name, o.status, o.detail[:3000], o.exact) for o in rep.obls]


def task_props(kind, name):
    if kind == 'fn':
        return fnspecs.props(name)
    if kind == 'der':
        return derivespecs.props(name)
    if kind == 'safe':
        return {'C10'}
    t = BY[name]
    p = set(VS.props_of(t)) | B.allprops(t)
    for v in t.variants or []:
        if v.payload:
            p |= VS.props_of(t, v.payload)
        for f in v.named or []:
            p |= VS.props_of(t, f)
    for f in t.fields or []:
        p |= VS.props_of(t, f) | (D.de_props(t, f) if kind == 'de' else set())
    if kind == 'de':
        p |= {'C10', 'C17'} | ({'C03'} if t.kind == 'struct' else set())
    return p


def do_battery(task):
    name, seed, scale = task
    t0 = time.time()
    if name is None:
        cs, st = B.general_cases(seed, scale), {}
        fails = B.judge_all(EXE, cs)
    else:
        fails, cs, st = B.run_type(EXE, BY[name], seed, scale)
    kinds = {}
    for c in cs:
        kinds[c.kind] = kinds.get(c.kind, 0) + 1
    sample = [c.note for c in cs[:1]]
    return 'battery', dict(name=name, n=len(cs), distinct=len({c.line for c in cs}), kinds=kinds, time=time.time() - t0, stats=st, sample=sample), [
        (sorted(f.props), f.case.kind, f.case.note, f.what, f.case.line, name) for f in fails[:400]]


def do_canary(task):
    """A deliberately wrong specification must be refuted: the verifier is not vacuous."""
    kind, name = task
    t = copy.deepcopy(BY[name])
    if kind == 'label':
        t.fields[-1].rename = 'wrong'
    elif kind == 'missing':
        t.fields[0].default = 'i32'
    elif kind == 'root':
        t.rename = 'wrong'
    rep, th = Report(), Theory()
    try:
        if kind == 'root':
            VS.verify_ser(PROG, th, t, rep)
        else:
            D.verify_de(PROG, th, t, rep, 'nested')
    except Unsupported as e:
        return 'canary', dict(name='%s of %s' % (kind, name), refuted=None, why=str(e)[:200]), []
    return 'canary', dict(name='%s of %s' % (kind, name), refuted=sum(1 for o in rep.obls if o.status == 'refuted')), []


def work(job):
    k, task = job
    try:
        return {'v': do_verify, 'b': do_battery, 'c': do_canary}[k](task)
    except Exception:
        return 'error', dict(task=repr(task), trace=traceback.format_exc()[-2000:]), []


# -- known findings ----------------------------------------------------------------------------------------------------
def known_findings(prop):
    """replays the listed findings of this property; -> lines to print"""
    out = []
    for k in json.load(open(VERIF + '/known-findings.json'))['findings']:
        if k['property'] != prop:
            continue
        a = B.feed(EXE, [k['line']])[0]
        if a == k['answer']:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    return out


# -- main -------------------------------------------------------------------------------------------------------------
def main():
    global PROG, DPROG, EXE
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    res = {}

    def bg(n, f):
        try:
            res[n] = f()
        except Exception as e:
            res[n + '_error'] = str(e)
    ths = [threading.Thread(target=bg, args=x) for x in (('mir', build.mir), ('replay', build.replay))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    tb = time.time() - t0
    os.makedirs(build.BUILD + '/violations', exist_ok=True)
    vpath = build.BUILD + '/violations/%s.txt' % prop
    if os.path.exists(vpath):
        os.remove(vpath)
    scale = {'quick': 1.0, 'thorough': 12.0}[tier]
    limit = {'quick': 150, 'thorough': 700}[tier]
    undecided = []
    if 'replay' not in res:
        err = res.get('replay_error', '')
        if 'could not compile `replay`' in err or 'could not compile `harness`' in res.get('mir_error', ''):
            open(vpath, 'w').write('The derives do not compile for the supported field kinds of the corpus (%s/replay/src/types.rs):\n\n%s\n' % (build.BUILD, err))
            evidence(prop, tier, seed, t0, tb, [], [], [], [], ['the corpus of derived types does not compile'], 1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, vpath))
            return 1
        print('cannot build: ' + err[-3000:])
        return 2
    EXE = res['replay']
    jobs = []
    if 'mir' in res:
        PROG = engine.Program(json.load(open(res['mir'])))
        dmir = build.derive_mir()
        DPROG = engine.Program(json.load(open(dmir))) if dmir else None
        jobs += [('v', t + (limit,)) for t in verify_tasks(prop)]
        jobs += [('c', x) for x in (('label', 'Leaf'), ('missing', 'ElI32'), ('root', 'Nest'))]
    else:
        undecided.append('no MIR: ' + res.get('mir_error', '')[-500:])
    seeds = [seed] if tier == 'quick' else [seed * 1000 + i for i in range(6)]
    jobs += [('b', (t.name, s, scale)) for t in CORPUS for s in seeds] + [('b', (None, s, scale)) for s in seeds]
    slow = {'Mixed': 9, 'SkipCh': 8}
    jobs.sort(key=lambda j: (-(j[0] == 'v' and j[1][0] in ('de', 'safe')), -slow.get(j[1][1] if j[0] == 'v' else '', 0)))
    obls, bats, fails, canaries, infos, errors = [], [], [], [], [], []
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for kind, info, items in pool.imap_unordered(work, jobs, chunksize=1):
            if kind == 'verify':
                infos.append(info)
                obls += items
            elif kind == 'battery':
                bats.append(info)
                fails += items
            elif kind == 'canary':
                canaries.append(info)
            else:
                errors.append(info)
    if errors:
        print('internal error: ' + errors[0]['trace'])
        return 2
    mine = [o for o in obls if prop in o[0]]
    refuted = [o for o in mine if o[3] == 'refuted']
    for o in mine:
        if o[3] in ('unknown', 'unsupported'):
            undecided.append('%s: %s: %s %s' % (o[1], o[2], o[3], o[4][:200]))
    bad = [f for f in fails if prop in f[0]]
    exact = [o for o in refuted if o[5]]
    if refuted and not bad:
        # look for a failing input in the neighbourhood of the failed obligations
        names = sorted({w for o in refuted for w in o[1].replace('(', ' ').split() if w in BY})[:8]
        more = [('b', (n, seed * 77 + i, 3.0)) for n in names for i in range(3)] or [('b', (None, seed * 77 + i, 2.0)) for i in range(4)]
        with multiprocessing.get_context('fork').Pool(8) as pool:
            for kind, info, items in pool.imap_unordered(work, more, chunksize=1):
                if kind == 'battery':
                    bats.append(info)
                    bad += [f for f in items if prop in f[0]]
    wide = [o for o in refuted if not o[5]]
    for o in wide:
        undecided.append('%s: %s: fails only under an inferred invariant: %s' % (o[1], o[2], o[4][:200]))
    vac = [c for c in canaries if c['refuted'] == 0]
    if vac and not bad and not refuted:
        print('vacuous: wrong specifications are accepted: %s' % vac)
        return 2
    for l in known_findings(prop):
        print(l)
    nviol = 0
    if bad or exact:
        nviol = len(bad) or len(exact)
        with open(vpath, 'w') as f:
            f.write('property %s does not hold on the tree in /repo\n\n' % prop)
            for o in refuted[:20]:
                f.write('FAILED OBLIGATION  %s: %s%s\n  %s\n' % (o[1], o[2], '' if o[5] else ' (under an inferred invariant)', o[4]))
            for x in bad[:20]:
                f.write('\nFAILING INPUT  %s\n  %s\n  replay: echo %r | %s\n' % (x[2], x[3], x[4], EXE))
        for x in bad[:3]:
            print('failing input: %s: %s' % (x[2][:300], x[3][:500]))
        for o in refuted[:3]:
            print('failed obligation: %s: %s: %s' % (o[1], o[2], o[4][:400]))
    evidence(prop, tier, seed, t0, tb, mine, bats, infos, canaries, undecided, nviol)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; %d concrete runs, %d failures; %.0f s (build %.0f s)' % (
        prop, tier, len(mine), sum(1 for o in mine if o[3] == 'proved'), len(refuted), len(undecided), sum(b['n'] for b in bats), len(bad), time.time() - t0, tb))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, vpath))
        return 1
    if exact:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, vpath))
        return 1
    return 0


def evidence(prop, tier, seed, t0, tb, mine, bats, infos, canaries, undecided, nviol):
    lev = LEVEL[prop]
    subs = sorted({o[1] for o in mine})
    ass = sorted({a for i in infos for a in i['assumptions']})
    cov = dict(
        obligations=len(mine), discharged=sum(1 for o in mine if o[3] == 'proved'),
        checker_cmd='python3-vt vcg/check.py %s %s' % (prop, tier), trusted_base=fnspecs.TRUSTED,
        corpus_types=len(CORPUS), functions_under_contract=len(subs), functions=subs[:400],
        obligation_names=tally(o[2].split(' ')[0:1] and o[2] for o in mine),
        backend='z3 %s through the contract verifier vcg (MIR of the real code)' % z3v(),
        solver_queries=sum(i['queries'] for i in infos), solver_seconds=round(sum(i['solver'] for i in infos), 2),
        verifier_seconds=round(sum(i['time'] for i in infos), 1), undecided=undecided[:60],
        canaries=canaries,
        bounded=dict(what='concrete runs of the real code against the same specification; stand-in where an obligation is undecided, never counted as proved',
                     evaluations=sum(b['n'] for b in bats), kinds=addup(b['kinds'] for b in bats),
                     bound='corpus of %d types (%s of them drawn at random with seed %s), the values and documents of battery.py with seed %d' % (
                         len(CORPUS), *reversed(os.environ['VCG_RANDOM'].split(':')), seed)),
        evaluations=sum(b['n'] for b in bats), distinct_nontrivial=sum(b['distinct'] for b in bats),
        rule='values: every value pool entry of every field plus random ones; documents: built from values, changed by 1-3 mutations, truncated, corrupted; a case is distinct by its replay line',
        samples=[s for b in bats[:6] for s in b['sample']] or ['none'], build_seconds=round(tb, 1))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=lev, coverage=cov, assumptions=ass + fnspecs.ASSUME.get(prop, []), wall_s=round(time.time() - t0, 1),
                   violations=nviol), open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)


def tally(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return dict(sorted(d.items(), key=lambda x: -x[1])[:60])


def addup(ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
