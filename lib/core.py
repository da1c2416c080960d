"""Obligations, verdicts, evidence and exit codes shared by all checks.

A check states obligations over the analysed program. Each is PROVED (the rule discharges it), REFUTED (the rule shows a
construct that breaks it) or UNKNOWN (outside what the rule can decide; listed in the evidence, never an alarm). Only a
refutation that /verif/known_findings.txt does not list makes the check exit 1."""
import contextlib
import ctypes
import json
import os
import re
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED, REFUTED, UNKNOWN = 'PROVED', 'REFUTED', 'UNKNOWN'


class Ctx:
    def __init__(self, prop, prog, tier, seed):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.seed = seed
        self.obls = []
        self.analysed = {}
        self.rules = []
        self.notes = []
        self.t0 = time.time()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def did(self, kind, what):
        self.analysed.setdefault(kind, {})
        d = self.analysed[kind]
        d[what] = d.get(what, 0) + 1

    def note(self, t):
        self.notes.append(t)

    def add(self, verdict, what, where='', why='', key=None):
        self.obls.append({'verdict': verdict, 'obligation': what, 'where': where, 'why': why, 'key': key or (what + ' @ ' + where)})
        return verdict

    def proved(self, what, where='', why=''):
        return self.add(PROVED, what, where, why)

    def refuted(self, what, where='', why='', key=None):
        return self.add(REFUTED, what, where, why, key)

    def unknown(self, what, where='', why=''):
        return self.add(UNKNOWN, what, where, why)

    def count(self, v):
        return sum(1 for o in self.obls if o['verdict'] == v)


def known():
    """known findings: lines 'finding: property=<id> key=<regex> :: text'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def where(fn, node=None):
    l = (node or {}).get('l') if isinstance(node, dict) else node
    return '%s:%s in %s' % (fn.get('file', '?'), l if l is not None else fn.get('l'), fn.get('qn', 'lambda'))


class TimeUp(BaseException):
    """an obligation took too long to decide"""


@contextlib.contextmanager
def limit(seconds):
    """raise TimeUp in this thread when the block takes longer"""
    tid = ctypes.c_ulong(threading.get_ident())
    done = threading.Event()

    def fire():
        if not done.wait(seconds):
            while not done.is_set():
                ctypes.pythonapi.PyThreadState_SetAsyncExc(tid, ctypes.py_object(TimeUp))
                done.wait(5)
    w = threading.Thread(target=fire, daemon=True)
    stack = threading.stack_size(1 << 20)
    w.start()
    threading.stack_size(stack)
    try:
        yield
    finally:
        done.set()


def finish(ctx, meta):
    prop = ctx.prop
    nP, nR, nU = ctx.count(PROVED), ctx.count(REFUTED), ctx.count(UNKNOWN)
    ev = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, prop + '.report.txt')
    kf = [(k, t) for p, k, t in known() if p == prop]
    viol, found = [], []
    for o in ctx.obls:
        if o['verdict'] != REFUTED:
            continue
        hit = [t for k, t in kf if re.search(k, o['key'])]
        if hit:
            found.append((o, hit[0]))
        else:
            viol.append(o)
    with open(rep, 'w') as f:
        for o in ctx.obls:
            f.write('%s  %s\n    at %s\n' % (o['verdict'], o['obligation'], o['where']))
            if o['why']:
                f.write('    %s\n' % o['why'])
    level = meta.get('level', 'proof')
    cov = {'obligations': len(ctx.obls), 'discharged': nP, 'undecided': nU, 'refuted': nR,
           'checker_cmd': 'python3 check.py %s' % prop,
           'trusted_base': ['clang 18 front end', 'exporter/exporter.cpp', 'lib/*.py (models of the std, ICU and simdjson operations used)',
                            'assumptions listed in DESIGN.md'],
           'rules': ctx.rules, 'analysed': {k: (sorted(v) if len(v) < 200 else len(v)) for k, v in ctx.analysed.items()},
           'analysed_counts': {k: sum(v.values()) for k, v in ctx.analysed.items()},
           'samples': [{k: str(o[k])[:400] for k in ('verdict', 'obligation', 'where', 'why')} for o in ctx.obls[:60]],
           'undecided_list': [{k: str(o[k])[:400] for k in ('obligation', 'where', 'why')} for o in ctx.obls if o['verdict'] == UNKNOWN][:60],
           'explanation': meta.get('explanation', 'obligations over the value graph / syntax tree of the current sources'),
           'notes': ctx.notes[:40]}
    d = {'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2),
         'technique': meta.get('technique', '')}
    if viol:
        d['violations'] = [{k: str(o[k])[:1500] for k in ('obligation', 'where', 'why')} for o in viol]
    json.dump(d, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d proved, %d refuted, %d undecided (%.1f s)' % (prop, len(ctx.obls), nP, nR, nU, time.time() - ctx.t0))
    for o in ctx.obls:
        if o['verdict'] == UNKNOWN:
            print('  undecided: %s @ %s %s' % (o['obligation'], o['where'], str(o['why'])[:200]))
    for o, t in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if viol:
        for o in viol:
            print('  broken: %s\n    at %s\n    %s' % (o['obligation'], o['where'], str(o['why'])[:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if len(ctx.obls) < meta.get('min', 1):
        print('ANALYSIS-BROKEN %s: only %d obligations stated (at least %d expected): the analysed code was not found' % (prop, len(ctx.obls), meta.get('min', 1)))
        return 2
    return 0
