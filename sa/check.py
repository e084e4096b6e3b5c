"""Decide one property: python3 -m sa.check P04 [--quiet]"""
import ast
import json
import os
import re
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from .terms import show, T, is_const
from . import terms as _t
from .loader import AnchorMissing
from .interp import Unsupported, FuncV
from .run import Runner, load, compare_outcomes, strip_lazy, REPO, VERIF
from .equal import Eq, Result
from . import lints as _l


EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


def known_findings():
    """known_findings.txt:  known: property=P14 key=<construct key> <what fails>   |  fixed: property=.. <commit> .."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def pairs(P, pid):
    """(module, name, code node, spec node) of the property's obligations, in file order"""
    out = []
    for mn in sorted(P.modules):
        m = P.modules[mn]
        if not mn.startswith('specs.') or not re.match(r'^%s(_\w+)?$' % pid, mn.split('.')[-1]):
            continue
        defs = dict((n.name, n) for n in m.tree.body if isinstance(n, ast.FunctionDef))
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name.endswith('__code'):
                b = n.name[:-6]
                if b + '__spec' not in defs:
                    raise SystemExit('no spec for ' + b)
                out.append((m, b, n, defs[b + '__spec']))
    return out


def included(P, pid):
    """obligations stated with another property that this one also rests on: INCLUDE = ['P04.*', 'P40.utm'] in its specification"""
    out = []
    for mn in sorted(P.modules):
        if not re.match(r'^specs\.%s(_\w+)?$' % pid, mn):
            continue
        for n in P.modules[mn].tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == 'INCLUDE':
                for w in ast.literal_eval(n.value):
                    q, name = w.split('.')
                    got = [x for x in pairs(P, q) if name == '*' or x[1] == name]
                    if not got:
                        raise SystemExit('no obligation ' + w)
                    out.extend(x for x in got if x not in out)
    return out


def opts_of(m):
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == 'OPTS':
            return ast.literal_eval(n.value)
    return {}


class Ob(object):
    pass


class OutOfTime(BaseException):
    pass


def _alarm(sig, frame):
    raise OutOfTime()


LIMIT = {'quick': (60, 420), 'thorough': (120, 780)}      # seconds per obligation, per check
T0 = time.time()


def limited(f):
    """run the decision of one obligation within its share of the time; running out is not a verdict"""
    def g(P, m, name, opts, verbose=False):
        each, all_ = LIMIT.get(os.environ.get('VERIF_TIER', 'quick'), LIMIT['quick'])
        left = all_ - (time.time() - T0)
        o = None
        if left > 1:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, min(each, left))
            try:
                o = f(P, m, name, opts, verbose)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except OutOfTime:
                o = None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if o is None:
            o = Ob()
            o.name = m.name.split('.')[-1] + '.' + name
            o.status, o.detail, o.diffs, o.funcs, o.wall = 'undecided', 'out of time', [], [], each
        return o
    return g


def anchors(I, opts):
    """the functions an obligation leaves opaque have to be there: otherwise it is stated about other code"""
    for q in opts.get('opaque', ()):
        I.lookup_qual(q)


@limited
def decide(P, m, name, opts, verbose=False):
    R = Runner(P)
    I = R.I
    o = Ob()
    o.name = m.name.split('.')[-1] + '.' + name
    o.t0 = time.time()
    o.status, o.detail, o.diffs = 'ok', '', []
    I.opaque = set(opts.get('opaque', ()))
    I.asked = re.compile(opts['effects']) if opts.get('effects') else None
    for k, v in opts.get('fields', {}).items():
        I.field_types[tuple(k.split('#'))] = v
    try:
        anchors(I, opts)
        fc = I.lookup_qual(m.name + '.' + name + '__code')
        fs = I.lookup_qual(m.name + '.' + name + '__spec')
        _t.CTXNAME = name
        oc = R.run(fc, anns=fc)
        o.funcs = sorted(q for q in I.trace_calls if q.startswith('resippy'))
        need = opts.get('reaches')
        os_ = R.run(fs, anns=fc)
        res = compare_outcomes(oc, os_, opts)
        for k in (2, 3, 4):                 # X__spec2, ...: other accepted forms of the same rule
            if (res.diffs or res.undecided) and ('%s__spec%d' % (name, k)) in [n.name for n in m.tree.body if isinstance(n, ast.FunctionDef)]:
                os2 = R.run(I.lookup_qual('%s.%s__spec%d' % (m.name, name, k)), anns=fc)
                res2 = compare_outcomes(oc, os2, opts)
                if not res2.diffs and (not res2.undecided or not res.diffs):
                    res, os_ = res2, os2
        o.leaves = res.leaves
        o.oc, o.os = oc, os_
        o.unknown = oc.unknown
        if res.diffs:
            o.status = 'violated'
            for path, x, y, conds in res.diffs:
                o.diffs.append((path, x, y, conds, I.where(x)))
        elif res.undecided:
            o.status = 'undecided'
            path, x, y, conds = res.undecided[0]
            o.detail = '%s: %s' % (path, tops(x) or tops(y))
            o.und = res.undecided
    except Unsupported as e:
        o.status, o.detail = 'undecided', 'unsupported construct: %s' % e
        o.funcs = sorted(q for q in I.trace_calls if q.startswith('resippy'))
    except (RecursionError, _t.Budget) as e:
        o.status, o.detail = 'undecided', 'too large: %s' % type(e).__name__
        o.funcs = []
    except AnchorMissing as e:
        o.status, o.detail, o.funcs = 'undecided', 'anchor not found: %s' % e, []
    except Exception as e:                   # an engine limitation is not a verdict
        o.status, o.detail = 'undecided', 'internal: %s: %s' % (type(e).__name__, e)
        o.funcs = sorted(q for q in I.trace_calls if q.startswith('resippy'))
        if verbose:
            traceback.print_exc()
    o.wall = time.time() - o.t0
    return o


@limited
def decide_pure(P, m, name, opts, verbose=False):
    """P21: the arrays, lists and dictionaries passed to the routine have the same value after the call, on every path that returns"""
    R = Runner(P)
    I = R.I
    o = Ob()
    o.name = m.name.split('.')[-1] + '.' + name
    o.t0 = time.time()
    o.status, o.detail, o.diffs = 'ok', '', []
    I.opaque = set(opts.get('opaque', ()))
    I.asked = None
    for k, v in opts.get('fields', {}).items():
        I.field_types[tuple(k.split('#'))] = v
    try:
        anchors(I, opts)
        fc = I.lookup_qual(m.name + '.' + name + '__code')
        _t.CTXNAME = name
        oc = R.run(fc, anns=fc)
        o.funcs = sorted(q for q in I.trace_calls if q.startswith('resippy'))
        res = Result()
        eq = Eq(loose_exc=True)
        o.leaves = 0
        # objects of the library have setters; the property is about arrays, lists and dictionaries
        objects = set(a.arg for a in fc.node.args.args if a.annotation is not None and 'Obj' in ast.unparse(a.annotation))
        for n in sorted(oc.args):
            x, y = strip_lazy(oc.args[n]), strip_lazy(oc.pre[n])
            if n in objects or x.op == 'raise':
                continue
            o.leaves += 1
            eq.top(x, y, res, 'argument %s after the call' % n)
        if res.diffs:
            o.status = 'violated'
            for path, x, y, conds in res.diffs:
                o.diffs.append((path, x, y, conds, I.where(x)))
        elif res.undecided:
            o.status = 'undecided'
            path, x, y, conds = res.undecided[0]
            o.detail = '%s: %s' % (path, tops(x) or tops(y))
    except Unsupported as e:
        o.status, o.detail = 'undecided', 'unsupported construct: %s' % e
        o.funcs = sorted(q for q in I.trace_calls if q.startswith('resippy'))
    except (RecursionError, _t.Budget) as e:
        o.status, o.detail, o.funcs = 'undecided', 'too large: %s' % type(e).__name__, []
    except AnchorMissing as e:
        o.status, o.detail, o.funcs = 'undecided', 'anchor not found: %s' % e, []
    except Exception as e:
        o.status, o.detail, o.funcs = 'undecided', 'internal: %s: %s' % (type(e).__name__, e), []
        if verbose:
            traceback.print_exc()
    if o.status == 'undecided':
        w = _l.writes_to(P, m, name + '__code')
        if w:
            o.status = 'violated'
            o.diffs = [('argument %s after the call' % a, _t.mk("sym", "written by `%s`" % text), _t.mk("sym", a), (), where) for a, text, where in w]
    o.wall = time.time() - o.t0
    return o


def tops(t):
    out = set()
    def g(x, seen=set()):
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'top':
                out.add(str(y.args[0]))
            st.extend(_t._iter_terms(y.args))
    g(t)
    return '; '.join(sorted(out))


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + ' …[%d chars]' % len(s)


def main(argv):
    pid = argv[1]
    only = [a for a in argv[2:] if not a.startswith('-')]
    verbose = '-v' in argv
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        P = load()
        known = known_findings()
        obs = []
        for m, name, _, _ in (pairs(P, pid) + included(P, pid) if pid != 'P21' else pairs(P, r'P\d\d')):
            if only and name not in only:
                continue
            o = (decide if pid != 'P21' else decide_pure)(P, m, name, opts_of(m).get(name, {}), verbose)
            obs.append(o)
            if verbose:
                print('%-10s %-50s %.2fs %s' % (o.status, o.name, o.wall, o.detail))
                if o.status == 'violated':
                    for path, x, y, conds, where in o.diffs[:4]:
                        print('    at %s  (%s)\n      code: %s\n      spec: %s' % (path, where, clip(show(x)), clip(show(y))))
                        for a, v in conds:
                            print('      when %s is %s' % (clip(show(a), 200), v))
        lints = []
        swept = False
        if not only:
            lints = _l.run_for(pid, P)
            swept = bool(lints)
            if obs and pid != 'P21':
                lints.append(_l.remembered(P, set(f for o in obs for f in o.funcs)))
                lints.append(_l.widths(P, set(f for o in obs for f in o.funcs)))
                lints.append(_l.collected(P, set(f for o in obs for f in o.funcs)))
    except AnchorMissing as e:
        print('ANALYSIS-BROKEN: anchor not found: %s' % e)
        return 2
    if P.errors:
        print('ANALYSIS-BROKEN: cannot parse %s' % P.errors)
        return 2
    viol = []      # (key, text, detail lines)
    for o in obs:
        if o.status == 'violated':
            seen = set()
            for path, x, y, conds, where in o.diffs:
                key = o.name + ':' + re.sub(r'\s+', '_', path)
                if key in seen:
                    continue
                seen.add(key)
                viol.append((key, '%s: %s differs from the specification (%s)' % (o.name, path, where or ', '.join(o.funcs[:3])),
                             ['rule: ' + rule_of(P, o.name), 'functions analysed: ' + ', '.join(o.funcs), 'construct: %s' % (where or '?'),
                              'the code computes:  ' + clip(show(x), 3000), 'the property needs: ' + clip(show(y), 3000)] +
                             ['when %s is %s' % (clip(show(a), 400), v) for a, v in conds]))
    nl = 0
    for L in lints:
        nl += L.instances
        for key, text, lines in L.findings:
            viol.append((key, text, lines))
        if L.instances < L.minimum:
            print('ANALYSIS-BROKEN: rule %s matched %d instances, at least %d expected' % (L.name, L.instances, L.minimum))
            return 2
    if not obs and not lints:
        print('ANALYSIS-BROKEN: no obligations for %s' % pid)
        return 2
    new = [v for v in viol if (pid, v[0]) not in known]
    for v in viol:
        if (pid, v[0]) in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, v[0])]))
    os.makedirs(os.path.join(EVID), exist_ok=True)
    und = [o for o in obs if o.status == 'undecided']
    funcs = sorted(set(f for o in obs for f in o.funcs))
    mods = set(k for k in P.used if k.startswith('resippy'))
    if swept:
        fs, ms = _l.analysed(P)
        funcs = sorted(set(funcs) | fs)
        mods |= ms
    cov = {
        'explanation': 'Abstract interpretation of the current source into a normal-form value graph; each obligation compares the graph of the '
                       'public API (all helpers inlined, every branch joined, loops summarised) with the graph of the reference formula over the same '
                       'symbolic inputs. Lint rules are queries over the resolved syntax tree.',
        'obligations': len(obs), 'discharged': len([o for o in obs if o.status == 'ok']),
        'undecided': [{'obligation': o.name, 'reason': o.detail} for o in und],
        'compared_leaves': sum(getattr(o, 'leaves', 0) for o in obs),
        'functions_analysed': funcs,
        'modules': sorted(mods),
        'rule': 'value-graph normal forms of code and specification are identical on every gated leaf',
        'samples': [{'obligation': o.name, 'status': o.status, 'functions': len(o.funcs), 'leaves': getattr(o, 'leaves', 0)} for o in obs],
        'lint_rules': [{'rule': L.name, 'instances': L.instances, 'minimum': L.minimum, 'findings': len(L.findings), 'what': L.what} for L in lints],
        'known_findings': len(viol) - len(new),
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ['library functions (numpy, gdal, pyproj, ...) behave as modelled or are uninterpreted',
                          'arithmetic is exact real arithmetic; rounding is not analysed'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if not only:
        with open(os.path.join(EVID, pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d lint instances, %d functions, %d modules, %.1fs' % (
        pid, len(obs), cov['discharged'], len(und), nl, len(funcs), len(cov['modules']), time.time() - t0))
    for o in und:
        print('UNDECIDED: %s %s' % (o.name, clip(o.detail, 300)))
    if new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as h:
            for key, text, lines in new:
                h.write('%s\n  key: %s\n' % (text, key))
                for l in lines:
                    h.write('  %s\n' % l)
                h.write('\n')
        for key, text, lines in new:
            print('  %s' % text)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def rule_of(P, oname):
    mod, name = oname.split('.', 1)
    m = P.modules['specs.' + mod]
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == name + '__spec':
            return ' '.join((ast.get_docstring(n) or name).split())
    return name


if __name__ == '__main__':
    try:
        r = main(sys.argv)
    except Exception:
        traceback.print_exc()
        r = 3
    sys.exit(r)
