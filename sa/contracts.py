"""Function contracts: the value graph of a function of the repository must be
the value graph of the reviewed specification of that function.

``specs/`` holds the specification of every transformation in the same
(sub)language as the repository.  It is parsed, never imported or run.  Both
sides are turned into canonical value graphs (see interp.py) and compared; the
comparison is modular: calls to other specified functions are left opaque on
both sides and are checked by those functions' own contracts.
"""
import ast
import os
import re
import signal
import time
import traceback

from .terms import *
from . import terms as TM
from .program import Program
from .interp import Interp, U
from .compare import analyse, Comparer, Mismatch

T_ = 'ocelot.transformations.'
U_ = T_ + 'utils:'

SCALE = T_ + 'uncertainty:scale_exchange'
RECALC = T_ + 'parameterization.recalculation:recalculate'


# ------------------------------------------------------------------ intrinsics
def i_scale(I, bound, node):
    """contract of scale_exchange: amount and uncertainty scaled by the factor"""
    exc, f = bound['exchange'], bound['factor']
    for g, o in leaves(exc, I.pc):
        for k in ('amount', '#uncertainty'):
            kk = mk('const', k)
            old = I.read(o, kk)
            I.add(o, kk, num_bin('*', old, f), guard=b_and(I.pc, g), line=getattr(node, 'lineno', 0))
    return exc


def i_recalculate(I, bound, node):
    """contract of recalculate: every formula of the dataset is evaluated again,
    from the amounts that hold at this point"""
    ds = bound['dataset']
    for g, o in leaves(ds, I.pc):
        def body(v):
            for gg, e in leaves(v, I.pc):
                kk = mk('const', 'amount')
                old = I.read(e, kk)
                fo = I.has(e, mk('const', 'formula'))
                va = I.has(e, mk('const', 'variable'))
                new = lift(lambda t: leaf(mk('call', '#recalculated', t)), old)
                I.add(e, kk, new, guard=b_and(I.pc, gg, b_or(fo, va)), line=getattr(node, 'lineno', 0))
            return FALSE
        exs = I.getitem(leaf(o), const('exchanges'), node)
        I.sub_iterate(exs, body, node)
        kk = mk('const', '#recalculated')
        I.add(o, kk, lift(lambda t: leaf(mk('call', '#recalculated', t)), I.read(o, kk)),
              guard=b_and(I.pc, g), line=getattr(node, 'lineno', 0))
    return ds


ALLOC = T_ + 'locations.markets:allocate_suppliers'


def i_allocate(I, bound, node):
    """allocate_suppliers: recorded with the suppliers at the time of the call"""
    from .interp import Ev
    ds, im, exc = bound['dataset'], bound['is_market'], bound['exc']
    sup = lift(lambda o: I.pure(I.read(o, mk('const', 'suppliers'))), ds)
    I.calls.append(Ev((), I.pc, ALLOC, (I.pure(ds), im, I.pure(exc), sup), getattr(node, 'lineno', 0), I.frame.qual))
    return lift(lambda *t: leaf(mk('call', ALLOC, *t)), I.pure(ds), im, I.pure(exc))


INTRINSICS = {SCALE: i_scale, RECALC: i_recalculate, ALLOC: i_allocate}

TOPO = T_ + 'locations._topology:Topology.'

# Functions with a contract of their own that are left opaque in their callers.
OPAQUE = [TOPO + m for m in (
    'contained', '_contained', 'contains', '_contains', 'ordered_dependencies', '_ordered_dependencies',
    'resolve_row', 'overlaps', 'intersected', 'intersects', '__call__')] + [
    U_ + 'choose_reference_product_exchange',
    U_ + 'activity_hash',
    T_ + 'cutoff.utils:apply_allocation_factors',
    T_ + 'cutoff.economic:economic_allocation',
    T_ + 'cutoff.wastes:waste_treatment_allocation',
    T_ + 'cutoff.wastes:recycling_allocation',
    T_ + 'cutoff.combined:combined_production',
    T_ + 'locations.validation:no_overlaps',
    T_ + 'parameterization.python_compatibility:check_and_fix_formula',
    T_ + 'parameterization.python_compatibility:get_ast_names',
    T_ + 'parameterization.python_compatibility:find_if_clause',
    T_ + 'parameterization.python_compatibility:find_power_clause',
    T_ + 'parameterization.python_compatibility:find_replace_nested_if_statements',
    T_ + 'parameterization.python_compatibility:find_if_boundaries',
    T_ + 'parameterization.python_compatibility:replace_if_statement',
    T_ + 'parameterization.implicit_references:get_exchange_reference',
    T_ + 'parameterization.implicit_references:get_production_volume_reference',
    T_ + 'uncertainty.pedigree:get_pedigree_variance',
    'ocelot.io.extract_ecospold2:extract_ecospold2_directory',
    'ocelot.io.extract_ecospold2:generic_extractor',
    'ocelot.io.extract_ecospold2:extract_ecospold2_dataset',
    'ocelot.io.extract_ecospold2:extract_exchange',
    'ocelot.io.extract_ecospold2:extract_production_volume',
    'ocelot.io.extract_ecospold2:extract_property',
    'ocelot.io.extract_ecospold2:extract_uncertainty',
    'ocelot.io.extract_ecospold2:extract_pedigree_matrix',
    'ocelot.io.extract_ecospold2:extract_parameter',
    'ocelot.io:extract_directory',
    'ocelot.io.cleanup:cleanup_data_directory',
    'ocelot.io.validate_ecospold2:validate_directory',
    'ocelot.io.validate_ecospold2:validate_directory_against_xsd',
    'ocelot.filesystem:check_cache_directory',
    'ocelot.filesystem:get_from_cache',
    'ocelot.filesystem:cache_data',
    'ocelot.filesystem:get_output_directory',
    'ocelot.filesystem:get_cache_directory',
    'ocelot.filesystem:get_base_directory',
    'ocelot.filesystem:get_cache_filepath_for_data_path',
    'ocelot.filesystem:safe_filename',
    'ocelot.filesystem:save_intermediate_result',
    'ocelot.filesystem:save_specific_dataset',
    'ocelot.filesystem:OutputDir',
    'ocelot.logger:create_log',
    'ocelot.logger:create_detailed_log',
    'ocelot.report:HTMLReport',
    'ocelot.report:HTMLReport.handle_line',
    'ocelot.report:HTMLReport.read_log',
    'ocelot.report:HTMLReport.write_page',
    'ocelot.report:HTMLReport.create_assets_directory',
    'ocelot.report:HTMLReport.show_in_webbrowser',
    'ocelot.report:jsonize',
    'ocelot.report:read_json_log',
    'ocelot.results:SaveStrategy',
    'ocelot.model:apply_transformation',
    'ocelot.model:system_model',
    'ocelot.utils:get_function_meta',
    'ocelot.utils:validate_configuration',
]

# calls whose occurrence, guard and arguments are observable effects
EFFECT = re.compile(
    r'^(shutil\.|os\.(remove|unlink|rmdir|removedirs|rename|replace|mkdir|makedirs|utime|truncate|symlink|link|chmod)$'
    r'|pickle\.(dump|load)$|json\.dump$|builtins\.open$|open$|webbrowser\.|sys\.exit$|builtins\.print#'
    r'|pprint\.pprint$|logger\.|\.(apply_strategies|match_database|write_database|setLevel|write|writelines|addHandler|removeHandler|addFilter|removeFilter|setLevel|setFormatter|close|unlink|rmdir|mkdir|rename)$'
    r'|\.repair$|ocelot\.transformations\.locations\.markets:(allocate_suppliers|apportion_market_suppliers)'
    r'|ocelot\.(filesystem|logger|report|io|model|results|utils)[.:])')

PURE_OPAQUE = re.compile(r'^ocelot\.filesystem:(get_cache_filepath_for_data_path|safe_filename|check_cache_directory)$'
                         r'|^ocelot\.utils:get_function_meta$|^ocelot\.results:|^ocelot\.io\.extract_ecospold2:extract_[a-z]+$'
                         r'|extract_(production_volume|pedigree_matrix|isic_classification)$')


class Contract(object):
    def __init__(self, qual, args=None, kwargs=None, inline=(), opaque=(), ret=True, heap=True, raises=True,
                 logs=True, effects=True, ordered=False, ignore=(), intrinsics=None, pre=None, label=None,
                 timeout=120, only=None, oglobals=()):
        self.qual, self.args, self.kwargs = qual, args, kwargs
        self.inline, self.opaque = set(inline), list(opaque)
        self.ret, self.heap, self.raises, self.logs, self.effects = ret, heap, raises, logs, effects
        self.ordered, self.ignore, self.only = ordered, tuple(ignore), only
        self.intrinsics = INTRINSICS if intrinsics is None else intrinsics
        self.label = label or qual
        self.timeout = timeout
        self.oglobals = set(oglobals)

    def opaque_set(self):
        return [q for q in OPAQUE + self.opaque if q not in self.inline and q != self.qual]


# per-function analysis settings (same on both sides)
PRM = T_ + 'parameterization.'
SPECIAL = {
    RECALC: dict(opaque=[U_ + 'iterate_all_parameters', U_ + 'iterate_all_uncertainties',
                         T_ + 'uncertainty:get_uncertainty_class',
                         PRM + 'recalculation:extract_named_parameters', PRM + 'recalculation:TolerantParameterSet']),
    PRM + 'implicit_references:replace_implicit_references': dict(
        opaque=[U_ + 'iterate_all_parameters', PRM + 'implicit_references:find_exchange_or_parameter_by_id',
                PRM + 'implicit_references:find_production_volume_by_id']),
    PRM + 'python_compatibility:check_and_fix_formula': dict(
        oglobals=[PRM + 'python_compatibility:RESERVED_WORDS_STARTING',
                  PRM + 'python_compatibility:RESERVED_WORDS_RE']),
    T_ + 'locations.markets:add_suppliers_to_markets': dict(
        opaque=[T_ + 'locations.markets:apportion_market_suppliers_to_consumers']),
}


def contract(qual, **kw):
    d = dict(SPECIAL.get(qual, {}))
    d.update(kw)
    return Contract(qual, **d)


class Vanished(Exception):
    pass


def params_of(P, qual):
    r = P.function(qual)
    if r is None:
        mod, name = qual.split(':')
        if '.' not in name:
            d = P.find(mod, name)
            if d and d[0] == 'class':
                for st in d[2].body:
                    if isinstance(st, ast.FunctionDef) and st.name == '__init__':
                        return [a.arg for a in st.args.args][1:]
                return []
        return None
    return [a.arg for a in r[1].args.posonlyargs + r[1].args.args] + [a.arg for a in r[1].args.kwonlyargs]


def is_decorator(R, qual):
    r = R.function(qual)
    return r is not None and any(ast.unparse(d) == 'wrapt.decorator' for d in r[1].decorator_list)


def defaults_of(P, qual):
    """parameter index -> (name, default expression, module)"""
    r = P.function(qual)
    if r is None:
        return {}
    a = r[1].args
    pos = a.posonlyargs + a.args
    out = {}
    for i, d in zip(range(len(pos) - len(a.defaults), len(pos)), a.defaults):
        out[pos[i].arg] = (i, d, r[0])
    for k, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[k.arg] = (None, d, r[0])
    return out


def check_defaults(A, B, R, P, qual):
    """values of omitted arguments"""
    out = []
    da, db = defaults_of(R, qual), defaults_of(P, qual)
    ib = dict((v[0], k) for k, v in db.items() if v[0] is not None)
    for name, (i, d, m) in da.items():
        other = db.get(name) or (db.get(ib[i]) if i in ib else None)
        if other is None:
            r = P.function(qual)
            if r[1].args.vararg or r[1].args.kwarg or name not in [a.arg for a in r[1].args.args + r[1].args.kwonlyargs]:
                continue
            out.append(Mismatch('default of parameter %r' % name, TRUE, FALSE, {}, []))
            continue
        try:
            va, vb = A.I.eval_global(m, d), B.I.eval_global(other[2], other[1])
        except Exception:
            continue
        if va is not vb and va.atom is None and vb.atom is None and is_const(va.term):
            unk = [] if vb.term.op in ('const', 'seq', 'tuple', 'dictv', 'alloc') else [vb.term.op]
            out.append(Mismatch('default of parameter %r' % name, va, vb, {}, unk))
    return out


def actual_qual(P, qual):
    mod, name = qual.split(':')
    head = name.split('.')[0]
    r = P.find(mod, head)
    if not r or r[0] not in ('func', 'class'):
        return None
    q = r[1].name + ':' + r[2].name
    return q + name[len(head):]


def run_analysis(P, R, c, suppose=None):
    """P analysed program, R reference program (for signatures)"""
    op = c.opaque_set()
    canon, sigs = {}, {}
    missing = []
    for q in list(op) + [k for k in c.intrinsics if isinstance(k, str)]:
        sg = params_of(R, q)
        if sg is not None:
            sigs[q] = sg
        a = actual_qual(P, q)
        if a is None or params_of(P, q) is None:
            if sg is not None:
                missing.append(q)
            continue
        canon[a] = q
    args = c.args
    if args is None:
        args = [p for p in params_of(R, c.qual)]
    intr = {k: v for k, v in c.intrinsics.items() if k != c.qual}
    if '.' in c.qual.split(':')[1] and args and args[0] == 'self':
        intr[('self', 'self')] = c.qual.rsplit('.', 1)[0]
    res = analyse(P, c.qual, args, c.kwargs, op, intr, canon=canon, sigs=sigs, oglobals=c.oglobals,
                  decorator=is_decorator(R, c.qual), suppose=suppose)
    res.missing = missing
    return res


def ev_seq(I, evs):
    items = []
    for e in evs:
        s = seq(unit(e.guard, leaf(mk('tuple', *[x for x in (e.data or ()) if isinstance(x, N)]))))
        for b in reversed(e.binders):
            s = ordered(b[1], s) if b[0] == 'ord' else seq_for(b[0], b[1], s)
        items.append(s)
    return seq(*items) if items else EMPTY


def compare(A, B, c):
    cmp_ = Comparer(A, B, ignore_keys=c.ignore, ordered=c.ordered, only_keys=c.only)
    cmp_.run(ret=c.ret, heap=c.heap, raises=c.raises)
    live = cmp_.live
    if c.logs:
        for lname in sorted(set(e.name for e in A.I.logs + B.I.logs)):
            if lname == 'ocelot-detailed':
                continue
            cmp_.seq_eq(guard_seq(ev_seq(A.I, [e for e in A.I.logs if e.name == lname]), live),
                        guard_seq(ev_seq(B.I, [e for e in B.I.logs if e.name == lname]), live),
                        'messages logged to %r' % lname, (), {})
    if c.effects:
        names = set(e.name for e in A.I.calls + B.I.calls if EFFECT.search(e.name.replace('finally ', ''))
                    and not PURE_OPAQUE.search(e.name.replace('finally ', '')))
        for n in sorted(names):
            cmp_.seq_eq(guard_seq(ev_seq(A.I, [e for e in A.I.calls if e.name == n]), live),
                        guard_seq(ev_seq(B.I, [e for e in B.I.calls if e.name == n]), live),
                        'calls of %s' % n, (), {})
    return cmp_


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def decide(P, R, c, timeout=None):
    """-> dict(verdict, ...)  verdict in ok / violation / undecided / vanished"""
    t0 = time.time()
    out = {'contract': c.label, 'qual': c.qual}
    if params_of(P, c.qual) is None:
        out.update(verdict='vanished', why='function is gone')
        return out
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout or c.timeout)
    try:
        B = run_analysis(P, R, c)
        A = run_analysis(R, R, c)
        cm = compare(A, B, c)
        mms = cm.mm
        if len(mms) < 40:
            mms = mms + check_defaults(A, B, R, P, c.qual)
        out['obligations'] = cm.count + len(defaults_of(R, c.qual))
        out['functions'] = sorted(B.I.analysed)
        out['updates'] = len(B.I.log)
        out['events'] = len(B.I.calls) + len(B.I.logs) + len(B.I.raises)
        real, unk = [], []
        notes = sorted(set(x[1] for x in B.I.unmodelled) - set(x[1] for x in A.I.unmodelled))
        for m in mms:
            (unk if (m.unknown or notes or B.missing) else real).append(m)
        if real:
            # never report what the comparison cannot even prove of the
            # specification against itself
            A2 = run_analysis(R, R, c)
            flaky = set(m.what for m in compare(A, A2, c).mm)
            keep = [m for m in real if m.what not in flaky]
            unk += [m for m in real if m.what in flaky]
            real = keep
        if real:
            out.update(verdict='violation', why=[m.text() for m in real[:5]], lines=lines_of(B, real), n=len(real))
        elif unk and not notes and not B.missing and single_deviation(P, R, A, c, unk):
            m = unk[0]
            out.update(verdict='violation', why=[m.text()], lines=lines_of(B, unk), n=len(unk))
        elif unk:
            out.update(verdict='undecided', why=[m.text()[:300] + ' unknown=%s' % (m.unknown,) for m in unk[:2]],
                       notes=notes + ['missing ' + x for x in B.missing])
        elif any('filled and read' in x for x in notes):
            out.update(verdict='undecided', why=['what the dictionary holds'], notes=notes)
        else:
            out.update(verdict='ok')
    except Timeout:
        out.update(verdict='undecided', why=['time limit'])
    except Limit as e:
        out.update(verdict='undecided', why=['size limit'])
    except RecursionError:
        out.update(verdict='undecided', why=['recursion limit'])
    except KeyError as e:
        if 'vanished' in str(e):
            out.update(verdict='vanished', why=str(e))
        else:
            out.update(verdict='undecided', why=['internal: ' + traceback.format_exc(limit=-6)])
    except Exception as e:
        out.update(verdict='undecided', why=['internal: ' + traceback.format_exc(limit=-6)])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out['time'] = round(time.time() - t0, 2)
    return out


# deviations that matter whenever they are all that sets the code apart from
# the reference: elements cut from a list that is otherwise gone through in
# full, what earlier rounds of a loop left in a list, equal amounts that are added only once
DEVIATIONS = {'slice': {'slice', 'ord', 'idx', 'spread', 'flat'}, 'once': {'numfn:sum', 'ord', 'spread', 'flat'},
              'carry': {'gspread', 'spread', 'fold', 'flat', 'ord', 'star'}}


def single_deviation(P, R, A, c, unk):
    """without the one deviation the code is the reference"""
    for kind, ops in DEVIATIONS.items():
        if not all(set(m.unknown) <= ops for m in unk) or not any(set(m.unknown) & ops for m in unk):
            continue
        ways = [kind]
        if kind == 'carry':
            ways = [('carry', x) for x in sorted(run_analysis(P, R, c, suppose=('carry', None)).I.left_out)[:4]]
        for way in ways:
            B = run_analysis(P, R, c, suppose=way)
            if not B.I.left_out or B.missing or B.I.left_out & B.I.indexed:
                continue
            if set(x[1] for x in B.I.unmodelled) - set(x[1] for x in A.I.unmodelled):
                continue
            if not compare(run_analysis(R, R, c), B, c).mm:
                return kind
    return None


def lines_of(B, mms):
    """source lines of the code-side updates/events that concern the mismatches"""
    out = set()
    for m in mms:
        for u in B.I.log:
            if u.line and u.key.op == 'const' and repr(u.key.args[0]) in m.what:
                out.add(u.line)
        for e in B.I.calls + B.I.logs + B.I.raises:
            if e.line and str(e.name) and str(e.name) in m.what:
                out.add(e.line)
    return sorted(out)[:12]
