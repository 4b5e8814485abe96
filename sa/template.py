"""Rule `template`: the report page shows every line the report collected.

The Jinja template is read as a tree of loops and conditions.  Every expression
it prints is turned into a path into the report's data (`functions[*].tabledata[*][*]`)
together with the conditions around it.  What the page has to show is a list of such
paths; one that is missing, printed through a filter or slice that loses data, or
printed only for some elements is a finding.
"""
import os
import re

WHERE = 'ocelot/data/report-template.jinja2'

REQUIRED = [
    ('uuid', None), ('elapsed', None),
    ('functions[*].id', None), ('functions[*].name', None), ('functions[*].time', None),
    ('functions[*].count', None), ('functions[*].description', None),
    ('functions[*].table.title', 'functions[*].table'),
    ('functions[*].table.columns[*]', 'functions[*].table'),
    ('functions[*].tabledata[*][*]', 'functions[*].table'),
    ('functions[*].listdata[*]', 'not functions[*].table'),
    ('time_data', None), ('time_labels', None), ('count_data', None), ('count_labels', None),
]
HARMLESS = {'safe', 'e', 'escape', 'forceescape', 'string', 'list', 'urlize'}
NUMBERS = {'int', 'round', 'float'}
LOSSY = {'truncate', 'first', 'last', 'length', 'count', 'unique', 'batch', 'slice', 'select', 'reject', 'selectattr',
         'rejectattr', 'min', 'max', 'sum', 'random', 'wordcount'}
TOKEN = re.compile(r'\{#.*?#\}|\{%.*?%\}|\{\{.*?\}\}', re.S)
NAME = r'[A-Za-z_]\w*'


class Unknown(Exception):
    pass


def parse(text):
    """[(kind, argument, children, line)]; kind: for, if, out"""
    root = []
    stack = [('root', None, root)]
    sets = []
    for m in TOKEN.finditer(text):
        t, line = m.group(0), text.count('\n', 0, m.start()) + 1
        if t.startswith('{#'):
            continue
        body = t[2:-2].strip('-+').strip()
        if t.startswith('{{'):
            stack[-1][2].append(('out', body, None, line))
            continue
        word = body.split(None, 1)[0] if body else ''
        rest = body[len(word):].strip()
        if word == 'for':
            kids = []
            stack[-1][2].append(('for', rest, kids, line))
            stack.append(('for', rest, kids))
        elif word == 'if':
            kids = []
            stack[-1][2].append(('if', [rest], kids, line))
            stack.append(('if', [rest], kids))
        elif word in ('elif', 'else'):
            kind, arg, _ = stack.pop()
            kids = []
            if kind == 'if':
                conds = ['not ' + arg[-1] if not arg[-1].startswith('not ') else arg[-1][4:]]
                conds = arg[:-1] + conds + ([rest] if word == 'elif' else [])
                stack[-1][2].append(('if', conds, kids, line))
                stack.append(('if', conds, kids))
            else:                                    # for ... else: the collection is empty
                stack.append(('for', arg, kids))
        elif word in ('endif', 'endfor'):
            if len(stack) < 2:
                raise Unknown('unbalanced ' + word)
            stack.pop()
        elif word == 'set' and '=' in rest:
            stack[-1][2].append(('set', rest, None, line))
        else:
            raise Unknown('tag ' + word)
    if len(stack) != 1:
        raise Unknown('unbalanced tags')
    return root


def path_of(expr, env):
    """(path, filters) of an expression, or None"""
    parts = [x.strip() for x in expr.split('|')]
    base, filters = parts[0], [re.split(r'[\s(]', f)[0] for f in parts[1:]]
    while base.startswith('(') and base.endswith(')'):
        base = base[1:-1].strip()
    m = re.match(NAME, base)
    if not m:
        return None
    path, rest = env.get(m.group(0), (m.group(0), ()))
    filters = list(rest) + filters
    i = m.end()
    while i < len(base):
        k = re.compile(r'\s*\.\s*(\w+)').match(base, i)
        if k:
            if base[k.end():k.end() + 1] == '(':
                if k.group(1) in ('values',):
                    return None
                return None
            path += '.' + k.group(1)
            i = k.end()
            continue
        k = re.compile(r'''\s*\[\s*(['"])(\w+)\1\s*\]''').match(base, i)
        if k:
            path += '.' + k.group(2)
            i = k.end()
            continue
        k = re.compile(r'\s*\[\s*(\d+)\s*\]').match(base, i)
        if k:
            path += '.' + k.group(1)
            i = k.end()
            continue
        k = re.compile(r'\s*\[([^\]]*:[^\]]*)\]').match(base, i)
        if k:
            if k.group(1).strip() not in (':', '::'):
                filters.append('slice')
            i = k.end()
            continue
        return None
    return path, filters


def condition(c, env):
    neg = c.startswith('not ')
    b = c[4:].strip() if neg else c.strip()
    for suffix in (' is defined', ' is not none'):
        if b.endswith(suffix):
            b = b[:-len(suffix)]
    p = path_of(b, env)
    if p is None or p[1]:
        return ('not ' if neg else '') + '?' + b
    return ('not ' if neg else '') + p[0]


def outputs(nodes, env=None, conds=(), filters=()):
    env = dict(env or {})
    for kind, arg, kids, line in nodes:
        if kind == 'out':
            p = path_of(arg, env)
            if p is None:
                yield None, (), conds, arg, line
            else:
                yield p[0], tuple(p[1]) + tuple(filters), conds, arg, line
        elif kind == 'set':
            n, v = [x.strip() for x in arg.split('=', 1)]
            p = path_of(v, env)
            env.pop(n, None)
            if p is not None:
                env[n] = (p[0], tuple(p[1]))
            else:
                env[n] = ('?' + v, ())
        elif kind == 'for':
            m = re.match(r'(%s)\s+in\s+(.*)$' % NAME, arg, re.S)
            if not m:
                yield None, (), conds, 'for ' + arg, line
                continue
            src = re.split(r'\s+recursive\s*$', m.group(2))[0]
            extra = ()
            k = re.match(r'(.*?)\s+if\s+(.*)$', src, re.S)
            if k:
                src = k.group(1)
            p = path_of(src, env)
            inner = dict(env)
            inner['loop'] = ('loop', ())
            if p is None:
                inner[m.group(1)] = ('?' + src, ())
            else:
                inner[m.group(1)] = (p[0] + '[*]', tuple(p[1]))
            if k:
                extra = (condition(k.group(2), inner),)
            yield from outputs(kids, inner, conds + extra, filters)
        else:
            yield from outputs(kids, env, conds + tuple(condition(c, env) for c in arg), filters)


def judge(path, need, filters, conds):
    """'' when shown as required, 'undecided', or what is lost"""
    for f in filters:
        if f in LOSSY:
            return 'through "%s", which loses data' % f
    unknown = False
    for f in filters:
        if f in HARMLESS or f in NUMBERS and path.split('.')[-1] in ('time', 'count'):
            continue
        unknown = True
    for c in conds:
        if c == need:
            continue
        bare = c[4:] if c.startswith('not ') else c
        if bare.startswith('?'):
            if re.search(r'\bloop\s*\.', bare):
                return 'only when "%s"' % c.replace('?', '')
            unknown = True
            continue
        if bare.startswith('loop.'):
            return 'only when "%s"' % c
        if c.startswith('not '):
            if bare == need or path == bare or path.startswith(bare):
                return 'only when "%s"' % c
            unknown = True
            continue
        if need and need == 'not ' + c:
            return 'only when "%s"' % c
        if path == bare and path.endswith('[*]'):
            return 'only when it is not empty or zero'
        if path == bare or path.startswith(bare + '.') or path.startswith(bare + '['):
            continue
        # the table layout and the table rows exist together
        if need and bare.rsplit('.', 1)[0] == 'functions[*]' and bare.endswith(('tabledata', 'listdata')) and bare in path:
            continue
        if bare == 'functions[*].tabledata' and need == 'functions[*].table':
            unknown = True
            continue
        unknown = True
    return 'undecided' if unknown else ''


def rule_template(P, R):
    fp = os.path.join(P.root, WHERE)
    if not os.path.exists(fp):
        return [], [], ['%s is gone' % WHERE]
    text = open(fp, encoding='utf-8').read()
    try:
        out = list(outputs(parse(text)))
    except Unknown as e:
        return [], [], ['%s: %s' % (WHERE, e)]
    bad, cov, und = [], [], []
    opaque = any(p is None or '?' in p for p, _, _, _, _ in out)
    for path, need in REQUIRED:
        got = [(judge(path, need, f, c), line) for p, f, c, _, line in out if p == path]
        cov.append('%s shown%s' % (path, ' if %s' % need if need else ''))
        if any(g == '' for g, _ in got):
            continue
        if any(g == 'undecided' for g, _ in got) or opaque and not got:
            und.append('%s: %s' % (WHERE, path))
        elif got:
            bad.append({'where': '%s:%d' % (WHERE, got[0][1]), 'what': 'the report shows %s %s' % (path, got[0][0])})
        else:
            bad.append({'where': WHERE, 'what': 'the report never shows %s' % path})
    # table cells stand under the columns they were declared for: no second print of a row
    return bad, cov, und
