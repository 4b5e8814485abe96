from ...errors import UnparsableFormula
from ..utils import iterate_all_parameters
from copy import deepcopy
import ast
import logging
import re
logger = logging.getLogger('ocelot')
KNOWN_MATH_SUBSTITUTIONS = (('%', 'e-2'), ('^', '**'), ('\r\n', ''))
RESERVED_WORDS = {'and', 'as', 'assert', 'break', 'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'False', 'finally', 'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'None', 'nonlocal', 'not', 'or', 'pass', 'raise', 'return', 'True', 'try', 'while', 'with', 'yield'}
RESERVED_WORDS_RE = [(word, re.compile('(?<![a-zA-Z_]){}(?![a-zA-Z_])'.format(word))) for word in sorted(RESERVED_WORDS)]
RESERVED_WORDS_STARTING = [(word, re.compile('{}[^a-zA-Z_]'.format(word))) for word in sorted(RESERVED_WORDS)]
IF_RE = re.compile('if\\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\\)')
IF_BEGINNING = re.compile('if\\(')
COMPLETE_IF = re.compile('^if\\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\\)$')
POWER_RE = re.compile('power\\((?P<base>[^;]+);(?P<exponent>[^;]+)\\)')

def find_if_boundaries(string):
    stack = []
    for m in re.finditer('[()]', string):
        pos = m.start()
        character = string[pos]
        if string[pos - 1] == '\\':
            continue
        elif character == '(':
            stack.append(pos + 1)
        elif character == ')':
            prevpos = stack.pop()
            if not stack:
                return (prevpos, pos)
    message = 'Unmatched opening parentheses at position {}:\n\t{}'
    raise ValueError(message.format(stack[0], string))

def replace_if_statement(substring):
    match = COMPLETE_IF.search(substring)
    match_string = match.group(0)
    condition, if_true, if_false = match.groups()
    if if_true == if_false:
        replacement = '({})'.format(if_true.strip())
    else:
        replacement = '(({}) if ({}) else ({}))'.format(if_true, condition, if_false)
    return substring.replace(match_string, replacement)

def find_replace_nested_if_statements(ds, line):
    original = deepcopy(line)
    while IF_BEGINNING.search(line):
        match_positions = []
        for match in IF_BEGINNING.finditer(line):
            start = match.start()
            _, end = find_if_boundaries(line[start:])
            match_positions.append((start, end))
        match_positions.sort(key=lambda x: x[1])
        start, end = match_positions[0]
        line = line[:start] + replace_if_statement(line[start:start + end + 1]) + line[start + end + 1:]
    logger.info({'type': 'table element', 'data': (ds['name'], '', original, line)})
    return line

def find_if_clause(ds, string):
    if string.count('if('):
        return find_replace_nested_if_statements(ds, string)
    else:
        return string

def find_power_clause(ds, string):
    while POWER_RE.search(string):
        match = POWER_RE.search(string)
        match_string = match.group(0)
        as_numbers = [float(x) for x in match.groups()]
        replacement = '(({})**({}))'.format(*as_numbers)
        logger.info({'type': 'table element', 'data': (ds['name'], '', match_string, replacement)})
        string = string.replace(match_string, replacement)
    return string

def fix_math_formulas(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'formula' not in exc:
                continue
            for bad, good in KNOWN_MATH_SUBSTITUTIONS:
                if bad in exc['formula']:
                    logger.info({'type': 'table element', 'data': (ds['name'], exc['formula'], bad, good)})
                    exc['formula'] = exc['formula'].replace(bad, good)
            exc['formula'] = find_if_clause(ds, exc['formula'])
            exc['formula'] = find_power_clause(ds, exc['formula'])
    return data
fix_math_formulas.__table__ = {'title': 'Replace unparsable math elements with their python equivalents', 'columns': ['Activity name', 'Formula', 'Old element', 'New element']}

def lowercase_all_parameters(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'formula' in exc:
                exc['formula'] = exc['formula'].lower()
            if 'variable' in exc:
                exc['variable'] = exc['variable'].lower()
    return data

class NameFinder(ast.NodeVisitor):

    def __init__(self):
        self.names = []
        ast.NodeVisitor.__init__(self)

    def generic_visit(self, node):
        if node.__class__.__name__ == 'Name':
            if node.ctx.__class__ == ast.Load and node.id not in self.names:
                self.names.append(node.id)
        ast.NodeVisitor.generic_visit(self, node)

def get_ast_names(string):
    finder = NameFinder()
    try:
        finder.generic_visit(ast.parse(string))
    except:
        raise UnparsableFormula
    return finder.names

def check_and_fix_formula(ds, string):
    updated = deepcopy(string)
    for word, reg_exp in RESERVED_WORDS_STARTING:
        if reg_exp.match(updated):
            updated = dict(RESERVED_WORDS_RE)[word].sub(word.upper(), updated)
            logger.info({'type': 'table element', 'data': (ds['name'], word, string)})
    try:
        get_ast_names(updated)
        return updated
    except UnparsableFormula:
        found = []
        for word, reg_exp in RESERVED_WORDS_RE:
            if reg_exp.search(updated):
                updated = reg_exp.sub(word.upper(), updated)
                found.append(word)
        try:
            get_ast_names(updated)
            logger.info({'type': 'table element', 'data': (ds['name'], ';'.join(found), string)})
            return updated
        except UnparsableFormula:
            return string

def replace_reserved_words(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'variable' in exc and exc['variable'] in RESERVED_WORDS:
                logger.info({'type': 'table element', 'data': (ds['name'], exc['variable'], exc['variable'])})
                exc['variable'] = exc['variable'].upper()
            if 'formula' in exc:
                exc['formula'] = check_and_fix_formula(ds, exc['formula'])
    return data
replace_reserved_words.__table__ = {'title': 'Uppercase reserved python words like `yield` to avoid parsing errors.', 'columns': ['Activity name', 'Reserved word(s)', 'Problem element']}

def delete_unparsable_formulas(data):
    _ = lambda s: ' '.join([s[i:i + 40] for i in range(0, len(s), 40)])
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'formula' in exc:
                try:
                    get_ast_names(exc['formula'])
                except UnparsableFormula:
                    logger.info({'type': 'table element', 'data': (ds['name'], _(exc['formula']))})
                    del exc['formula']
    return data
delete_unparsable_formulas.__table__ = {'title': 'Delete unparsable formulas.', 'columns': ['Activity name', 'Formula']}
