# target: ocelot/transformations/parameterization/python_compatibility.py
def find_if_boundaries(string):
    opened = []
    for match in re.finditer(r'[()]', string):
        position = match.start()
        if string[position - 1] == '\\':
            continue
        if string[position] == "(":
            opened.append(position + 1)
        elif string[position] == ")":
            start = opened.pop()
            if len(opened) == 0:
                return start, position
    raise ValueError("Unmatched opening parentheses at position {}:\n\t{}".format(opened[0], string))


def replace_if_statement(substring):
    match = COMPLETE_IF.search(substring)
    condition, if_true, if_false = match.groups()
    if if_true != if_false:
        replacement = "(({}) if ({}) else ({}))".format(if_true, condition, if_false)
    else:
        replacement = "(" + if_true.strip() + ")"
    return substring.replace(match.group(0), replacement)


def _smallest_if(line):
    positions = [
        (match.start(), find_if_boundaries(line[match.start():])[1])
        for match in IF_BEGINNING.finditer(line)
    ]
    return min(positions, key=lambda pair: pair[1])


def find_replace_nested_if_statements(ds, line):
    original = line
    while IF_BEGINNING.search(line):
        start, length = _smallest_if(line)
        stop = start + length + 1
        line = line[:start] + replace_if_statement(line[start:stop]) + line[stop:]
    logger.info({
        'type': 'table element',
        'data': (ds['name'], '', original, line)
    })
    return line


def find_if_clause(ds, string):
    if "if(" not in string:
        return string
    return find_replace_nested_if_statements(ds, string)


def find_power_clause(ds, string):
    match = POWER_RE.search(string)
    while match:
        base, exponent = match.groups()
        replacement = "(({})**({}))".format(float(base), float(exponent))
        logger.info({
            'type': 'table element',
            'data': (ds['name'], '', match.group(0), replacement)
        })
        string = string.replace(match.group(0), replacement)
        match = POWER_RE.search(string)
    return string


def _fix_formula(ds, formula):
    for bad, good in KNOWN_MATH_SUBSTITUTIONS:
        if bad not in formula:
            continue
        logger.info({
            'type': 'table element',
            'data': (ds['name'], formula, bad, good)
        })
        formula = formula.replace(bad, good)
    return find_power_clause(ds, find_if_clause(ds, formula))


def fix_math_formulas(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'formula' in exc:
                exc['formula'] = _fix_formula(ds, exc['formula'])
    return data


def lowercase_all_parameters(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            for field in ('formula', 'variable'):
                if field in exc:
                    exc[field] = exc[field].lower()
    return data


class NameFinder(ast.NodeVisitor):
    def generic_visit(self, node):
        is_load = node.__class__.__name__ == 'Name' and node.ctx.__class__ == ast.Load
        if is_load and node.id not in self.names:
            self.names.append(node.id)
        ast.NodeVisitor.generic_visit(self, node)


def get_ast_names(string):
    finder = NameFinder()
    try:
        tree = ast.parse(string)
        finder.generic_visit(tree)
    except:
        raise UnparsableFormula
    return finder.names


def _is_parsable(formula):
    try:
        get_ast_names(formula)
    except UnparsableFormula:
        return False
    return True


def check_and_fix_formula(ds, string):
    patterns = dict(RESERVED_WORDS_RE)
    updated = string
    for word, reg_exp in RESERVED_WORDS_STARTING:
        if reg_exp.match(updated):
            updated = patterns[word].sub(word.upper(), updated)
            logger.info({
                'type': 'table element',
                'data': (ds['name'], word, string)
            })
    if _is_parsable(updated):
        return updated

    found = []
    for word, reg_exp in RESERVED_WORDS_RE:
        if reg_exp.search(updated):
            updated = reg_exp.sub(word.upper(), updated)
            found.append(word)
    if not _is_parsable(updated):
        return string
    logger.info({
        'type': 'table element',
        'data': (ds['name'], ";".join(found), string)
    })
    return updated


def replace_reserved_words(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            variable = exc.get('variable')
            if variable in RESERVED_WORDS:
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], variable, variable)
                })
                exc['variable'] = variable.upper()
            if 'formula' in exc:
                exc['formula'] = check_and_fix_formula(ds, exc['formula'])
    return data


def _with_breaks(text, width=40):
    return " ".join(text[i:i + width] for i in range(0, len(text), width))


def delete_unparsable_formulas(data):
    for ds in data:
        for exc in iterate_all_parameters(ds):
            if 'formula' not in exc:
                continue
            try:
                get_ast_names(exc['formula'])
            except UnparsableFormula:
                formula = exc.pop('formula')
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], _with_breaks(formula))
                })
    return data
