# target: ocelot/transformations/parameterization/implicit_references.py
def _find_references(kind, formula):
    pattern = REFERENCE_REGULAR_EXPRESSIONS[kind]
    found = []
    for match in pattern.finditer(formula):
        found.append((match.group(0), match.group('uuid')))
    return found


def get_exchange_reference(formula):
    return _find_references('exchange', formula)


def get_production_volume_reference(formula):
    return _find_references('pv', formula)


def find_exchange_or_parameter_by_id(dataset, uuid):
    candidates = list(dataset['exchanges']) + list(dataset.get('parameters', []))
    for obj in candidates:
        if obj['id'] == uuid:
            return obj
    raise ValueError("Exchange id {} not found in dataset".format(uuid))


def find_production_volume_by_id(dataset, uuid):
    exc = next((e for e in dataset['exchanges'] if e['id'] == uuid), None)
    if exc is None:
        raise ValueError("Exchange id {} not found in dataset".format(uuid))
    if 'production volume' not in exc:
        raise ValueError("Referenced exchange does not have a prod. volume")
    return exc['production volume']


def _ensure_variable(reference, prefix, uuid):
    if 'variable' not in reference:
        reference['variable'] = prefix + uuid.replace("-", "")
    return reference['variable']


def _log_replacement(ds, string, variable):
    logger.info({
        'type': 'table element',
        'data': (ds['name'], string, variable)
    })


def replace_implicit_references(data):
    for ds in data:
        for obj in iterate_all_parameters(ds):
            if 'formula' in obj:
                for string, uuid in get_exchange_reference(obj['formula']):
                    variable = _ensure_variable(
                        find_exchange_or_parameter_by_id(ds, uuid),
                        "ref_replacement_",
                        uuid
                    )
                    _log_replacement(ds, string, variable)
                    obj['formula'] = obj['formula'].replace(string, variable)
                for string, uuid in get_production_volume_reference(obj['formula']):
                    variable = _ensure_variable(
                        find_production_volume_by_id(ds, uuid),
                        "ref_pv_replacement_",
                        uuid
                    )
                    _log_replacement(ds, string, variable)
                    obj['formula'] = obj['formula'].replace(string, variable)
    return data
# target: ocelot/transformations/parameterization/known_ecoinvent_issues.py
def _substitute(ds, bad, good):
    for param in iterate_all_parameters(ds):
        formula = param.get('formula', '')
        if bad not in formula:
            continue
        text = "{} ({}): Changed {} to {}".format(ds['name'], ds['location'], bad, good)
        logger.info({'type': 'list element', 'data': text})
        param['formula'] = formula.replace(bad, good)


def fix_known_bad_formula_strings(data):
    for ds in data:
        relevant = [(bad, good) for name, bad, good in KNOWN_SUBSTITUTIONS if name == ds['name']]
        for bad, good in relevant:
            _substitute(ds, bad, good)
    return data


def _is_empty_refinery_gas(exc):
    return exc['name'] == 'refinery gas' and not exc['amount']


def fix_specific_ecoinvent_issues(data):
    for ds in data:
        if ds['name'] == "petroleum refinery operation":
            original = ds['exchanges']
            kept = [exc for exc in original if not _is_empty_refinery_gas(exc)]
            ds['exchanges'] = kept
            if len(kept) != len(original):
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], ds['location'], len(original), len(kept))
                })
    return data
# target: ocelot/transformations/parameterization/production_volumes.py
def _shifted_parameter(exc, pv):
    variable = pv.pop('variable')
    parameter = {
        'unit': exc['unit'],
        'id': str(uuid.uuid4()),
        'name': "Shifted PV parameter: {}".format(variable),
        'variable': variable,
        'amount': pv['amount']
    }
    if 'formula' in pv:
        parameter['formula'] = pv.pop('formula')
    return parameter


@single_input
def create_pv_parameters(dataset):
    for exc in dataset['exchanges']:
        pv = exc.get("production volume")
        if pv and 'variable' in pv:
            new_parameter = _shifted_parameter(exc, pv)
            logger.info({
                'type': 'table element',
                'data': (dataset['name'], new_parameter['name'], new_parameter['amount'])
            })
            dataset['parameters'].append(new_parameter)
        elif pv:
            pv.pop('formula', None)
    return [dataset]
# target: ocelot/transformations/parameterization/recalculation.py
def extract_named_parameters(dataset):
    named = {}
    for obj in iterate_all_parameters(dataset):
        if 'variable' not in obj:
            continue
        values = {}
        for key in ('amount', 'formula'):
            if obj.get(key) is not None:
                values[key] = obj[key]
        named[obj['variable']] = values
    return named


def _evaluate(interpreter, formula):
    try:
        return interpreter(formula)
    except ZeroDivisionError:
        return 0


class TolerantParameterSet(ParameterSet):
    def evaluate(self):
        interpreter = Interpreter()
        result = {}
        for key in self.order:
            param = self.params[key]
            if param.get('formula'):
                value = _evaluate(interpreter, param['formula'])
            elif 'amount' in param:
                value = param['amount']
            else:
                raise ValueError("No suitable formula or static amount found "
                                 "in {}".format(key))
            result[key] = value
            interpreter.symtable[key] = value
        return result


def _repair_uncertainties(dataset):
    for obj in iterate_all_uncertainties(dataset):
        if not obj.get('uncertainty'):
            continue
        get_uncertainty_class(obj).repair(obj)


def recalculate(dataset):
    values = TolerantParameterSet(extract_named_parameters(dataset)).evaluate()
    interpreter = Interpreter()
    for name in values:
        interpreter.symtable[name] = values[name]
    for exc in iterate_all_parameters(dataset):
        if 'formula' in exc:
            exc['amount'] = _evaluate(interpreter, exc['formula'])
        elif 'variable' in exc:
            exc['amount'] = interpreter.symtable[exc['variable']]
        else:
            raise ValueError
    _repair_uncertainties(dataset)
    return dataset


RECALCULATION_ERRORS = (ParameterError, ZeroDivisionError, TypeError, DuplicateName)


def recalculate_all_parameterized_datasets(data):
    for ds in data:
        try:
            recalculate(ds)
        except RECALCULATION_ERRORS as error:
            row = (ds['name'], ds['reference product'], ds['location'])
            logger.info({'type': 'table element', 'data': row})
            detailed.info({
                'ds': ds,
                'message': "Parameter recalculation error: {}".format(error),
                'function': 'recalculate'
            })
    return data
# target: ocelot/transformations/parameterization/uncertainty.py
def repair_all_uncertainty_distributions(data):
    uncertain = (obj for ds in data for obj in iterate_all_uncertainties(ds) if obj.get('uncertainty'))
    for obj in uncertain:
        distribution = get_uncertainty_class(obj)
        distribution.repair(obj)
    return data
# target: ocelot/transformations/parameterization/validation.py
def _check_dataset(ds):
    seen = set()
    for param in iterate_all_parameters(ds):
        name = param.get('variable')
        if not name:
            continue
        if name in seen:
            raise ParameterizationError(
                "Variable named {} used twice in dataset:\n{}".format(name, ds)
            )
        seen.add(name)


def variable_names_are_unique(data):
    for ds in data:
        _check_dataset(ds)
    return data
