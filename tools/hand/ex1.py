# target: ocelot/io/extract_ecospold2.py
def _add_math(data, obj, variable='variableName', formula='mathematicalRelation'):
    if obj.get(variable):
        data['variable'] = obj.get(variable).strip()
    if obj.get(formula):
        data['formula'] = obj.get(formula).strip()


def _unit(obj):
    if hasattr(obj, 'unitName'):
        return obj.unitName.text
    return "dimensionless"


def extract_parameter(obj):
    param = {
        'name': obj.name.text,
        'id': obj.get('parameterId'),
        'amount': float(obj.get('amount')),
        'unit': _unit(obj),
    }
    if hasattr(obj, "uncertainty"):
        param['uncertainty'] = extract_uncertainty(obj.uncertainty)
    _add_math(param, obj)
    return param


def extract_pedigree_matrix(elem):
    if hasattr(elem, "pedigreeMatrix"):
        matrix = {}
        for key, value in PEDIGREE_LABELS.items():
            matrix[value] = int(elem.pedigreeMatrix.get(key))
        return matrix
    return {}


def extract_uncertainty(unc):
    for label in ('lognormal', 'normal', 'triangular', 'beta', 'uniform', 'undefined', 'binomial', 'gamma'):
        if hasattr(unc, label):
            distribution = getattr(unc, label)
            break
    else:
        raise StopIteration
    data = {}
    for key in distribution.keys():
        data[UNCERTAINTY_MAPPING.get(key, key)] = float(distribution.get(key))
    data['type'] = _(distribution.tag)
    data['pedigree matrix'] = extract_pedigree_matrix(unc)
    if data['type'] in ('lognormal', 'normal') and not data['pedigree matrix']:
        data['pedigree matrix'] = dict.fromkeys(PEDIGREE_LABELS.values(), 5)
    return data


def extract_production_volume(exc):
    data = {'amount': float(exc.get('productionVolumeAmount') or 0)}
    if hasattr(exc, "productionVolumeUncertainty"):
        data['uncertainty'] = extract_uncertainty(exc.productionVolumeUncertainty)
    _add_math(data, exc, 'productionVolumeVariableName', 'productionVolumeMathematicalRelation')
    return data


def _classification(exc):
    found = set()
    for obj in exc.iterchildren():
        if _(obj.tag) == 'classification' and obj.classificationSystem.text == 'By-product classification':
            found.add(obj.classificationValue.text)
    assert len(found) < 2
    return found


def _exchange_type(exc):
    if hasattr(exc, "inputGroup"):
        return INPUT_GROUPS[exc.inputGroup.text]
    return OUTPUT_GROUPS[exc.outputGroup.text]


def extract_exchange(dataset, exc):
    kind = _exchange_type(exc)
    data = {
        'id': exc.get('id'),
        'tag': _(exc.tag),
        'name': exc.name.text,
        'unit': exc.unitName.text,
        'amount': float(exc.get('amount')),
        'type': kind,
    }
    link = exc.get('activityLinkId')
    if link:
        data['activity link'] = link

    classification = _classification(exc)
    if classification:
        data['byproduct classification'] = BYPRODUCT_CLASSIFICATION[classification.pop()]

    _add_math(data, exc)

    data['properties'] = [extract_property(obj)
                          for obj in exc.iterchildren()
                          if _(obj.tag) == 'property']

    environment = 'environment' in kind
    if environment:
        data['compartment'] = exc.compartment.compartment.text
        data['subcompartment'] = exc.compartment.subcompartment.text
    if kind == 'reference product' or kind == 'byproduct':
        data['production volume'] = extract_production_volume(exc)
    if hasattr(exc, "uncertainty"):
        data['uncertainty'] = extract_uncertainty(exc.uncertainty)
    if not environment:
        data['conditional exchange'] = (
            'activity link' in data
            and dataset['type'] == 'market activity'
            and kind == 'byproduct'
            and data['amount'] < 0
        )
    return data


def extract_ecospold2_dataset(elem, filepath):
    description = elem.activityDescription
    activity = description.activity
    admin = elem.administrativeInformation
    generator = admin.dataGeneratorAndPublication
    data = {
        'filepath': filepath,
        'id': activity.get('id'),
        'parent': activity.get('parentActivityId'),
        'name': activity.activityName.text,
        'location': description.geography.shortname.text,
        'type': SPECIAL_ACTIVITY_TYPE[activity.get('specialActivityType')],
        'technology level': TECHNOLOGY_LEVEL[description.technology.get('technologyLevel')],
        'start date': description.timePeriod.get("startDate"),
        'end date': description.timePeriod.get("endDate"),
        'economic scenario': description.macroEconomicScenario.name.text,
        'access restricted': ACCESS_RESTRICTED[generator.get('accessRestrictedTo')],
        'dataset author': generator.get('personName'),
        'data entry': admin.dataEntryBy.get('personName'),
        'ISIC classification': extract_isic_classification(elem),
    }
    children = list(elem.flowData.iterchildren())
    data['parameters'] = [extract_parameter(c) for c in children if 'parameter' in _(c.tag)]
    data['exchanges'] = [extract_exchange(data, c) for c in children if 'Exchange' in _(c.tag)]
    return data


def _spold_files(dirpath):
    return sorted(fn for fn in os.listdir(dirpath) if fn.lower().endswith(".spold"))


def extract_ecospold2_directory(dirpath, use_mp=True):
    if os.name == 'nt':
        use_mp = False
    assert os.path.isdir(dirpath), "Can't find directory {}".format(dirpath)
    filelist = [os.path.join(dirpath, filename) for filename in _spold_files(dirpath)]

    print("Extracting {} undefined datasets".format(len(filelist)))
    if not use_mp:
        data = [generic_extractor(fp) for fp in pyprind.prog_bar(filelist)]
    else:
        start = time()
        with multiprocessing.Pool(
                processes=multiprocessing.cpu_count(),
                initializer=lambda : signal.signal(signal.SIGINT, signal.SIG_IGN)
            ) as pool:
            try:
                data = pool.map(generic_extractor, filelist)
            except KeyboardInterrupt:
                pool.terminate()
                raise KeyboardInterrupt
        print("Extracted {} undefined datasets in {:.1f} seconds".format(len(data), time() - start))

    result = []
    for datasets in data:
        result.extend(datasets)
    return result
# target: ocelot/io/brightway2.py
def _linked(exc, kind, amount, database_name):
    return {
        'type': kind,
        'amount': amount,
        'input': (database_name, exc['code'])
    }


def refinery_gas_is_the_bane_of_my_existence(exc):
    if exc['name'] != 'refinery gas':
        return True
    return exc.get('code')


class Brightway2Converter:
    @staticmethod
    def convert_to_brightway2(data, database_name):
        for ds in data:
            yield Brightway2Converter.translate_activity(ds, database_name)

    @staticmethod
    def translate_activity(ds, database_name):
        FIELDS = ("code", "economic scenario", "end date", "filepath",
                  "location", "name", "start date", "technology level",
                  'dataset author', 'data entry')
        data = {}
        for field in FIELDS:
            data[field] = ds[field]
        rp = get_single_reference_product(ds)
        data.update({
            'database': database_name,
            'unit': rp['unit'],
            'reference product': rp['name'],
            'production amount': rp['amount'],
        })
        exchanges = []
        for exc in ds['exchanges']:
            if not exc['amount'] or not refinery_gas_is_the_bane_of_my_existence(exc):
                continue
            exchanges.append(Brightway2Converter._translate(exc, database_name))
        data['exchanges'] = exchanges
        return data

    @staticmethod
    def _translate(exc, database_name):
        kind = exc['type']
        if kind == 'reference product':
            return Brightway2Converter.translate_production_exchange(exc, database_name)
        if kind == 'byproduct':
            return Brightway2Converter.translate_byproduct_exchange(exc, database_name)
        if kind == 'from technosphere':
            return Brightway2Converter.translate_technosphere_exchange(exc, database_name)
        if kind in ('from environment', 'to environment'):
            return Brightway2Converter.translate_biosphere_exchange(exc, database_name)
        raise KeyError(kind)

    def translate_technosphere_exchange(exc, database_name):
        return _linked(exc, "technosphere", exc['amount'], database_name)

    def translate_production_exchange(exc, database_name):
        return _linked(exc, "production", exc['amount'], database_name)

    def translate_byproduct_exchange(exc, database_name):
        return _linked(exc, "technosphere", -exc['amount'], database_name)
