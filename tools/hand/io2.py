# target: ocelot/bin/ocelot_cli.py
def _run_model(args):
    system_model(
        args["<dirpath>"],
        args['<config>'],
        show=not args['--noshow'],
        save_strategy=args['--save'],
        follow=args['--follow']
    )


def _validate_xsd(args):
    schema = args['<schema>']
    if not schema:
        schema = os.path.join(data_dir, 'EcoSpold02.xsd')
    validate_directory_against_xsd(args['<dirpath>'], schema)


def main():
    try:
        args = docopt(__doc__, version='Ocelot open source linker CLI 0.2')
        if args['run']:
            _run_model(args)
            return
        if args['validate']:
            validate_directory(args['<dirpath>'])
            return
        if args['xsd']:
            _validate_xsd(args)
            return
        if not args['cleanup']:
            raise ValueError
        cleanup_data_directory()
    except KeyboardInterrupt:
        print("Terminating Ocelot CLI")
        sys.exit(1)
# target: ocelot/io/validate_ecospold2.py
def _spold_files(dirpath):
    for filename in os.listdir(dirpath):
        if filename.lower().endswith(".spold"):
            yield os.path.join(dirpath, filename)


def validate_directory_against_xsd(dirpath, schema):
    assert os.path.isdir(dirpath), "Can't find data directory {}".format(dirpath)
    assert os.path.isfile(schema), "Can't find schema file {}".format(schema)
    filelist = list(_spold_files(dirpath))
    print("Validating {} undefined datasets".format(len(filelist)))
    ecospold2_schema = etree.XMLSchema(etree.parse(open(schema)))
    errors = [os.path.basename(fp) for fp in pyprind.prog_bar(filelist)
              if not ecospold2_schema.validate(etree.parse(open(fp)))]
    if not errors:
        print("All files valid")
        return
    print("The following files did not validate:")
    pprint.pprint(errors)


def _write_errors(logfile, dirpath, errors):
    with open(logfile, "w", encoding='utf-8') as f:
        f.write("Internal validation errors for extracted directory:\n{}\n".format(dirpath))
        f.write(pprint.pformat(errors, width=120, compact=True))


def validate_directory(dirpath):
    data = extract_directory(dirpath, False)
    errors = {}
    print("Validating datasets:")
    for ds in pyprind.prog_bar(data):
        try:
            dataset_schema(ds)
        except Invalid as err:
            errors[err.msg] = (err.path, ds)
    if not errors:
        print("No errors found")
        return
    logfile = "ocelot-validation-errors.log"
    rows = [(msg, path, ds) for msg, (path, ds) in errors.items()]
    print("{} errors found.\nSee error logfile {} for details.".format(len(rows), logfile))
    _write_errors(logfile, dirpath, rows)
# target: ocelot/io/extract_ecospold2.py
NAMESPACE = "{http://www.EcoInvent.org/EcoSpold02}"


def _(string):
    return string.replace(NAMESPACE, "")


def extract_isic_classification(elem):
    for child in elem.activityDescription.iterchildren():
        if 'classification' not in _(child.tag):
            continue
        if 'ISIC' in child.classificationSystem.text:
            return child.classificationValue.text
    return None


def _unit(obj):
    return obj.unitName.text if hasattr(obj, 'unitName') else "dimensionless"


def extract_property(prop):
    data = dict(
        id=prop.get('propertyId'),
        amount=float(prop.get('amount')),
        name=prop.name.text,
        unit=_unit(prop),
    )
    if hasattr(prop, "uncertainty"):
        data['uncertainty'] = extract_uncertainty(prop.uncertainty)
    variable = prop.get("variableName")
    if variable:
        data['variable'] = variable
    formula = prop.get("mathematicalRelation")
    if formula:
        data['formula'] = formula.strip()
    return data


def extract_parameter(obj):
    param = {'name': obj.name.text, 'id': obj.get('parameterId')}
    param['amount'] = float(obj.get('amount'))
    param['unit'] = _unit(obj)
    if hasattr(obj, "uncertainty"):
        param['uncertainty'] = extract_uncertainty(obj.uncertainty)
    for field, attribute in (('variable', 'variableName'), ('formula', 'mathematicalRelation')):
        value = obj.get(attribute)
        if value:
            param[field] = value.strip()
    return param
# target: ocelot/io/brightway2.py
def refinery_gas_is_the_bane_of_my_existence(exc):
    if exc['name'] != 'refinery gas':
        return True
    return exc.get('code')
# target: ocelot/results.py
class SaveStrategy(object):
    DEFAULT = 1000

    def __init__(self, arg=None):
        self.func = self.parse(arg)

    def __call__(self, index):
        return self.func(index)

    def parse(self, arg):
        if arg is None:
            return lambda x: x % self.DEFAULT == 0
        if ":" in str(arg):
            return self._parse_range(arg)
        return self._parse_interval(arg)

    def _parse_interval(self, arg):
        try:
            interval = int(arg)
        except:
            raise ValueError("Can't parse {} as integer".format(arg))
        if interval < 1:
            raise ValueError("Input value must be >= 1")
        return lambda x: x % interval == 0

    def _parse_range(self, arg):
        try:
            numbers = [int(x) for x in arg.split(":")]
        except:
            raise ValueError("Can't split and parse integers from {}".format(arg))
        numbers[1] += 1
        possibles = range(*numbers)
        return lambda x: x in list(possibles)
# target: ocelot/report.py
def read_json_log(fp):
    with open(fp, encoding='utf-8') as f:
        yield from (json.loads(line) for line in f)
