# target: ocelot/report.py
def _dumps(x):
    return json.dumps(x, ensure_ascii=False)


def jsonize(data):
    counts, times = data['counts'], data['times']
    data['count_labels'] = [str(i) for i in range(len(counts))]
    data['count_data'] = _dumps([count for _, count in counts])
    data['time_labels'] = [str(i) for i in range(len(times))]
    data['time_data'] = _dumps([time for _, time in times])
    functions = data['functions']
    for index in functions:
        section = functions[index]
        if hasattr(section, "tabledata"):
            section["tabledata"] = _dumps(sorted(section["tabledata"]))
            section['table']['columns'] = _dumps(section['table']['columns'])
        section['index'] = index
    data['functions'] = sorted(functions.values(), key=lambda section: section['index'])
    return data


class HTMLReport(object):
    def read_log(self, fp):
        data = {'functions': {}}
        for line in read_json_log(fp):
            self.handle_line(line, data)

        times = data['times']
        started = times[0][1]
        data['elapsed'] = "{:.1f}".format(times[-1][1] - started)
        data['times'] = [(label, moment - started) for label, moment in times]
        return jsonize(data)

    def handle_line(self, line, data):
        kind = line['type']
        if kind == 'report start':
            data['counts'] = [("Start", line['count'])]
            data['times'] = [("Start", line['time'])]
            data['uuid'] = line['uuid']
        elif kind == 'report end':
            data['times'].append(('End', line['time']))
        elif kind == 'function start':
            self._start_function(line, data)
        elif kind == 'function end':
            self._end_function(line, data)
        elif kind == 'table element':
            self._section(data)['tabledata'].append(line['data'])
        elif kind == 'list element':
            self._section(data)['listdata'].append(line['data'])

    def _section(self, data):
        return data['functions'][self.index]

    def _start_function(self, line, data):
        self.index = line['index']
        rows = 'tabledata' if line['table'] else 'listdata'
        data['functions'][self.index] = {'start': line['time'], rows: []}

    def _end_function(self, line, data):
        name = line['name']
        data['counts'].append((name, line['count']))
        data['times'].append((name, line['time']))
        section = self._section(data)
        section['time'] = line['time'] - section['start']
        section['end'] = line['time']
        section['count'] = line['count']
        section['name'] = name
        section['id'] = 'function{}'.format(self.index)
        section['description'] = to_html(line['description'] or '')
        section['table'] = line['table']

    def create_assets_directory(self, base_dir):
        source = os.path.join(data_dir, "assets")
        target = os.path.join(base_dir, "assets")
        if os.path.exists(target):
            shutil.rmtree(target)
        shutil.copytree(source, target)

    def write_page(self, data, base_dir):
        with open(os.path.join(data_dir, "report-template.jinja2")) as f:
            template = jinja2.Template(f.read())
        html = template.render(**data)
        self.report_fp = os.path.join(base_dir, "report.html")
        with open(self.report_fp, "w", encoding='utf-8') as f:
            f.write(html)
# target: ocelot/logger.py
def _dump(message):
    return json.dumps(message, ensure_ascii=False)


class JsonFormatter(logging.Formatter):
    def format(self, record):
        message = record.msg
        assert isinstance(message, dict)
        message.update(time=time.time())
        return _dump(message)


class DatasetJsonFormatter(logging.Formatter):
    def format(self, record):
        assert isinstance(record.msg, dict)
        ds = record.msg['ds']
        described = {
            'id': ds.get('id'),
            'filename': os.path.basename(ds.get('filepath', '')),
            'code': ds.get('code'),
        }
        return _dump({
            'time': time.time(),
            'message': record.msg['message'],
            'function': record.msg['function'],
            'dataset': described,
        })


def remove_handlers(logger):
    for handler in logger.handlers[:]:
        logger.removeHandler(handler)
        handler.close()


def _open_log(name, filepath, formatter):
    handler = logging.FileHandler(filepath, encoding='utf-8')
    handler.setFormatter(formatter)
    logger = logging.getLogger(name)
    logger.propagate = False
    remove_handlers(logger)
    logger.addHandler(handler)
    logger.setLevel(logging.INFO)
    return filepath


def create_log(output_dir):
    return _open_log('ocelot', os.path.join(output_dir, "report.log.json"), JsonFormatter())


def create_detailed_log(output_dir):
    return _open_log('ocelot-detailed', os.path.join(output_dir, "detailed.log.json"), DatasetJsonFormatter())
# target: ocelot/data_helpers.py
def _reference_products(dataset):
    return [x for x in dataset['exchanges'] if x['type'] == 'reference product']


def production_volume(dataset, default=None):
    exchanges = _reference_products(dataset)
    if len(exchanges) == 1:
        pv = exchanges[0].get('production volume', {})
        return pv.get('amount', default)
    return default


def original_production_volume(dataset, default=None):
    exchanges = _reference_products(dataset)
    if len(exchanges) != 1:
        return default
    pv = exchanges[0].get('production volume', {})
    for key in ('original amount', 'amount'):
        if key in pv:
            return pv[key]
    return default


def reference_products_as_string(dataset):
    names = sorted(exc['name'] for exc in _reference_products(dataset))
    return "|".join(names) if names else "None found"
