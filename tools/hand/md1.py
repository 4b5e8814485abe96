# target: ocelot/model.py
def _is_group(function):
    return isinstance(function, Iterable) and not isinstance(function, wrapt.FunctionWrapper)


def _apply_single(function, index, data, output_dir, save_strategy, follow):
    metadata = get_function_meta(function)
    name = metadata['name']
    start = dict(metadata, index=index, type="function start", count=len(data))
    logger.info(start)
    print("Applying transformation {}".format(name))

    data = function(data)

    if save_strategy(index):
        save_intermediate_result(output_dir, index, data, name)
    if follow:
        save_specific_dataset(output_dir, index, data, follow, name)

    end = dict(metadata, index=index, type="function end", count=len(data))
    logger.info(end)
    return data


def apply_transformation(function, counter, data, output_dir, save_strategy, follow):
    if not _is_group(function):
        return _apply_single(function, next(counter), data, output_dir, save_strategy, follow)
    for obj in function:
        data = apply_transformation(obj, counter, data, output_dir, save_strategy, follow)
    return data


def _choose_config(config):
    if not config:
        return cutoff_config
    if isinstance(config, str):
        return mapping.get(config, config)
    return config


def _cancel(output_manager):
    print("Terminating Ocelot model run")
    print("Deleting output directory:\n{}".format(output_manager.directory))
    shutil.rmtree(output_manager.directory)
    sys.exit(1)


def system_model(data_path, config=None, show=False, use_cache=True,
                 save_strategy=None, follow=None):
    print("Starting Ocelot model run")
    config = validate_configuration(_choose_config(config))
    data = extract_directory(data_path, use_cache)
    output_manager = OutputDir(follow=follow)
    directory = output_manager.directory
    try:
        counter = itertools.count()
        logfile_path = create_log(directory)
        create_detailed_log(directory)
        print("Opening log file at: {}".format(logfile_path))
        logger.info({
            'type': 'report start',
            'uuid': output_manager.report_id,
            'count': len(data),
        })

        strategy = SaveStrategy(save_strategy)
        for obj in config:
            data = apply_transformation(obj, counter, data, directory, strategy, follow)

        print("Saving final results")
        save_intermediate_result(directory, "final-results", data)
        logger.info({'type': 'report end'})
        print(("Compare results with: ocelot-compare compare {} "
               "<reference results>").format(output_manager.report_id))
        HTMLReport(logfile_path, show)
    except KeyboardInterrupt:
        _cancel(output_manager)
    return output_manager, data
# target: ocelot/results.py
class SaveStrategy(object):
    def __call__(self, index):
        return self.func(index)

    def parse(self, arg):
        if arg is None:
            return self._every(self.DEFAULT)
        if ":" in str(arg):
            return self._between(arg)
        try:
            step = int(arg)
        except:
            raise ValueError("Can't parse {} as integer".format(arg))
        if step < 1:
            raise ValueError("Input value must be >= 1")
        return self._every(step)

    def _every(self, step):
        return lambda index: index % step == 0

    def _between(self, arg):
        try:
            parts = [int(x) for x in arg.split(":")]
        except:
            raise ValueError("Can't split and parse integers from {}".format(arg))
        parts[1] += 1
        wanted = set(range(*parts))
        return lambda index: index in wanted
# target: ocelot/collection.py
def _nested(func):
    # wrapt decorators are iterable for some reason
    return isinstance(func, Iterable) and not isinstance(func, wrapt.FunctionWrapper)


def unwrap_functions(lst):
    flat = []
    for func in lst:
        if _nested(func):
            flat.extend(unwrap_functions(func))
        else:
            flat.append(func)
    return flat


class Collection(MutableSequence):
    def __call__(self, data):
        result = data
        for func in self.functions:
            result = func(result)
        return result

    def __reversed__(self):
        return reversed(self.functions)

    def insert(self, index, obj):
        functions = list(self.functions)
        functions[index:index] = [obj]
        self.functions = functions
# target: ocelot/wrapper.py
class TransformationWrapper:
    def __call__(self, data):
        results = []
        for ds in data:
            if self.filter_function and not self.filter_function(ds):
                results.append(ds)
            else:
                results.extend(self.func(ds))
        return results
# target: ocelot/utils.py
def get_function_meta(function):
    target = function.func if isinstance(function, functools.partial) else function
    return {
        'name': target.__name__,
        'description': target.__doc__,
        'table': getattr(target, "__table__", None),
    }


def validate_configuration(config):
    functions = config if isinstance(config, Collection) else Collection("Wrapper", *config)
    for function in functions:
        try:
            assert get_function_meta(function)
        except:
            raise InvalidTransformationFunction("Transformation function {} has no metadata".format(function))
    return config
