# target: ocelot/filesystem.py
def create_dir(dirpath):
    if os.path.isdir(dirpath):
        return dirpath
    os.makedirs(dirpath)
    return dirpath


def check_dir(directory):
    if not os.path.isdir(directory):
        return False
    return os.access(directory, os.W_OK)


def get_output_directory():
    try:
        path = os.environ['OCELOT_OUTPUT']
        create_dir(path)
        assert path
        print("Using environment variable OCELOT_OUTPUT:\n", path)
        return path
    except:
        default = os.path.join(get_base_directory(), "model-runs")
        return create_dir(default)


def get_cache_directory():
    dp = os.path.join(get_base_directory(), "cache")
    create_dir(dp)
    assert check_dir(dp), "Can't use cache directory:\n" + dp
    return dp


def get_cache_filepath_for_data_path(data_path):
    key = os.path.abspath(data_path) + __io_version__
    digest = hashlib.md5(key.encode("utf-8")).hexdigest()
    return os.path.join(get_cache_directory(), "{}.pickle".format(digest))


def _mtime(path):
    return os.stat(path).st_mtime


def check_cache_directory(data_path):
    assert os.path.isdir(data_path), "Invalid path for ``data_path``: {}".format(data_path)
    cache_fp = get_cache_filepath_for_data_path(data_path)
    if os.path.exists(cache_fp):
        newest = max(_mtime(os.path.join(data_path, fn))
                     for fn in os.listdir(data_path)
                     if not fn.startswith("."))
        return _mtime(cache_fp) > max(_mtime(data_path), newest)
    return False


def get_from_cache(data_path):
    filepath = get_cache_filepath_for_data_path(data_path)
    with open(filepath, "rb") as f:
        return pickle.load(f)


def _dump(data, filepath):
    with open(filepath, "wb") as f:
        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)


def cache_data(data, data_path):
    filepath = get_cache_filepath_for_data_path(data_path)
    partial = filepath + ".partial"
    _dump(data, partial)
    os.replace(partial, filepath)


def save_intermediate_result(output_dir, index, data, func_name=None):
    suffix = "" if func_name is None else "." + safe_filename(func_name)
    _dump(data, os.path.join(output_dir, str(index) + suffix + ".pickle"))


def save_specific_dataset(output_dir, index, data, follow, func_name):
    selected = [ds for ds in data if follow in ds['filepath']]
    if selected:
        _dump({
            'index': index,
            'function name': func_name or '',
            'follow string': follow,
            'datasets': selected
        }, os.path.join(output_dir, "follow", "{}.{}.pickle".format(index, follow)))


class OutputDir(object):
    def __init__(self, dir_path=None, follow=False):
        self.report_id = uuid.uuid4().hex
        base = get_output_directory() if dir_path is None else dir_path
        self.directory = os.path.join(base, self.report_id)
        try:
            create_dir(self.directory)
            assert check_dir(self.directory)
            if follow:
                create_dir(os.path.join(self.directory, "follow"))
        except:
            message = "Can't find or write to output directory:\n\t{}"
            raise OutputDirectoryError(message.format(self.directory))
# target: ocelot/wrapper.py
class TransformationWrapper:
    def __init__(self, function, filter_function=None):
        self.func = function
        self.filter_function = filter_function
        self.__name__ = function.__name__
        self.__doc__ = function.__doc__
        self.__table__ = getattr(function, "__table__", None)

    def _transform(self, ds):
        if self.filter_function and not self.filter_function(ds):
            return [ds]
        return self.func(ds)

    def __call__(self, data):
        results = []
        for ds in data:
            results.extend(self._transform(ds))
        return results
# target: ocelot/collection.py
class Collection(MutableSequence):
    def __init__(self, name, *functions):
        self.name = name
        self.functions = functions
        self.unwrap()

    def unwrap(self):
        self.functions = unwrap_functions(self.functions)

    def __iter__(self):
        for func in self.functions:
            yield func

    def __len__(self):
        return len(self.functions)

    def __contains__(self, obj):
        return obj in self.functions

    def __getitem__(self, index):
        return self.functions[index]

    def __setitem__(self, index, obj):
        self.functions[index] = obj

    def insert(self, index, obj):
        functions = list(self.functions)
        functions.insert(index, obj)
        self.functions = functions

    def __delitem__(self, index):
        del self.functions[index]

    def __reversed__(self):
        return reversed(self.functions)

    def __call__(self, data):
        result = data
        for func in self.functions:
            result = func(result)
        return result

    def __str__(self):
        return "Collection {} with {} functions".format(self.name, len(self.functions))

    __repr__ = lambda self: str(self)
