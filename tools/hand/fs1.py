# target: ocelot/filesystem.py
def safe_filename(string):
    normalized = unicodedata.normalize('NFKD', str(string))
    stripped = re_slugify.sub('', normalized).strip()
    safe = re.sub('[-\s]+', '-', stripped)
    raw = string.encode("utf8") if isinstance(string, str) else string
    return "{}.{}".format(safe, hashlib.md5(raw).hexdigest())


def create_dir(dirpath):
    if os.path.isdir(dirpath):
        return dirpath
    os.makedirs(dirpath)
    return dirpath


def get_cache_filepath_for_data_path(data_path):
    key = os.path.abspath(data_path) + __io_version__
    filename = hashlib.md5(key.encode("utf-8")).hexdigest() + ".pickle"
    return os.path.join(get_cache_directory(), filename)


def _modified(path):
    return os.stat(path).st_mtime


def _source_time(data_path):
    names = [fn for fn in os.listdir(data_path) if not fn.startswith(".")]
    newest_file = max([_modified(os.path.join(data_path, fn)) for fn in names])
    return max(_modified(data_path), newest_file)


def check_cache_directory(data_path):
    assert os.path.isdir(data_path), "Invalid path for ``data_path``: {}".format(data_path)
    cache_fp = get_cache_filepath_for_data_path(data_path)
    if os.path.exists(cache_fp):
        return _modified(cache_fp) > _source_time(data_path)
    return False


def get_from_cache(data_path):
    with open(get_cache_filepath_for_data_path(data_path), "rb") as f:
        return pickle.load(f)


def _dump(data, filepath):
    with open(filepath, "wb") as f:
        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)


def cache_data(data, data_path):
    filepath = get_cache_filepath_for_data_path(data_path)
    partial = filepath + ".partial"
    _dump(data, partial)
    os.replace(partial, filepath)


def save_intermediate_result(output_dir, index, data, func_name=None):
    suffix = "" if func_name is None else "." + safe_filename(func_name)
    filename = "{}{}.pickle".format(index, suffix)
    _dump(data, os.path.join(output_dir, filename))


def save_specific_dataset(output_dir, index, data, follow, func_name):
    selected = list(filter(lambda ds: follow in ds['filepath'], data))
    if selected:
        filename = str(index) + "." + follow + ".pickle"
        _dump({
            'index': index,
            'function name': func_name or '',
            'follow string': follow,
            'datasets': selected
        }, os.path.join(output_dir, "follow", filename))


class OutputDir(object):
    def __init__(self, dir_path=None, follow=False):
        self.report_id = uuid.uuid4().hex
        base = get_output_directory() if dir_path is None else dir_path
        self.directory = os.path.join(base, self.report_id)
        try:
            create_dir(self.directory)
            assert check_dir(self.directory)
            if follow:
                create_dir(os.path.join(self.directory, "follow"))
        except:
            message = "Can't find or write to output directory:\n\t{}".format(self.directory)
            raise OutputDirectoryError(message)
# target: ocelot/io/cleanup.py
ONE_WEEK = 7 * 24 * 60 * 60


def _old_reports(base_dir, cutoff):
    for name in os.listdir(base_dir):
        dirpath = os.path.join(base_dir, name)
        if os.path.isdir(dirpath):
            created = os.path.getctime(dirpath)
            if created < cutoff:
                yield created, name, dirpath


def cleanup_data_directory():
    base_dir = get_output_directory()
    cutoff = time.time() - ONE_WEEK
    print("\nCleaning up data directory {}".format(base_dir))
    to_delete = sorted(_old_reports(base_dir, cutoff))
    if to_delete:
        items = ["\t{} from {}\n".format(name, time.ctime(created)) for created, name, _ in to_delete]
        print("Deleting {} reports:\n{}".format(len(to_delete), "".join(items)))
        for _, _, dirpath in to_delete:
            shutil.rmtree(dirpath)
    else:
        print("\nNo old reports to delete!\n")
# target: ocelot/io/__init__.py
def extract_directory(data_path, use_cache=True, use_mp=True):
    data_path = os.path.abspath(data_path)
    if use_cache and check_cache_directory(data_path):
        print("Using cached ecospold2 data")
        return get_from_cache(data_path)
    data = extract_ecospold2_directory(data_path, use_mp)
    if use_cache:
        cache_data(data, data_path)
    return data
