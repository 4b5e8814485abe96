from .errors import OutputDirectoryError
import appdirs
import hashlib
import os
import pickle
import re
import unicodedata
import uuid
__io_version__ = '8'
re_slugify = re.compile('[^\\w\\s-]', re.UNICODE)

def safe_filename(string):
    safe = re.sub('[-\\s]+', '-', str(re_slugify.sub('', unicodedata.normalize('NFKD', str(string))).strip()))
    if isinstance(string, str):
        string = string.encode('utf8')
    return safe + '.' + hashlib.md5(string).hexdigest()

def create_dir(dirpath):
    if not os.path.isdir(dirpath):
        os.makedirs(dirpath)
    return dirpath

def check_dir(directory):
    return os.path.isdir(directory) and os.access(directory, os.W_OK)

def get_output_directory():
    try:
        env_var = create_dir(os.environ['OCELOT_OUTPUT'])
        assert env_var
        print('Using environment variable OCELOT_OUTPUT:\n', env_var)
        return env_var
    except:
        return create_dir(os.path.join(get_base_directory(), 'model-runs'))

def get_cache_directory():
    dp = create_dir(os.path.join(get_base_directory(), 'cache'))
    assert check_dir(dp), "Can't use cache directory:\n{}".format(dp)
    return dp

def get_base_directory():
    return create_dir(appdirs.user_data_dir('Ocelot', 'ocelot_project'))

def get_cache_filepath_for_data_path(data_path):
    return os.path.join(get_cache_directory(), hashlib.md5((os.path.abspath(data_path) + __io_version__).encode('utf-8')).hexdigest() + '.pickle')

def check_cache_directory(data_path):
    assert os.path.isdir(data_path), 'Invalid path for ``data_path``: {}'.format(data_path)
    cache_fp = get_cache_filepath_for_data_path(data_path)
    if not os.path.exists(cache_fp):
        return False
    cache_time = os.stat(cache_fp).st_mtime
    source_time = max([os.stat(data_path).st_mtime, max((os.stat(os.path.join(data_path, fn)).st_mtime for fn in filter(lambda x: not x.startswith('.'), os.listdir(data_path))))])
    return cache_time > source_time

def get_from_cache(data_path):
    return pickle.load(open(get_cache_filepath_for_data_path(data_path), 'rb'))

def cache_data(data, data_path):
    filepath = get_cache_filepath_for_data_path(data_path)
    with open(filepath + '.partial', 'wb') as f:
        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(filepath + '.partial', filepath)

class OutputDir(object):

    def __init__(self, dir_path=None, follow=False):
        self.report_id = uuid.uuid4().hex
        if dir_path is None:
            dir_path = get_output_directory()
        self.directory = os.path.join(dir_path, self.report_id)
        try:
            create_dir(self.directory)
            assert check_dir(self.directory)
            if follow:
                create_dir(os.path.join(self.directory, 'follow'))
        except:
            raise OutputDirectoryError("Can't find or write to output directory:\n\t{}".format(self.directory))

def save_intermediate_result(output_dir, index, data, func_name=None):
    if func_name is None:
        func_name = ''
    else:
        func_name = '.' + safe_filename(func_name)
    dump_fp = os.path.join(output_dir, str(index) + func_name + '.pickle')
    with open(dump_fp, 'wb') as f:
        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)

def save_specific_dataset(output_dir, index, data, follow, func_name):
    selected = [ds for ds in data if follow in ds['filepath']]
    if not selected:
        return
    data = {'index': index, 'function name': func_name or '', 'follow string': follow, 'datasets': selected}
    dump_fp = os.path.join(output_dir, 'follow', '{}.{}.pickle'.format(index, follow))
    with open(dump_fp, 'wb') as f:
        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
