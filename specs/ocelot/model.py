from .configuration import cutoff_config, cutoff_config_ecoinvent_row, consequential_config
from .filesystem import cache_data, OutputDir, save_intermediate_result, save_specific_dataset
from .io import extract_directory
from .logger import create_log, create_detailed_log
from .report import HTMLReport
from .results import SaveStrategy
from .utils import get_function_meta, validate_configuration
from collections.abc import Iterable, Sequence
import itertools
import logging
import shutil
import sys
import wrapt
logger = logging.getLogger('ocelot')
mapping = {'cutoff': cutoff_config, 'cutoff_ecoinvent_row': cutoff_config_ecoinvent_row, 'consequential': consequential_config}

def apply_transformation(function, counter, data, output_dir, save_strategy, follow):
    if isinstance(function, Iterable) and (not isinstance(function, wrapt.FunctionWrapper)):
        for obj in function:
            data = apply_transformation(obj, counter, data, output_dir, save_strategy, follow)
        return data
    else:
        metadata = get_function_meta(function)
        index = next(counter)
        metadata.update(index=index, type='function start', count=len(data))
        logger.info(metadata)
        print('Applying transformation {}'.format(metadata['name']))
        data = function(data)
        metadata.update(type='function end', count=len(data))
        if save_strategy(index):
            save_intermediate_result(output_dir, index, data, metadata['name'])
        if follow:
            save_specific_dataset(output_dir, index, data, follow, metadata['name'])
        logger.info(metadata)
        return data

def system_model(data_path, config=None, show=False, use_cache=True, save_strategy=None, follow=None):
    print('Starting Ocelot model run')
    if isinstance(config, str) and config in mapping:
        config = mapping[config]
    elif not config:
        config = cutoff_config
    config = validate_configuration(config)
    data = extract_directory(data_path, use_cache)
    output_manager = OutputDir(follow=follow)
    try:
        counter = itertools.count()
        logfile_path = create_log(output_manager.directory)
        create_detailed_log(output_manager.directory)
        print('Opening log file at: {}'.format(logfile_path))
        logger.info({'type': 'report start', 'uuid': output_manager.report_id, 'count': len(data)})
        save_strategy = SaveStrategy(save_strategy)
        for obj in config:
            data = apply_transformation(obj, counter, data, output_manager.directory, save_strategy, follow)
        print('Saving final results')
        save_intermediate_result(output_manager.directory, 'final-results', data)
        logger.info({'type': 'report end'})
        print('Compare results with: ocelot-compare compare {} <reference results>'.format(output_manager.report_id))
        HTMLReport(logfile_path, show)
        return (output_manager, data)
    except KeyboardInterrupt:
        print('Terminating Ocelot model run')
        print('Deleting output directory:\n{}'.format(output_manager.directory))
        shutil.rmtree(output_manager.directory)
        sys.exit(1)
