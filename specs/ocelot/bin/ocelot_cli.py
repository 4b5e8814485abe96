from docopt import docopt
from ocelot import cleanup_data_directory, data_dir, system_model, validate_directory_against_xsd, validate_directory
import os
import sys

def main():
    try:
        args = docopt(__doc__, version='Ocelot open source linker CLI 0.2')
        if args['run']:
            system_model(args['<dirpath>'], args['<config>'], show=not args['--noshow'], save_strategy=args['--save'], follow=args['--follow'])
        elif args['validate']:
            validate_directory(args['<dirpath>'])
        elif args['xsd']:
            validate_directory_against_xsd(args['<dirpath>'], args['<schema>'] or os.path.join(data_dir, 'EcoSpold02.xsd'))
        elif args['cleanup']:
            cleanup_data_directory()
        else:
            raise ValueError
    except KeyboardInterrupt:
        print('Terminating Ocelot CLI')
        sys.exit(1)
if __name__ == '__main__':
    main()
