class SaveStrategy(object):
    DEFAULT = 1000

    def __init__(self, arg=None):
        self.func = self.parse(arg)

    def __call__(self, index):
        return self.func(index)

    def parse(self, arg):
        if arg is None:
            return lambda x: not x % self.DEFAULT
        elif ':' not in str(arg):
            try:
                arg = int(arg)
            except:
                raise ValueError("Can't parse {} as integer".format(arg))
            if arg < 1:
                raise ValueError('Input value must be >= 1')
            return lambda x: not x % int(arg)
        else:
            try:
                arg = [int(x) for x in arg.split(':')]
            except:
                raise ValueError("Can't split and parse integers from {}".format(arg))
            arg[1] += 1
            possibles = list(range(*arg))
            return lambda x: x in possibles
