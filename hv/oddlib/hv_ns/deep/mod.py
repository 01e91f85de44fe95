class Odd:
    def __init__(self, a=None):
        self.a = a

    def __eq__(self, other):
        return type(self) is type(other) and self.a == other.a

    __hash__ = None

    def __repr__(self):
        return '%s.Odd(%r)' % (type(self).__module__, self.a)


class OddList(list):
    pass


class OddDict(dict):
    pass
