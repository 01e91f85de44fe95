import sys
from hv import core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
