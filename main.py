import importlib
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
logging.getLogger('theano').setLevel(logging.ERROR)
logging.getLogger('theano.configdefaults').setLevel(logging.CRITICAL)

from checks.registry import MODULES  # noqa
from symx import runner  # noqa


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    importlib.import_module('checks.' + MODULES[prop])
    if tier == '--replay':
        sys.exit(runner.replay(prop, sys.argv[3]))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    rc = runner.main(prop, tier, only)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
