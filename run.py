"""Entry point: run.py <property> [quick|thorough]"""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    mod = importlib.import_module('checks.' + prop.lower())
    rc = mod.main(tier)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
