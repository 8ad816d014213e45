import sys

from .engine import main

main(sys.argv[1:])
