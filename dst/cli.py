import sys
from dst.runner import main
main(sys.argv[1:])
