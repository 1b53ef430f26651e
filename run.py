import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.core import main  # noqa: E402

if __name__ == "__main__":
    # main() lives in vt.core so that worker processes share its registry
    sys.exit(main(sys.argv[1:]))
