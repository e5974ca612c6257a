import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
