"""writes spec/c14.json from the current tree (run once, on the reviewed tree)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.c14 import extract   # noqa: E402
from sa.repo import Repo   # noqa: E402

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c14.json'), 'w', encoding = 'utf-8') as fh:
    json.dump(extract(Repo()), fh, indent = 0, sort_keys = True)
