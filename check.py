#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from an import chk
if '--setup' in sys.argv:
    from an import db
    db.build_tool()
    sys.exit(0)
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    tier = 'thorough'
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(chk.run(sys.argv[1], tier)))
t.start()
t.join()
sys.exit(rc[0] if rc else 2)
