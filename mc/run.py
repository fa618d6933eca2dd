import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env          # noqa: E402  (sets up sys.path for /repo)
from mc import engine       # noqa: E402

if __name__ == '__main__':
    code = engine.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
