"""Bootstrap shared by every check: deterministic environment, code from /repo."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('RKSV_VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _v in ('RKSV_DEP_CHUNKSIZE', 'RKSV_STATE_RECEIPT_IDS', 'RKSV_TEST_SEED',
        'LANGUAGE', 'LANG'):
    os.environ.pop(_v, None)
os.environ['LC_ALL'] = 'C.UTF-8'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NPROC = int(os.environ.get('RKSV_VERIF_PROCS', '0')) or os.cpu_count() or 4
