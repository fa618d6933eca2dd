"""Drives the code in /repo through its public interface only."""
import copy
import io
import json

from . import env  # noqa: F401
from librksv import depparser, key_store, receipt, utils, verification_state
from librksv import verify, verify_receipt
from librksv.utils import RKSVException

from . import ref

_ks_cache = {}


def ks(ksjson):
    k = json.dumps(ksjson, sort_keys=True)
    if k not in _ks_cache:
        if len(_ks_cache) > 500:
            _ks_cache.clear()
        _ks_cache[k] = key_store.KeyStore.readStoreFromJson(ksjson)
    return _ks_cache[k]


def state_from(statejson):
    if statejson is None:
        return None
    return verification_state.ClusterState.readStateFromJson(
            copy.deepcopy(statejson))


def norm_state(sj):
    """State JSON with the order of used IDs (a set) normalised."""
    sj = json.loads(json.dumps(sj))
    u = sj.get('usedReceiptIds')
    if isinstance(u, dict) and isinstance(u.get('backendData'), list):
        u['backendData'] = sorted(u['backendData'])
    return sj


class Result(object):
    """Outcome of one call: ok (with state JSON) or an exception."""
    __slots__ = ('ok', 'state', 'exc', 'name', 'documented', 'receipt')

    def __init__(self, state=None, exc=None):
        self.ok = exc is None
        self.state = norm_state(state) if state is not None else None
        self.exc = repr(exc) if exc is not None else None
        self.name = type(exc).__name__ if exc is not None else 'ok'
        self.documented = isinstance(exc, RKSVException)
        self.receipt = getattr(exc, 'receipt', None)

    def show(self):
        return self.name if self.ok else '%s (%s)' % (self.name, self.exc[:200])


def outcome(fn, *a, **kw):
    """(value, exception)"""
    try:
        return fn(*a, **kw), None
    except Exception as e:
        return None, e


def backend(name):
    return verification_state.USED_RECEIPT_IDS_BACKENDS[name]


UNIQUE = 'USED_RECEIPT_IDS_UNIQUE'
NATURAL = 'USED_RECEIPT_IDS_SORTED_NATURAL'


def _given(bk, statejson):
    # A given state decides the backend: name the other one, as a caller with
    # another default does.
    if statejson is None:
        return backend(bk)
    used = statejson.get('usedReceiptIds') if isinstance(statejson, dict) else None
    mine = used.get('backendType') if isinstance(used, dict) else bk
    return backend(UNIQUE if mine == NATURAL else NATURAL)


def verify_dep(dep, ksjson, aes, statejson=None, idx=None, bk=UNIQUE):
    try:
        st = verify.verifyDEP(dep, ks(ksjson), aes, state_from(statejson), idx,
                _given(bk, statejson))
        return Result(st.writeStateToJson())
    except Exception as e:
        return Result(exc=e)


def parser_for(dep, kind, nparts=1):
    if kind == 'dict':
        return depparser.DictDEPParser(dep, nparts)
    text = dep if isinstance(dep, str) else json.dumps(dep)
    if kind == 'full':
        return depparser.FullFileDEPParser(io.StringIO(text), nparts)
    if kind == 'file':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(text.encode()))
    if kind == 'stream':
        return depparser.StreamDEPParser(io.BytesIO(text.encode()))
    if kind == 'certless':
        return depparser.CertlessStreamDEPParser(io.BytesIO(text.encode()))
    raise KeyError(kind)


def verify_parsed(dep, ksjson, aes, statejson=None, idx=None, pool=None,
        nprocs=1, chunksize=0, parser='dict', nparts=1, bk=UNIQUE):
    try:
        p = parser_for(dep, parser, nparts)
        st = verify.verifyParsedDEP(p, ks(ksjson), aes, state_from(statejson),
                idx, pool, nprocs, chunksize, _given(bk, statejson))
        return Result(st.writeStateToJson())
    except Exception as e:
        return Result(exc=e)


def cluster_json(regs, used, bk=UNIQUE):
    """State JSON from reference register states (or dicts) and used IDs."""
    if bk == UNIQUE:
        data = sorted(used)
    else:
        data = used
    return {'cashRegisters': [r.json() if isinstance(r, ref.RState) else r
        for r in regs],
        'usedReceiptIds': {'backendType': bk, 'backendData': data}}
