"""Drives rktool.py through its widgets, on the kivy model of kivystub."""
import hashlib
import types

from . import env  # noqa: F401
from . import kivystub as K


PLAIN = {type(None), bool, int, float, str, bytes}
SKIP = {'.observers', '.adapter', 'exc', 'parent', 'ids', '.background_color', '.size', '.pos'}


class Gui(object):
    """One run of the application. Every method is one event; errors shown and
    exceptions escaping into the event loop are recorded."""

    def __init__(self, nprocs=1):
        self.mod, self.app = K.launch(nprocs)
        self.errors, self.crash = [], None
        self.vd = self.find(self.app.root, 'VerifyDEPWidget')
        self.vr = self.find(self.app.root, 'VerifyReceiptWidget')
        self.kw = self.find(self.app.root, 'KeyStoreWidget')
        self.dep_button = self.buttons(self.vd)[-1]
        self.dep_key = self.find(self.vd, 'TextInput')
        self.dep_tree = self.find(self.vd, 'TreeView')

    # ------------------------------------------------------------ looking

    @staticmethod
    def find(w, name):
        for x in w.walk():
            if type(x).__name__ == name or name in [c.__name__ for c in type(x).__mro__]:
                return x
        return None

    @staticmethod
    def buttons(w):
        return [x for x in w.walk() if isinstance(x, K.Button)]

    def button(self, w, text):
        b = [x for x in self.buttons(w) if x.text == text]
        return b[0] if b else None

    def modals(self):
        return [w for w in K.Window.children if isinstance(w, K.ModalView)]

    def top(self):
        m = self.modals()
        return m[-1] if m else None

    def dialog(self):
        """The file or value dialog on top, if any."""
        t = self.top()
        return t if isinstance(t, K.Popup) else None

    def view(self):
        """The receipt view on top, if any."""
        t = self.top()
        return None if t is None or isinstance(t, K.Popup) else t

    def pending(self):
        return [t for p in K.Pool.created for t in p.pending]

    # ------------------------------------------------------------- acting

    def act(self, f, *args):
        if self.crash:
            return
        n = len(self.errors)
        try:
            f(*args)
            self.reap()
        except Exception as e:
            import traceback
            self.crash = (type(e).__name__, str(e), traceback.format_exc())
        return self.errors[n:]

    def reap(self):
        """Read and close all error popups (whatever is on top of them)."""
        for m in list(self.modals()):
            if isinstance(m, K.Popup) and m.title == _('Error'):
                ex = getattr(m.content, 'exception', None)
                text = [x.text for x in m.walk() if type(x) is K.Label]
                self.errors.append((type(ex).__name__, text[0] if text else ''))
                self.buttons(m)[-1].press()

    def press(self, w):
        return self.act(w.press)

    def tick(self):
        return self.act(K.Clock.tick)

    def done(self, i):
        return self.act(self.pending()[i].finish)

    def type(self, w, text):
        def f():
            w.text = text
        return self.act(f)

    def choose(self, path, button='Load'):
        """Select a file in the dialog on top and press its button."""
        import os
        d = self.dialog()

        def f():
            fc = self.find(d, 'FileChooserListView')
            fc.path = os.path.dirname(path)
            if button == 'Save':
                self.find(d, 'TextInput').text = path
            else:
                fc.selection = [path]
            self.button(d, _(button)).press()
        return self.act(f)

    def cancel(self):
        return self.press(self.button(self.dialog(), _('Cancel')))

    # -------------------------------------------------------------- trees

    def tree(self):
        """[(group text, [certs], [chain], [receipts])] as shown."""
        ret = []
        for g in self.dep_tree.root.nodes:
            ret.append([g.text] + [(n.text, [x.text for x in n.nodes]) for n in g.nodes])
        return ret

    def tree_nodes(self, title):
        """The nodes under all nodes with that title."""
        return [x for g in self.dep_tree.root.nodes for n in g.nodes if n.text == title
                for x in n.nodes]

    def store_tree(self):
        tv = self.find(self.kw, 'TreeView')
        return [(n.text, [x.text for x in n.nodes]) for n in tv.root.nodes]

    def store_nodes(self, i):
        return self.find(self.kw, 'TreeView').root.nodes[i].nodes

    def store_json(self):
        return self.app.keyStore.writeStoreToJson(None)

    def rows(self, view):
        """What the receipt view shows: [(name, value)]"""
        ret = []
        for v in self.find(view, 'ListView').rows():
            ret.append(tuple(x.text for x in v.walk() if type(x) is K.Label))
        return ret

    # -------------------------------------------------------- fingerprint

    def fingerprint(self):
        memo = {}
        parts = []

        def out(*a):
            parts.extend(map(repr, a))

        def canon(o, depth=0):
            if type(o) in PLAIN:
                return parts.append(repr(o))
            if isinstance(o, (list, tuple)):
                out(type(o).__name__, len(o))
                for x in o:
                    canon(x, depth + 1)
                return
            if id(o) in memo:
                return out('ref', memo[id(o)])
            memo[id(o)] = len(memo)
            keep.append(o)
            if isinstance(o, dict):
                out('dict', len(o))
                for k in sorted(o, key=repr):
                    canon(k)
                    canon(o[k], depth + 1)
                return
            if isinstance(o, (set, frozenset)):
                return out('set', sorted(map(repr, o)))
            if isinstance(o, types.MethodType):
                out('method', o.__func__.__qualname__)
                return canon(o.__self__, depth + 1)
            if isinstance(o, types.FunctionType):
                out('function', o.__qualname__)
                for c in o.__closure__ or ():
                    canon(c.cell_contents, depth + 1)
                return
            if isinstance(o, K.Task):
                out('task', o.name, o.many, o.data, o.tag)
                canon(o.callback, depth + 1)
                return canon(o.error_callback, depth + 1)
            if isinstance(o, K.ClockEvent):
                out('event')
                return canon(o.callback, depth + 1)
            out(type(o).__name__)
            if isinstance(o, (type, types.ModuleType)):
                return
            mod = type(o).__module__
            d = getattr(o, '__dict__', None)
            if hasattr(o, 'func') and hasattr(o, 'args'):      # functools.partial
                canon(o.func, depth + 1)
                return canon(o.args, depth + 1)
            if isinstance(o, BaseException):
                return out(str(o))
            if hasattr(o, 'fingerprint') and hasattr(o, 'serial_number'):
                return out(o.serial_number)
            if d is not None and (mod == 'rktool' or mod.startswith('librksv')
                    or mod.endswith('kivystub')):
                for k in sorted(d):
                    if k not in SKIP:
                        parts.append(k)
                        canon(d[k], depth + 1)

        keep = []
        canon(self.vd)
        canon(self.vr)
        canon(self.modals())
        canon([p.pending for p in K.Pool.created if p.pending])
        canon(K.Clock.queue)
        out(repr(self.store_json()), self.crash)
        return hashlib.blake2b('\0'.join(parts).encode('utf-8', 'surrogatepass'),
                digest_size=12).digest()
