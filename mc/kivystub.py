"""The environment of the GUI (kivy and the multiprocessing pool), under our control.

rktool.py and rktool.kv are run unchanged on this model of kivy 1.9: properties with
observers, the kv language (rules, ids, bound expressions, event handlers), modal
views, tree views, list views, and a clock whose callbacks run when told to. Tasks
given to the pool finish when told to, in any order."""
import ast
import os
import pickle
import re
import sys
import types

from . import env


class Crash(Exception):
    """An exception escaped into the event loop: the application dies."""


# ------------------------------------------------------------- properties

class Property(object):
    def __init__(self, defaultvalue=None, *a, **kw):
        self.default = defaultvalue
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def initial(self):
        return self.default

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        if '.' + self.name not in d:
            d['.' + self.name] = self.initial()
        return d['.' + self.name]

    def convert(self, obj, value):
        return value

    def __set__(self, obj, value):
        old = self.__get__(obj)
        value = self.convert(obj, value)
        obj.__dict__['.' + self.name] = value
        obj.changed(self.name, old, value)


class ObjectProperty(Property):
    pass


class StringProperty(Property):
    def __init__(self, defaultvalue='', *a, **kw):
        super(StringProperty, self).__init__(defaultvalue)

    def convert(self, obj, value):
        if value is None and self.default is None:
            return value
        if not isinstance(value, str):
            raise ValueError('%s.%s accept only str' % (type(obj).__name__, self.name))
        return value


class TextInputProperty(Property):
    def convert(self, obj, value):
        if isinstance(value, bytes):
            value = value.decode('utf8')
        return value.replace('\r\n', '\n')


class DictProperty(Property):
    def initial(self):
        return dict(self.default or {})

    def convert(self, obj, value):
        if value is not None and not isinstance(value, dict):
            raise ValueError('%s.%s accept only dict' % (type(obj).__name__, self.name))
        return value


class ListProperty(Property):
    def initial(self):
        return list(self.default or [])


class BooleanProperty(Property):
    def convert(self, obj, value):
        if not isinstance(value, (bool, int)):
            raise ValueError('%s.%s accept only bool' % (type(obj).__name__, self.name))
        return value


class NumericProperty(Property):
    def __init__(self, defaultvalue=0, *a, **kw):
        super(NumericProperty, self).__init__(defaultvalue)


class OptionProperty(Property):
    pass


class AliasProperty(Property):
    def __init__(self, getter, setter=None, *a, **kw):
        super(AliasProperty, self).__init__(None)
        self.getter, self.setter = getter, setter

    def __get__(self, obj, cls=None):
        return self if obj is None else self.getter(obj)

    def __set__(self, obj, value):
        self.setter(obj, value)


class EventDispatcher(object):
    def __init__(self, **kwargs):
        super(EventDispatcher, self).__init__()
        for k, v in kwargs.items():
            if k.startswith('on_'):
                self.bind(**{k: v})
            else:
                setattr(self, k, v)

    def _obs(self):
        return self.__dict__.setdefault('.observers', {})

    def bind(self, **kwargs):
        for k, v in kwargs.items():
            self._obs().setdefault(k, []).append(v)

    def fbind(self, name, func, *args, **kw):
        self.bind(**{name: lambda *a: func(*(args + a))})

    def unbind(self, **kwargs):
        for k, v in kwargs.items():
            if v in self._obs().get(k, []):
                self._obs()[k].remove(v)

    def register_event_type(self, name):
        pass

    def property(self, name):
        return getattr(type(self), name)

    def __setattr__(self, name, value):
        d = getattr(type(self), name, None)
        if isinstance(d, (Property, property)):
            object.__setattr__(self, name, value)
            return
        old = self.__dict__.get(name)
        object.__setattr__(self, name, value)
        if not name.startswith('_'):
            self.changed(name, old, value, False)

    def changed(self, name, old, value, declared=True):
        try:
            if old is value or old == value:
                return
        except Exception:
            pass
        h = getattr(self, 'on_' + name, None) if declared else None
        if h:
            h(self, value)
        for cb in list(self._obs().get(name, [])):
            cb(self, value)

    def dispatch(self, event, *args):
        for cb in reversed(list(self._obs().get(event, []))):
            if cb(self, *args):
                return True
        h = getattr(self, event, None)
        if h:
            return h(*args)


# ---------------------------------------------------------------- widgets

class Widget(EventDispatcher):
    disabled = BooleanProperty(False)
    size = ListProperty([100, 100])
    pos = ListProperty([0, 0])
    width = NumericProperty(100)
    height = NumericProperty(100)
    minimum_height = NumericProperty(100)
    texture_size = ListProperty([100, 100])

    def __init__(self, **kwargs):
        nobuild = kwargs.pop('__no_builder', False)
        self.__dict__['children'] = []
        self.__dict__['parent'] = None
        self.__dict__['ids'] = {}
        super(Widget, self).__init__(**kwargs)
        if not nobuild:
            Builder.apply(self)

    def add_widget(self, w, index=0, *a, **kw):
        if not isinstance(w, Widget):
            raise TypeError('add_widget() can be used only with instances of the Widget class.')
        if w.parent:
            raise ValueError('Cannot add %r, it already has a parent %r' % (w, w.parent))
        w.__dict__['parent'] = self
        self.children.insert(index, w)

    def remove_widget(self, w):
        if w in self.children:
            self.children.remove(w)
            w.parent = None

    def clear_widgets(self, *a):
        for w in list(self.children):
            self.remove_widget(w)

    def walk(self):
        yield self
        for c in reversed(self.children):
            for x in c.walk():
                yield x


class Label(Widget):
    text = StringProperty('')


class ButtonBehavior(object):
    pass


class Button(Label):
    background_color = ListProperty([1, 1, 1, 1])
    state = StringProperty('normal')

    def press(self):
        if self.disabled:
            return False
        self.dispatch('on_press')
        self.dispatch('on_release')
        return True


class CheckBox(Button):
    pass


class TextInput(Widget):
    text = TextInputProperty('')


class ActionButton(Button):
    pass


class ActionPrevious(Button):
    pass


class FileChooserListView(Widget):
    path = StringProperty('')
    selection = ListProperty([])


class Layout(Widget):
    pass


class BoxLayout(Layout):
    pass


class FloatLayout(Layout):
    pass


class GridLayout(Layout):
    pass


class SelectableView(object):
    is_selected = BooleanProperty(False)


class Screen(Widget):
    pass


class ScreenManager(Widget):
    pass


class ListView(Widget):
    adapter = ObjectProperty(None)

    def rows(self):
        return [self.adapter.get_view(i) for i in range(self.adapter.get_count())]


class DictAdapter(EventDispatcher):
    sorted_keys = ListProperty([])
    data = DictProperty(None)

    def __init__(self, **kwargs):
        if 'sorted_keys' in kwargs and type(kwargs['sorted_keys']) not in (tuple, list):
            raise Exception('DictAdapter: sorted_keys must be tuple or list')
        if 'sorted_keys' not in kwargs:
            kwargs['sorted_keys'] = sorted(kwargs['data'])
        super(DictAdapter, self).__init__(**kwargs)

    def get_count(self):
        return len(self.sorted_keys)

    def get_data_item(self, index):
        return self.data[self.sorted_keys[index]]

    def get_view(self, index):
        args = self.args_converter(index, self.get_data_item(index))
        args['index'] = index
        return self.cls(**args)


class TreeViewNode(object):
    is_leaf = BooleanProperty(True)
    is_open = BooleanProperty(False)
    level = NumericProperty(-1)
    nodes = ListProperty([])
    parent_node = ObjectProperty(None)


class TreeViewLabel(Label, TreeViewNode):
    pass


class TreeViewException(Exception):
    pass


class TreeView(Widget):
    root_options = ObjectProperty({})

    def __init__(self, **kwargs):
        self._root = None
        super(TreeView, self).__init__(**kwargs)
        self._root = self.add_node(TreeViewLabel(text='Root', is_open=True, level=0), None)

    @property
    def root(self):
        return self._root

    def add_node(self, node, parent=None):
        if not isinstance(node, TreeViewNode):
            raise TreeViewException('The node must be a subclass of TreeViewNode')
        if parent is None and self._root:
            parent = self._root
        if parent:
            parent.is_leaf = False
            parent.nodes.append(node)
            node.parent_node = parent
            node.level = parent.level + 1
        return node

    def remove_node(self, node):
        if not isinstance(node, TreeViewNode):
            raise TreeViewException('The node must be a subclass of TreeViewNode')
        parent = node.parent_node
        if parent is not None:
            if node in parent.nodes:
                parent.nodes.remove(node)
            parent.is_leaf = not parent.nodes
            node.parent_node = None

    def iterate_all_nodes(self, node=None):
        if not node:
            node = self.root
        yield node
        for c in node.nodes:
            for y in self.iterate_all_nodes(c):
                yield y

    def iterate_open_nodes(self, node=None):
        return self.iterate_all_nodes(node)


class WindowClass(EventDispatcher):
    height = NumericProperty(600)
    width = NumericProperty(800)
    keyboard_height = NumericProperty(0)

    def __init__(self):
        super(WindowClass, self).__init__()
        self.children = []

    def add_widget(self, w):
        self.children.append(w)

    def remove_widget(self, w):
        if w in self.children:
            self.children.remove(w)


class ModalView(Widget):
    _window = None

    def open(self, *a, **kw):
        if self._window is not None:
            return
        self._window = Window
        Window.add_widget(self)
        Clock.schedule_once(self._opened, 0)

    def _opened(self, dt):
        if self._window is not None:
            self.dispatch('on_open')

    def dismiss(self, *a, **kw):
        if self._window is None:
            return
        if self.dispatch('on_dismiss') is True and kw.get('force') is not True:
            return
        Window.remove_widget(self)
        self._window = None


class Popup(ModalView):
    title = StringProperty('')
    content = ObjectProperty(None)

    def walk(self):
        yield self
        for c in reversed(self.children):
            for x in c.walk():
                yield x
        if self.content is not None:
            for x in self.content.walk():
                yield x


# ------------------------------------------------------------------ clock

class ClockEvent(object):
    def __init__(self, clock, cb, interval=None):
        self.clock, self.callback, self.interval = clock, cb, interval

    def cancel(self):
        self.clock.unschedule(self)

    def __call__(self, *a):
        if self not in self.clock.queue:
            self.clock.queue.append(self)


class ClockClass(object):
    def __init__(self):
        self.queue = []

    def schedule_once(self, callback, timeout=0):
        e = ClockEvent(self, callback)
        self.queue.append(e)
        return e

    def schedule_interval(self, callback, timeout):
        e = ClockEvent(self, callback, timeout)
        self.queue.append(e)
        return e

    def create_trigger(self, callback, timeout=0):
        return ClockEvent(self, callback)

    def unschedule(self, what, all=True):
        self.queue = [e for e in self.queue if e is not what and e.callback != what]

    def tick(self):
        now, self.queue = self.queue, []
        self.queue = [e for e in now if e.interval is not None]
        for n, e in enumerate(now):
            try:
                if e.callback(0.0) is False and e.interval is not None:
                    e.cancel()
            except BaseException:
                self.queue = now[n + 1:] + self.queue
                raise


class ClockProxy(object):
    """Survives a reset."""
    real = ClockClass()

    def __getattr__(self, name):
        return getattr(self.real, name)


def mainthread(func):
    import functools

    @functools.wraps(func)
    def delayed(*args, **kwargs):
        def callback(dt):
            func(*args, **kwargs)
        callback.task = (func, args, kwargs)
        Clock.schedule_once(callback, 0)
    return delayed


class WindowProxy(object):
    real = None

    def __getattr__(self, name):
        return getattr(self.real, name)


Clock = ClockProxy()
Window = WindowProxy()


class App(EventDispatcher):
    _running = None

    def __init__(self, **kwargs):
        super(App, self).__init__(**kwargs)
        App._running = self
        self.root = None
        self.stopped = False

    @staticmethod
    def get_running_app():
        return App._running

    def build(self):
        return None

    def stop(self, *a):
        self.dispatch('on_stop')
        self.stopped = True

    def start(self):
        self.root = self.build()
        if self.root:
            Window.add_widget(self.root)
        self.dispatch('on_start')

    run = start


# --------------------------------------------------------------------- kv

class Rule(object):
    def __init__(self, name):
        self.name, self.props, self.handlers, self.children, self.id = name, [], [], [], None


# where and how large things are drawn is not modelled
LAYOUT = {'size', 'size_hint', 'size_hint_x', 'size_hint_y', 'pos', 'pos_hint', 'height', 'width',
    'text_size', 'padding', 'padding_x', 'padding_y', 'spacing', 'orientation', 'halign', 'valign',
    'do_scroll_x', 'do_scroll_y', 'use_separator', 'tab_width', 'italic', 'bold', 'font_size',
    'hide_root', 'multiline', 'do_default_tab', 'rows', 'cols', 'row_default_height', 'rgb', 'rgba'}


def kv_parse(text):
    """-> (imports, [(selectors, Rule)])"""
    imports, rules = [], []
    lines = []
    for n, raw in enumerate(text.split('\n')):
        if raw.strip().startswith('#:'):
            w = raw.strip().split()
            if w[0] == '#:import':
                imports.append((w[1], w[2]))
            continue
        if not raw.strip() or raw.strip().startswith('#'):
            continue
        t = raw.expandtabs(4)
        lines.append([len(t) - len(t.lstrip()), t.strip(), n + 1])
    pos = 0

    def block(rule, indent):
        nonlocal pos
        level = None
        while pos < len(lines) and lines[pos][0] > indent:
            ind, text, no = lines[pos]
            if level is None:
                level = ind
            if ind != level:
                raise SyntaxError('kv: indentation in line %d' % no)
            name, colon, value = text.partition(':')
            name, value = name.strip(), value.strip()
            if not colon:
                raise SyntaxError('kv: line %d' % no)
            pos += 1
            if name.split('@')[0][0].isupper() and not value:
                child = Rule(name)
                rule.children.append(child)
                block(child, ind)
                continue
            if not value:
                body, base = [], None
                while pos < len(lines) and lines[pos][0] > ind:
                    base = lines[pos][0] if base is None else base
                    body.append(' ' * (lines[pos][0] - base) + lines[pos][1])
                    pos += 1
                value = '\n'.join(body)
            if name == 'id':
                rule.id = value
            elif name.startswith('on_'):
                rule.handlers.append((name, compile(value, 'kv:%d' % no, 'exec')))
            elif name not in LAYOUT:
                code = compile(value.strip(), 'kv:%d' % no, 'eval')
                rule.props.append((name, code, chains(value)))

    while pos < len(lines):
        ind, text, no = lines[pos]
        if ind:
            raise SyntaxError('kv: line %d' % no)
        pos += 1
        m = re.match(r'^<(.*)>:$', text)
        rule = Rule(text)
        block(rule, 0)
        if m:
            rules.append(([s.strip() for s in m.group(1).split(',')], rule))
    return imports, rules


def chains(expr):
    """The attribute chains an expression depends on."""
    ret = []
    for n in ast.walk(ast.parse(expr.strip(), mode='eval')):
        if isinstance(n, ast.Attribute):
            c, x = [n.attr], n.value
            while isinstance(x, ast.Attribute):
                c.insert(0, x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                ret.append([x.id] + c)
    return ret


class BuilderClass(object):
    def __init__(self):
        self.rules, self.globals, self.dynamic = [], {}, {}

    def load(self, text):
        imports, rules = kv_parse(text)
        self.rules, self.globals, self.dynamic = [], {}, {}
        for name, mod in imports:
            try:
                self.globals[name] = __import__(mod, fromlist=['x'])
            except ImportError:
                m, a = mod.rsplit('.', 1)
                self.globals[name] = getattr(__import__(m, fromlist=['x']), a)
        for sels, rule in rules:
            for s in sels:
                if '@' in s:
                    s, bases = s.split('@')
                    b = tuple(self.cls(x) for x in bases.split('+'))
                    self.dynamic[s] = type(s, b, {})
                self.rules.append((s.lstrip('-+'), rule))
        self.names = {s for s, rule in self.rules}

    def load_string(self, text, **kw):
        raise NotImplementedError('load_string')

    def cls(self, name):
        if name in self.dynamic:
            return self.dynamic[name]
        return find_class(name)

    def apply(self, widget):
        names = {c.__name__ for c in type(widget).__mro__} & self.names
        for s, rule in self.rules if names else ():
            if s in names:
                todo = []
                ids = {}
                self.build(widget, rule, widget, ids, todo)
                widget.ids.update(ids)
                self.finish(widget, ids, todo)

    def build(self, widget, rule, root, ids, todo):
        if rule.id:
            ids[rule.id] = widget
        for c in rule.children:
            child = self.cls(c.name)(__no_builder=True)
            widget.add_widget(child)
            # the rules of its own class come first
            self.apply(child)
            self.build(child, c, root, ids, todo)
        todo.append((widget, rule))

    def scope(self, widget, root, ids):
        g = dict(self.globals)
        g.update(ids)
        g.update(self=widget, root=root, app=App.get_running_app())
        return g

    def finish(self, root, ids, todo):
        for widget, rule in reversed(todo):
            for name, code, deps in rule.props:
                self.assign(widget, name, code, deps, root, ids)
        for widget, rule in todo:
            for name, code in rule.handlers:
                def handler(*args, _w=widget, _c=code):
                    g = self.scope(_w, root, ids)
                    g['args'] = args
                    exec(_c, g)
                widget.bind(**{name: handler})

    def assign(self, widget, name, code, deps, root, ids):
        def update(*a):
            setattr(widget, name, eval(code, self.scope(widget, root, ids)))

        update()
        scope = self.scope(widget, root, ids)
        for c in deps:
            obj = scope.get(c[0])
            for attr in c[1:]:
                if not isinstance(obj, EventDispatcher):
                    break
                if isinstance(obj, EventDispatcher) and not (obj is widget and attr == name):
                    obj.bind(**{attr: update})
                obj = getattr(obj, attr, None)


Builder = BuilderClass()
GENERIC = {}


def find_class(name):
    g = globals().get(name)
    if isinstance(g, type):
        return g
    for m in list(USER):
        if isinstance(getattr(m, name, None), type):
            return getattr(m, name)
    if name not in GENERIC:
        GENERIC[name] = type(name, (Label,), {})
    return GENERIC[name]


USER = []


# ---------------------------------------------------------------- modules

class Logger(object):
    def __getattr__(self, name):
        return lambda *a, **kw: None


class Config(object):
    def __getattr__(self, name):
        return lambda *a, **kw: None


SPECIAL = {
    'kivy': {'require': lambda v: None, '__version__': '1.9.1'},
    'kivy.utils': {'platform': 'linux'},
    'kivy.lang': {'Builder': Builder},
    'kivy.logger': {'Logger': Logger()},
    'kivy.config': {'Config': Config()},
}


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        s = SPECIAL.get(self.__name__, {})
        if name in s:
            return s[name]
        if name in globals() and name not in ('env', 'os', 'sys', 're', 'ast'):
            return globals()[name]
        if self.__name__.startswith('kivy.uix'):
            return find_class(name)
        raise AttributeError('%s has no %s' % (self.__name__, name))


class Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        import importlib.machinery
        if name == 'kivy' or name.startswith('kivy.'):
            return importlib.machinery.ModuleSpec(name, Finder, is_package=True)
        return None

    @staticmethod
    def create_module(spec):
        m = Module(spec.name)
        m.__path__ = []
        return m

    @staticmethod
    def exec_module(m):
        pass


# ------------------------------------------------------------------- pool

class Task(object):
    """Arguments are pickled when submitted, as for a real worker."""

    def __init__(self, pool, func, args, callback, error_callback, many, tag):
        self.pool, self.many, self.tag = pool, many, tag
        self.callback, self.error_callback = callback, error_callback
        self.name = getattr(func, '__name__', str(func))
        self.error = None
        try:
            self.data = pickle.dumps((func, args))
        except Exception as e:
            self.data, self.error = b'', e

    def compute(self):
        """-> pickled (ok, value)"""
        key = self.data + (b'm' if self.many else b's')
        if self.error is not None:
            return pickle.dumps((False, RuntimeError(str(self.error))))
        if key not in Task.memo:
            func, args = pickle.loads(self.data)
            try:
                if self.many:
                    # every item is pickled on its own way to a worker
                    out = [pickle.loads(pickle.dumps(func(pickle.loads(pickle.dumps(a)))))
                            for a in args]
                else:
                    out = func(*args)
                res = (True, out)
            except Exception as e:
                res = (False, e)
            try:
                r = pickle.dumps(res)
                pickle.loads(r)
            except Exception as e:
                r = pickle.dumps((False, RuntimeError('unpicklable: %r' % (res[1],))))
            Task.memo[key] = r
        return Task.memo[key]

    memo = {}

    def finish(self):
        """The result handler thread delivers the result."""
        self.pool.pending.remove(self)
        ok, value = pickle.loads(self.compute())
        if ok:
            if self.many and not value:
                return                  # MapResult of nothing: never calls back
            if self.callback:
                self.callback(value)
        elif self.error_callback:
            self.error_callback(value)


class Pool(object):
    """multiprocessing.Pool, its workers and result thread driven from outside."""
    created = []
    tag = None          # whatever the driver wants tasks to be labelled with

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **kw):
        self.pending, self.open = [], True
        Pool.created.append(self)

    def _submit(self, func, args, callback, error_callback, many):
        if not self.open:
            raise ValueError('Pool not running')
        self.pending.append(Task(self, func, args, callback, error_callback, many, Pool.tag))

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        assert not kwds
        self._submit(func, args, callback, error_callback, False)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._submit(func, list(iterable), callback, error_callback, True)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._submit(Star(func), list(iterable), callback, error_callback, True)

    def terminate(self):
        self.open, self.pending = False, []

    def close(self):
        self.open = False

    def join(self):
        pass


class Star(object):
    def __init__(self, func):
        self.func = func
        self.__name__ = getattr(func, '__name__', 'starmap')

    def __call__(self, args):
        return self.func(*args)


# -------------------------------------------------------------------- app

CODE = {}


def source(name):
    path = os.path.join(env.REPO, name)
    with open(path) as f:
        return path, f.read()


def launch(nprocs=1):
    """A fresh application, started, on its main screen. -> rktool module, app"""
    import multiprocessing
    from librksv import gettext_helper
    gettext_helper.install()
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)
    if 'zbar' not in sys.modules:
        sys.modules['zbar'] = zbar
    ClockProxy.real = ClockClass()
    WindowProxy.real = WindowClass()
    App._running = None
    Pool.created, Pool.tag = [], None
    if 'rktool' not in CODE:
        path, text = source('rktool.py')
        CODE['rktool'] = compile(text, path, 'exec')
        Builder.load(source('rktool.kv')[1])
    mod = types.ModuleType('rktool')
    mod.__file__ = os.path.join(env.REPO, 'rktool.py')
    sys.modules['rktool'] = mod
    USER[:] = [mod]
    real = multiprocessing.Pool
    multiprocessing.Pool = Pool
    try:
        exec(CODE['rktool'], mod.__dict__)
    finally:
        multiprocessing.Pool = real
    app = mod.RKToolApp(nprocs)
    app.start()
    while Clock.queue:
        Clock.tick()
    return mod, app


def suspend():
    """-> what resume() needs to carry on with this application."""
    return (ClockProxy.real, WindowProxy.real, App._running, Pool.created, Pool.tag,
            sys.modules['rktool'])


def resume(state):
    ClockProxy.real, WindowProxy.real, App._running, Pool.created, Pool.tag, mod = state
    sys.modules['rktool'] = mod
    USER[:] = [mod]


# ------------------------------------------------------------ zbar stand-in

class ZImage(object):
    """Finds what the driver put into the picture table by its pixels."""
    def __init__(self, width, height, fmt, data):
        self.key = (width, height, bytes(data))
        self.syms = []

    def __iter__(self):
        return iter(self.syms)


class ZScanner(object):
    def scan(self, img):
        img.syms = list(zbar.pictures.get(img.key, []))


class Sym(object):
    def __init__(self, kind, data):
        self.type, self.data = kind, data


zbar = types.ModuleType('zbar')
zbar.Image, zbar.ImageScanner, zbar.pictures = ZImage, ZScanner, {}
