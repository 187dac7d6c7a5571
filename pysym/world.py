# What a recipe sees of the world: programs, files, arguments. All effects are recorded, none is real.
import types, os as _os, copy
from . import engine as E
def stub(f): f._stub = True; return f
class Exit(Exception): pass
class ToolResult:
    _sym = True
    def __init__(self, args, returncode, stdout, stderr): self.args = args; self.returncode = returncode; self.stdout = stdout; self.stderr = stderr
    def check_returncode(self):
        if self.returncode != 0: raise CalledProcessError(self.returncode, self.args)
class CalledProcessError(Exception):
    def __init__(self, returncode, cmd, output=None, stderr=None): super().__init__('command failed'); self.returncode = returncode; self.cmd = cmd; self.output = self.stdout = output; self.stderr = stderr
for _c in (ToolResult,):
    for _n in ('check_returncode',): getattr(_c, _n)._stub = True
class File:
    def __init__(self, path, present=True, kind='file', content=None, by=None): self.path = path; self.present = present; self.kind = kind; self.content = content; self.by = by; self.initial = present is True
class World:
    CWD = '/__cwd__'
    def __init__(self, repo, tool, env=None, faults=()):
        self.repo = repo; self.tool = tool; self.files = []; self.events = []; self.out = []; self.err = []; self.env = dict(env or {}); self.env.setdefault('PATH', '/bin'); self.modules = {}; self.status = None; self.faults = set(faults); self.mods = {}
    # files
    def place(p):
        while len(p) > 1 and (p.endswith('/.') or p.endswith('/')): p = p[:-2] if p.endswith('/.') else p[:-1]
        while p.startswith('./') and len(p) > 2: p = p[2:]
        return p.replace('/./', '/')
    def find(self, path):
        path = World.place(path)
        for f in self.files:
            if E.same(f.path, path) and (f.present if isinstance(f.present, bool) else bool(f.present)): return f
        return None
    def put(self, path, content=None, kind='file', by=None):
        path = World.place(path)
        for f in self.files:
            if E.same(f.path, path): f.present = True; f.kind = kind; f.content = content; f.by = by; return f
        f = File(path, True, kind, content, by); f.initial = False; self.files.append(f); return f
    def madeBy(self, path, cond, content, by):   # the file exists if cond, else as before
        path = World.place(path)
        for f in self.files:
            if E.same(f.path, path): f.present = True if f.present is True else cond; f.content = content; f.by = by; return
        f = File(path, cond, 'file', content, by); f.initial = False; self.files.append(f)
    # programs
    def run(self, argv, kw):
        argv = [E.norm(a) if isinstance(a, str) else a for a in argv]
        for a in argv:
            if not isinstance(a, str): raise TypeError('expected str, bytes or os.PathLike object, not ' + type(a).__name__)
        code, out, err, why = self.tool(argv, kw)
        self.events.append(dict(kind='run', argv=argv, code=code, out=out, err=err, why=why))
        if code is None: raise FileNotFoundError(2, 'No such file or directory', argv[0])
        return code, out, err
    def subprocess(self):
        w = self; m = types.ModuleType('subprocess'); m.PIPE = -1; m.STDOUT = -2; m.DEVNULL = -3; m.CalledProcessError = CalledProcessError; m.CompletedProcess = ToolResult; m.SubprocessError = Exception; m.TimeoutExpired = type('TimeoutExpired', (Exception,), {})
        def finish(args, kw, code, out, err):
            text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
            def give(s, key):
                if not (kw.get('capture_output') or kw.get(key) == -1): return None
                return s if text else (Bytes(s) if E.issym(s) else s.encode())
            return ToolResult(args, code, give(out, 'stdout'), give(err, 'stderr'))
        @stub
        def run(args, **kw):
            if isinstance(args, str): raise E.Unsupported('shell')
            args = list(args); c, o, e = w.run(args, kw); r = finish(args, kw, c, o, e)
            if kw.get('check') and r.returncode != 0: raise CalledProcessError(r.returncode, args, r.stdout, r.stderr)
            return r
        @stub
        def call(args, **kw): return run(args, **kw).returncode
        @stub
        def check_call(args, **kw): run(args, check=True, **kw); return 0
        @stub
        def check_output(args, **kw): kw['stdout'] = -1; return run(args, check=True, **kw).stdout
        class Popen:
            _sym = True
            def __init__(self, args, **kw): self.kw = kw; self.args = list(args); self.r = run(self.args, **kw); self.returncode = None; self.pid = 4711; self.stdin = kw.get('stdin'); self.stdout = None; self.stderr = None
            @stub
            def communicate(self, input=None, timeout=None): self.returncode = self.r.returncode; return (self.r.stdout, self.r.stderr)
            @stub
            def wait(self, timeout=None): self.returncode = self.r.returncode; return self.returncode
            @stub
            def poll(self): return self.wait()
            @stub
            def __enter__(self): return self
            @stub
            def __exit__(self, *a): self.wait(); return False
        m.run = run; m.call = call; m.check_call = check_call; m.check_output = check_output; m.Popen = Popen; return m
    def shutil(self):
        w = self; m = types.ModuleType('shutil')
        class SameFileError(OSError): pass
        @stub
        def copyfile(src, dst, **kw):
            f = w.find(src)
            if f is None: raise FileNotFoundError(2, 'No such file or directory', src)
            if f.kind == 'dir': raise IsADirectoryError(21, 'Is a directory', src)
            if E.same(src, dst): raise SameFileError('same file')
            d = w.find(dst)
            if d is not None and d.kind == 'dir': raise IsADirectoryError(21, 'Is a directory', dst)
            w.events.append(dict(kind='copy', src=src, dst=dst)); w.put(dst, f.content, by='copy'); return dst
        @stub
        def copy_(src, dst, **kw):
            d = w.find(dst)
            if d is not None and d.kind == 'dir': dst = dst + '/' + src.split('/')[-1]
            return copyfile(src, dst)
        @stub
        def copyfileobj(a, b, length=0): b.write(a.read())
        m.copyfile = copyfile; m.copy = m.copy2 = copy_; m.copyfileobj = copyfileobj; m.SameFileError = SameFileError; m.Error = OSError
        @stub
        def which(n, *a, **k): return None
        m.which = which
        @stub
        def move(a, b, **k): w.rename(a, b); return b
        m.move = move
        return m
    def rename(self, a, b):
        f = self.find(a)
        if f is None: raise FileNotFoundError(2, 'No such file or directory', a)
        f.present = False; self.put(b, f.content, f.kind, by=f.by); self.events.append(dict(kind='copy', src=a, dst=b))
    def osmod(self):
        w = self; m = types.ModuleType('os'); m.environ = w.env; m.sep = '/'; m.linesep = '\n'; m.pathsep = ':'; m.devnull = '/dev/null'; m.name = 'posix'; m.curdir = '.'; m.pardir = '..'; m.extsep = '.'; m.altsep = None; m.F_OK = 0; m.X_OK = 1; m.R_OK = 4; m.W_OK = 2
        @stub
        def getcwd(): return w.CWD
        @stub
        def getenv(k, d=None): return E.meth(w.env, 'get', k, d)
        @stub
        def fspath(p): return p
        @stub
        def mkdir(p, mode=0o777, **k):
            if 'mkdir' in w.faults and E.C.pick(2, 'mkdir fails'): w.fault = True; w.events.append(dict(kind='fault', what='mkdir', path=p)); raise PermissionError(13, 'Permission denied', p)
            if w.find(p) is not None: raise FileExistsError(17, 'File exists', p)
            w.events.append(dict(kind='mkdir', path=p)); w.put(p, kind='dir', by='mkdir')
        @stub
        def makedirs(p, mode=0o777, exist_ok=False):
            f = w.find(p)
            if f is not None and exist_ok and f.kind == 'dir': return
            mkdir(p)
        class Stat:
            _sym = True
            def __init__(self, f): self.st_mode = 0o100755 if f.kind == 'file' else 0o040755; self.st_size = 1; self.st_mtime = 0
        @stub
        def stat(p, **k):
            f = w.find(p)
            if f is None: raise FileNotFoundError(2, 'No such file or directory', p)
            return Stat(f)
        @stub
        def remove(p):
            f = w.find(p)
            if f is None: raise FileNotFoundError(2, 'No such file or directory', p)
            f.present = False; w.events.append(dict(kind='remove', path=p))
        @stub
        def rename(a, b): w.rename(a, b)
        @stub
        def listdir(p='.'):
            if p in w.dirs: return list(w.dirs[p])
            raise FileNotFoundError(2, 'No such file or directory', p)
        @stub
        def access(p, mode): return w.find(p) is not None
        @stub
        def getpid(): return 4711
        @stub
        def _exit(c): raise SystemExit(c)
        for f in (getcwd, getenv, fspath, mkdir, makedirs, stat, remove, rename, listdir, access, getpid, _exit): setattr(m, f.__name__, f)
        m.lstat = stat; m.unlink = remove; m.replace = rename; m.error = OSError; m.PathLike = _os.PathLike; return m
    dirs = {}
    def sysmod(self, argv):
        w = self; m = types.ModuleType('sys'); m.argv = argv; m.executable = '/usr/bin/python3'; m.platform = 'linux'; m.version_info = (3, 12, 3); m.path = []; m.modules = {}; m.maxsize = 2**63 - 1
        class Stream:
            _sym = True
            def __init__(self, l): self.l = l
            @stub
            def write(self, s): self.l.append(s); return len(s)
            @stub
            def flush(self): pass
            @stub
            def isatty(self): return False
            @stub
            def writelines(self, ls): self.l.extend(ls)
        m.stdout = Stream(w.out); m.stderr = Stream(w.err); m.stdin = Stream([])
        @stub
        def exit(c=None): raise SystemExit(c)
        m.exit = exit; return m
    def jsonmod(self):
        w = self; import json as real; m = types.ModuleType('json'); m.JSONDecodeError = real.JSONDecodeError
        @stub
        def loads(s, **k):
            s = E.norm(s).strip() if isinstance(s, str) else s
            if isinstance(s, str) and len(s) == 1 and E.issym(s) and E.tok(s).kind == 'j': return copy.deepcopy(E.tok(s).obj)
            return real.loads(E.deep(s), **k)
        @stub
        def dumps(o, **k): return E.C.new('j', None, obj=copy.deepcopy(o))
        @stub
        def dump(o, f, **k): f.write(dumps(o))
        @stub
        def load(f): return loads(f.read())
        m.loads = loads; m.dumps = dumps; m.dump = dump; m.load = load; return m
    def opener(self):
        w = self
        class Handle:
            _sym = True
            def __init__(self, f, mode): self.f = f; self.mode = mode; self.buf = [f.content] if 'a' in mode else []; self.closed = False; self.name = f.path
            @stub
            def read(self, n=-1): return self.f.content if 'b' not in self.mode else self.f.content.encode()
            @stub
            def write(self, s):
                if w.writeFault: w.writeFault = False; w.fault = True; w.events.append(dict(kind='fault', what='write', path=self.f.path)); raise OSError(28, 'No space left on device')
                self.buf.append(s if isinstance(s, str) else s.decode()); self.f.content = ''.join(self.buf); return len(s)
            @stub
            def readlines(self): return self.f.content.splitlines(True)
            @stub
            def __iter__(self): return iter(self.readlines())
            @stub
            def flush(self): pass
            @stub
            def fileno(self): return 99
            @stub
            def close(self): self.closed = True
            @stub
            def __enter__(self): return self
            @stub
            def __exit__(self, *a): self.close(); return False
        @stub
        def open(path, mode='r', *a, **k):
            f = w.find(path)
            if 'r' in mode:
                if f is None: raise FileNotFoundError(2, 'No such file or directory', path)
                if f.kind == 'dir': raise IsADirectoryError(21, 'Is a directory', path)
                return Handle(f, mode)
            if f is not None and f.kind == 'dir': raise IsADirectoryError(21, 'Is a directory', path)
            old = f.content if f is not None and 'a' in mode else ''
            if 'x' in mode and f is not None: raise FileExistsError(17, 'File exists', path)
            f = w.put(path, old, by='write'); w.events.append(dict(kind='write', path=path)); return Handle(f, mode)
        return open
    writeFault = False; fault = False
    def imports(self, argv):
        w = self; mods = w.mods
        mods.update(subprocess=self.subprocess(), shutil=self.shutil(), os=self.osmod(), sys=self.sysmod(argv), json=self.jsonmod())
        st = types.ModuleType('string'); import string as rs
        for n in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'punctuation', 'whitespace', 'hexdigits'): setattr(st, n, getattr(rs, n))
        class Template:
            _sym = True
            def __init__(self, t): self.template = t
            def _go(self, m, k, safe):
                s = E.conc(E.norm(self.template), 'en') if E.issym(self.template) else self.template; out = []; i = 0; ident = rs.ascii_letters + rs.digits + '_'
                d = dict(m or {}); d.update(k)
                while i < len(s):
                    if not E.same(s[i], '$'): out.append(s[i]); i += 1; continue
                    i += 1
                    if i < len(s) and E.same(s[i], '$'): out.append('$'); i += 1; continue
                    j = i; brace = i < len(s) and E.same(s[i], '{')
                    if brace: j += 1
                    a = j
                    while j < len(s) and E.inset(s[j], ident if j > a else rs.ascii_letters + '_'): j += 1
                    name = s[a:j]
                    bad = not name or brace and not (j < len(s) and E.same(s[j], '}'))
                    if bad:
                        if safe: out.append('$'); continue
                        raise ValueError('Invalid placeholder in string')
                    if brace: j += 1
                    key = E.canon(d, name)
                    if key not in d:
                        if safe: out.append('$' + s[i:j]); i = j; continue
                        raise KeyError(name)
                    out.append(E.texts(d[key])); i = j
                return ''.join(out)
            @stub
            def substitute(self, m=None, **k): return self._go(m, k, False)
            @stub
            def safe_substitute(self, m=None, **k): return self._go(m, k, True)
        st.Template = Template; mods['string'] = st
        self.extra = {'open': self.opener(), 'exit': mods['sys'].exit, 'quit': mods['sys'].exit, 'print': self.printer()}
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'posix' or name == 'nt': raise ImportError(name)
            if name == 'os.path': name = 'os'; 
            if name in ('posixpath', 'genericpath') or name == 'os':
                if 'posixpath' not in mods:
                    mods['posixpath'] = None
                    import posixpath as pp, genericpath as gp
                    mods['genericpath'] = E.load(gp.__file__, 'genericpath', 'genericpath', imp, self.extra); mods['posixpath'] = E.load(pp.__file__, 'posixpath', 'posixpath', imp, self.extra)
                    mods['os'].path = mods['posixpath']
                return mods[name]
            if name in mods:
                if mods[name] is None: raise ImportError(name)
                return mods[name]
            p = f'{self.repo}/recipes/{name}.py'
            if _os.path.exists(p): mods[name] = E.load(p, f'recipes/{name}.py', name, imp, self.extra); return mods[name]
            if name.split('.')[0] in ('datetime', 're', 'stat', 'xml', 'functools', 'itertools', 'collections', 'operator', 'typing', 'enum', 'dataclasses', 'contextlib', 'copy', '__future__', 'traceback', 'errno', 'signal', 'time', 'shlex', 'textwrap', 'math', 'io'): return __import__(name, globals and {k: v for k, v in globals.items() if k in ('__name__', '__package__')}, None, fromlist, level)
            raise E.Unsupported('import of ' + name)
        return imp
    def printer(self):
        w = self
        @stub
        def print_(*a, sep=' ', end='\n', file=None, flush=False):
            (file.l if file is not None else w.out).append((sep if sep is not None else ' ').join(E.texts(x) for x in a) + end)
        return print_
    def execute(self, recipe, action, obj):
        """runs the recipe as a program; sets status (an integer, or a SymInt before the conversion to an exit status)"""
        path = f'{self.repo}/recipes/{recipe}'; arg = E.C.new('j', None, obj=obj)
        imp = self.imports(['/lib/recipes/' + recipe, action, arg]); imp('os')
        try: E.load(path, 'recipes/' + recipe, '__main__', imp, self.extra); code = 0; self.how = 'end'
        except SystemExit as e: code = e.code; self.how = 'exit'
        except RecursionError: raise
        except Exception as e:
            if isinstance(e, AttributeError) and str(e).startswith(tuple(f"module '{x}' has no" for x in ('os', 'sys', 'json', 'shutil', 'subprocess', 'string'))) or isinstance(e, NotImplementedError): raise E.Unsupported(str(e))
            code = 1; self.how = 'exception: ' + type(e).__name__ + ': ' + E.texts(e)[:200]
        if code is None: code = 0
        if isinstance(code, str): code = 1
        if isinstance(code, E.SymBool): code = E.SymInt(E._num(code))
        self.code = code & 255 if isinstance(code, (int, E.SymInt)) else 1
        self.ok = self.code == 0
        return self.ok
class Bytes:
    _sym = True
    def __init__(self, s): self.s = s
    @stub
    def decode(self, *a, **k): return self.s
    def __eq__(self, o): return (len(o) == 0 and len(self.s) == 0) if isinstance(o, bytes) else NotImplemented
    def __ne__(self, o): return not self == o
    def __bool__(self): return len(self.s) > 0
    def __len__(self): return len(self.s)
