#!/usr/bin/env python3
# C28, C29, C34: the recipes, executed symbolically (pysym/), with the programs they run, the files and their arguments
# arbitrary within bounds. Counterexamples and sampled paths are replayed with the real recipe and stand-ins for programs.
import sys, os, json, time, subprocess, shutil, tempfile, concurrent.futures as cf, copy
ROOT = os.path.dirname(os.path.abspath(__file__))
try: import z3
except ImportError: z3 = None
if z3: from pysym import engine as E, world as W; from pysym.world import World
RC = ((0, 255), (-15, -15), (-11, -11), (-9, -9), (-6, -6))
# ---------------------------------------------------------------- helpers
def P(n, name): return E.C.pick(n, name)
def pick(name, xs): return xs[P(len(xs), name)]
def claim(c, msg): E.C.claim(c, msg)
def eq(a, b, msg): claim(E.eqv(a, b), msg)
def same(a, b): return E.same(a, b)
def dedup(xs):
    out = []
    for x in xs:
        if not any(same(x, y) for y in out): out.append(x)
    return out
def zeq(code): return z3.BoolVal(False) if code is None else (code == 0).e if isinstance(code, E.SymInt) else z3.BoolVal(code == 0)
def okz(w): return w.ok.e if isinstance(w.ok, E.SymBool) else z3.BoolVal(bool(w.ok))
def works(w): return [e for e in w.events if e['kind'] == 'run']
def tool(w, start=True, pre=None, out='', outputs=None):
    """a program: cannot be started, or ends with any status; makes its output if it succeeds"""
    def run(argv, kw):
        if start and P(2, 'starts') == 1: return None, '', '', 'tool'
        code = E.C.num('status', *RC); made = outputs(argv) if outputs else None
        if made is not None: w.madeBy(made, E.SymBool((code == 0).e), 'output of ' + str(len(w.events)), 'tool')
        return code, out, '', 'tool'
    return run
def info(src='.', tgt='T', **k): return dict(dict(source_dir=src, target_dir=tgt, build_id='b1d', start_time=1700000000), **k)
def deps_any(n, aspect='all'):
    out = []
    for _ in range(n):
        d = {'origin': pick('origin', ['project', 'system', 'generated', 'pkg-config'])}; r = pick('rel', [None, 'implementation', 'include', 'external', 'resource'])
        d['ref'] = {'project': 'o', 'generated': 'T/o', 'system': 's', 'pkg-config': 'q'}[d['origin']] + E.C.char('ref', 'ab') 
        if r: d['rel'] = r
        out.append(d)
    return out
def optarg(argv):
    for i, a in enumerate(argv):
        if a == '-o' and i + 1 < len(argv): return argv[i + 1]
    return None
# pkg-config: the answer is a function of the name of the library
def pkg(argv, mode, code):
    n = argv[-1]; q = argv[1] if len(argv) > 1 else ''
    if code is None: return None, '', '', 'pkg'
    a = {'--cflags': [f'-I/opt/{n}', f'-DUSE{n}', '-pthread'], '--libs-only-l': [f'-l{n}1', f'-l{n}2', '-lm'], '--libs-only-L': [f'-L/opt/{n}', '-L/opt/lib']}.get(q, [])
    a = [] if mode == 0 else a[:1] if mode == 1 else a
    return code, ' '.join(a) + (' \n' if mode == 2 else '\n'), '', 'pkg'
def expected_cflags(n, mode): return [[], [f'-I/opt/{n}'], [f'-I/opt/{n}', f'-DUSE{n}', '-pthread']][mode]
def expected_libs(n, mode): return [[], [f'-l{n}1'], [f'-l{n}1', f'-l{n}2', '-lm']][mode]
def expected_dirs(n, mode): return [[], [f'-L/opt/{n}'], [f'-L/opt/{n}', '-L/opt/lib']][mode]
def link_items(deps, mode):
    items = []; dirs = []
    for d in deps:
        o, r = d['origin'], d.get('rel')
        if o in ('generated', 'project'):
            if r == 'implementation': items.append(d['ref'])
        elif o == 'pkg-config': items += list(reversed(expected_libs(d['ref'], mode))); dirs += expected_dirs(d['ref'], mode)
        elif r == 'external': items.append('-l' + d['ref'])
    items = dedup(items); items.reverse(); return items, dedup(dirs)
def islib(a): return a.startswith('-l') and not E.issym(a[:2])
def isobj(a): return a.startswith('o') or a.startswith('T/o')
def check_link(args, deps, mode, what):
    want, dirs = link_items(deps, mode); got = [a for a in args if islib(a) or isobj(a)]
    eq(len(got), len(want), f'{what}: not exactly the objects and libraries that are needed, each once')
    for a, b in zip(got, want): eq(a, b, f'{what}: an object or library is missing or comes after what it needs')
    gd = dedup([a for a in args if a.startswith('-L')]); eq(len(gd), len(dirs), f'{what}: not exactly the library directories')
    for d in dirs: claim(any(same(d, x) for x in gd), f'{what}: a library directory is missing')
    return [a for a in args if not (islib(a) or isobj(a) or a.startswith('-L'))]
def take(args, want, what):   # each of want occurs in args; returns the others
    rest = list(args)
    for x in want:
        for i, a in enumerate(rest):
            if same(a, x): del rest[i]; break
        else: claim(False, f'{what}: {x if not E.issym(x) else "an argument"} is missing')
        rest = [a for a in rest if not same(a, x)] # given again: harmless
    return rest
# ---------------------------------------------------------------- C28: outcome
def outcome(w, targets, extra_ok=True, msg='the recipe'):
    runs = works(w); good = z3.And([zeq(e['code']) for e in runs] + [z3.BoolVal(bool(extra_ok) and not w.fault)])
    claim(E.SymBool(z3.Implies(okz(w), good)), f'C28: {msg} reports success although something has failed')
    claim(E.SymBool(z3.Implies(good, okz(w))), f'C28: {msg} reports a failure although nothing has failed: {getattr(w, "how", "")}')
    if bool(w.ok):
        E.C.reach('success')
        for t in targets:
            f = w.find(t); claim(f is not None, f'C28: {msg} reports success but a target does not exist'); claim(f.by is not None, f'C28: {msg} reports success but did not make a target')
    else: E.C.reach('failure')
def h28_cxx(B):
    w = World(REPO, None); mode = 1; actions = pick('actions', B.get('actions', [None, ['link'], ['link', 'run'], ['sanitize'], ['link', 'run', 'sanitize']])); src = pick('source', ['m.cpp', 'p/m.h', 'p/x.HPP'] if actions is None else ['p/m.cpp'])
    targets = ['T/m', 'T/m2', 'T/m3'][:pick('targets', [1, 2] if not B.get('deep') else [1, 2, 3])]
    if P(2, 'present'): w.files.append(W.File(targets[0], True, content='old'))
    if len(targets) > 1 and P(2, 'directory in the way'): w.files.append(W.File(targets[1], True, 'dir'))
    deps = deps_any(B.get('deps', 1)) if actions in (None, ['link']) else []
    work = tool(w, outputs=optarg); 
    def run(argv, kw):
        if argv[0] == 'pkg-config': 
            k = P(3, 'pkg-config'); return pkg(argv, 1, None if k == 2 else E.C.num('status', *RC) if k == 1 else 0)
        return work(argv, kw)
    w.tool = run; cfg = {'backend': 'g++', 'cflags': ['-g'], 'iquote': ['.']}
    if actions is not None: cfg['actions'] = actions
    w.execute('cxx_compiler.py', 'compile', dict(source_file=src, targets=targets, dependencies=deps, compiler_cfg=cfg, build_info=info(), log_format='plain_text', task_id=3))
    if src != 'm.cpp' and actions is None: claim(len(works(w)) == 0 and bool(w.ok), 'C28: a header is compiled'); E.C.reach('header'); return
    blocked = any(f.kind == 'dir' for f in w.files); outcome(w, targets, not blocked, 'compiling')
    comp = [e for e in works(w) if e['argv'][0] == 'g++']; test = [e for e in works(w) if same(e['argv'][0], targets[0])]; tidy = [e for e in works(w) if e['argv'][0] == 'clang-tidy']
    claim(len(comp) <= 1 and len(test) <= 1, 'C28: a program is run more than once')
    if bool(w.ok): claim(len(comp) == 1, 'C28: success is reported but nothing has been compiled'); claim((len(test) == 1) == bool(actions and 'run' in actions), 'C28: a test is not run, or a program that is no test is'); claim((len(tidy) == 1) == bool(actions and 'sanitize' in actions), 'C28: a check of the source is not run'); E.C.reach('test run' if test else 'compiled')
    if test: claim(E.SymBool(zeq(comp[0]['code'])), 'C28: a test is run although it could not be linked'); claim(works(w).index(comp[0]) < works(w).index(test[0]), 'C28: a test is run before it is linked')
def h28_linker(B):
    w = World(REPO, None); r = pick('recipe', ['cxx_linker.py', 'make_lib.py']); work = tool(w, outputs=(lambda a: optarg(a)) if r[0] == 'c' else (lambda a: a[2] if len(a) > 2 else None)); deps = deps_any(B.get('deps', 1))
    def run(argv, kw):
        if argv[0] == 'pkg-config':
            k = P(3, 'pkg-config'); return pkg(argv, 1, None if k == 2 else E.C.num('status', *RC) if k == 1 else 0)
        return work(argv, kw)
    w.tool = run
    w.execute(r, 'compile', dict(source_file='m.app.maikerule', targets=['T/m'], dependencies=deps, compiler_cfg={'cflags': ['-g']}, build_info=info(), log_format='ansi_term', task_id=3))
    outcome(w, ['T/m'], True, 'linking' if r[0] == 'c' else 'archiving')
    if bool(w.ok): claim(sum(e['argv'][0] != 'pkg-config' for e in works(w)) == 1, 'C28: success is reported but nothing has been linked'); E.C.reach(r)
def h28_generic(B):
    w = World(REPO, None); w.tool = tool(w, outputs=lambda a: a[-1]); bad = P(3, 'template')
    w.execute('generic.py', 'compile', dict(source_file='a.x', targets=['T/a.x.y'], dependencies=[], compiler_cfg={'target_filename_ext': 'y', 'compilation_cmd': {'executable': 'conv', 'exec_origin': 'system', 'args': [['$source_file', '$target'], ['$nothing', '$target'], ['$', '$target']][bad]}}, build_info=info(), log_format='plain_text', task_id=3))
    outcome(w, ['T/a.x.y'], bad == 0, 'the generic recipe')
    if bad: claim(len(works(w)) == 0, 'C28: a program is run with an argument that has no meaning'); E.C.reach('meaningless argument')
    elif bool(w.ok): claim(len(works(w)) == 1, 'C28: success is reported but the program has not been run')
def h28_copy(B):
    w = World(REPO, None); targets = ['T/a', 'T/b', 'T/c'][:P(3, 'targets') + 1]; present = P(2, 'source present')
    if present: w.files.append(W.File('s', True, content='C')); 
    dirs = [P(3, 'directory in the way') if i < 2 else 0 for i in range(len(targets))]
    for t, d in zip(targets, dirs):
        if d: w.files.append(W.File(t, True, 'dir' if d == 1 else 'file', content='old'))
    w.execute('copy_file.py', 'compile', dict(source_file='s', targets=targets, dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    good = present and 1 not in dirs; outcome(w, targets, good, 'copying')
    if good:
        for t in targets: claim(w.find(t).content == 'C', 'C28: a copy differs from the original')
        claim(w.find('s') is not None and w.find('s').content == 'C', 'C28: a file that is copied is altered')
def h28_mkdir(B):
    w = World(REPO, None, faults=['mkdir']); targets = [['T/d'], ['T/d/.'], ['T/d', 'T/e'], ['T']][P(4, 'targets')]; norm = [t[:-2] if t.endswith('/.') else t for t in targets]; kinds = [P(3, 'present') for t in targets]
    for t, k in zip(norm, kinds):
        if k: w.files.append(W.File(t, True, 'dir' if k == 1 else 'file', content='old'))
    w.execute('make_directory.py', 'compile', dict(source_file='d', targets=targets, dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    good = 2 not in kinds and not w.fault; claim(bool(w.ok) == good, 'C28: making a directory ' + ('fails although nothing has failed' if good else 'is reported successful although there is none')); E.C.reach('success' if good else 'failure')
    if good:
        for t in norm: f = w.find(t); claim(f is not None and f.kind == 'dir', 'C28: success is reported but there is no directory')
def h28_doc(B):
    w = World(REPO, None); w.tool = tool(w, outputs=optarg, out=''); w.files.append(W.File(f'{REPO}/recipes/doc2html.xsl', True, content='x')); w.xsl = True
    if P(2, 'style sheet missing'): w.files.pop(); w.xsl = False
    w.execute('doc2html.py', 'compile', dict(source_file='p/a.doc.xml', targets=['T/p/a.html'], dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    outcome(w, ['T/p/a.html'], w.xsl, 'converting a document')
    if bool(w.ok): claim(len(works(w)) == 1, 'C28: success is reported but the program has not been run')
def xml_run(w, recipe, arg):
    import xml.etree.ElementTree as ET
    saved = ET.ElementTree.write
    def write(self, target, *a, **k):
        if not isinstance(target, str): return saved(self, target, *a, **k)
        f = w.put(target, '', by='write'); w.events.append(dict(kind='write', path=target))
        if w.writeFault: w.fault = True; w.events.append(dict(kind='fault', what='write', path=target)); raise OSError(28, 'No space left on device')
        f.content = ET.tostring(self.getroot(), encoding='unicode')
    write._stub = True; ET.ElementTree.write = write
    try: w.execute(recipe, 'compile', arg)
    finally: ET.ElementTree.write = saved
def h28_md(B):
    w = World(REPO, None); outs = ['<section id="a"><h1>T</h1><p>x</p></section>\n', '<p>x</p>', '', '<p>x']; o = P(4, 'output'); w.tool = tool(w, out=outs[o]); w.writeFault = bool(P(2, 'write fails')); wf = w.writeFault
    xml_run(w, 'md2htmlpart.py', dict(source_file='p/a.md', targets=['T/p/a.xml'], dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    good = o != 3 and not wf
    outcome(w, ['T/p/a.xml'], good, 'converting a text')
    if bool(w.ok) and o == 0: c = w.find('T/p/a.xml').content; claim('title="T"' in c and '<p>x</p>' in c and '<h1' not in c, 'C28: the text is not what the program has made of it')
def h28_sass(B):
    w = World(REPO, None); import types; m = types.ModuleType('sass'); k = P(2, 'compiles')
    def comp(string=None, **kw):
        if k: raise ValueError('Invalid CSS')
        return '/*' + string + '*/'
    comp._stub = True; m.compile = comp; w.mods['sass'] = m; targets = ['T/a', 'T/b'][:P(2, 'targets') + 1]; present = P(2, 'present'); d = P(2, 'directory in the way')
    if present: w.files.append(W.File('s', True, content='C'))
    if d: w.files.append(W.File(targets[-1], True, 'dir'))
    w.execute('sass2css.py', 'compile', dict(source_file='s', targets=targets, dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    good = not k and present and not d; outcome(w, targets, good, 'compiling a style sheet')
    if good:
        for t in targets: claim(w.find(t).content == '/*C*/', 'C28: a style sheet is not what the program has made of it')
# ---------------------------------------------------------------- C29: what programs are run with
def full(p): return E.call(PP().normpath, E.call(PP().join, World.CWD, p))
_pp = []
def PP():
    if not _pp:
        w = World(REPO, None); imp = w.imports(['x']); imp('os'); _pp.append(w.mods['posixpath'])
    return _pp[0]
def h29_cxx(B):
    w = World(REPO, None); focus = pick('focus', B['focus']); c = E.C; mode = 1; actions = None; log = 'plain_text'; cflags = ['-g']; iquote = ['.']; src_dir, tgt_dir, src = '.', 'T', 'p/m.cpp'; deps = []; std = None; targets = ['T/p/m.o']; bi = {}; task = 3; backend = 'g++'
    if focus == 'flags': cflags = ['-f' + c.char('cflag', 'abc') for _ in range(P(B.get('flags', 2) + 1, 'cflags'))]; log = pick('log', ['ansi_term', 'plain_text']); std = pick('std', [None, {'min': 'c++17'}, {'selected': 'c++' + c.char('std', '1279') + c.char('std', '0137')}]); backend = pick('backend', ['g++', 'clang++-18']); task = c.num('task', (0, 2**63 - 1)); actions = pick('actions', [None, [], ['link']])
    if focus == 'dirs':
        src_dir, src = pick('where', [('.', 'm.cpp'), ('.', 'p/m.cpp'), ('src', 'src/m.cpp'), ('src', 'src/p/q/m.cpp'), ('/abs/s', '/abs/s/p/m.cpp'), ('../s', '../s/m.cpp'), ('.', 'p/m.cc')]); tgt_dir = pick('target dir', ['T', 'out/T']); iquote = [pick('iquote', ['.', 'i' + c.char('iquote', 'ab'), 'a/' + c.char('iquote', 'ab')]) for _ in range(P(B.get('iquotes', 2) + 1, 'iquotes'))]; bi = dict(start_time=pick('time', [0, 1700000000]), build_id='i' + c.char('id', '0f')); targets = [tgt_dir + '/m.o', tgt_dir + '/n.o'][:P(2, 'targets') + 1]
    if focus == 'link': actions = pick('actions', [['link'], ['link', 'run'], ['run', 'link']]); mode = pick('libraries', [0, 1, 2]); deps = deps_any(P(B.get('deps', 2) + 1, 'deps'))
    if focus == 'compile': mode = pick('libraries', [0, 1, 2]); deps = deps_any(P(B.get('deps', 2) + 1, 'deps'))
    def run(argv, kw):
        if argv[0] == 'pkg-config': return pkg(argv, mode, 0)
        o = optarg(argv)
        code = 0 if argv[0] == backend else c.num('status', *RC)
        if o is not None: w.put(o, 'output', by='tool')
        return code, '', '', 'tool'
    w.tool = run; cfg = {'backend': backend, 'cflags': cflags, 'iquote': iquote}
    if actions is not None: cfg['actions'] = actions
    if std: cfg['std_revision'] = std
    arg = dict(source_file=src, targets=targets, dependencies=deps, compiler_cfg=cfg, build_info=info(src_dir, tgt_dir, **bi), log_format=log, task_id=task)
    w.execute('cxx_compiler.py', 'compile', copy.deepcopy(arg)); link = bool(actions and 'link' in actions)
    comp = [e for e in works(w) if e['argv'][0] == backend]; claim(len(comp) == 1, 'C29: the compiler is not run exactly once'); a = list(comp[0]['argv'])[1:]; others = [e for e in works(w) if e['argv'][0] not in (backend, 'pkg-config')]
    if link and 'run' in actions: claim(len(others) == 1, 'C29: a test is not run'); claim(len(others[0]['argv']) == 1, 'C29: a test is run with arguments'); eq(others[0]['argv'][0], targets[0], 'C29: something else than the test is run')
    else: claim(len(others) == 0, 'C29: a program is run that nobody asked for')
    i = [k for k, x in enumerate(a) if x == '-o']; claim(len(i) == 1 and i[0] + 1 < len(a), 'C29: the output is not given'); eq(a[i[0] + 1], targets[0], 'C29: the output is not the target'); del a[i[0]:i[0] + 2]
    for t in targets[1:]: claim(any(e['kind'] == 'copy' and same(e['dst'], t) and same(e['src'], targets[0]) for e in w.events), 'C29: a further target is not a copy of the first')
    s = [k for k, x in enumerate(a) if same(x, src)]; claim(len(s) == 1, 'C29: the source file is not given exactly once')
    if link:
        after = a[s[0] + 1:]; claim(not any(islib(x) or isobj(x) for x in a[:s[0]]), 'C29: something is linked before the source that uses it'); a = check_link(a, deps, mode, 'C29: compiling and linking')
    else: claim(not any(islib(x) or isobj(x) or x.startswith('-L') for x in a), 'C29: a source file that is not linked is given an object or library')
    a = [x for x in a if not same(x, src)]
    # include directories, in order; each for sources and for generated files
    sub = E.call(PP().relpath, E.call(PP().dirname, src) or '.', src_dir); want = []
    for q in [sub] + iquote: want += [full(src_dir + '/' + q), full(tgt_dir + '/' + q)]
    got = dedup([full(x[7:].strip()) for x in a if x.startswith('-iquote')]); own = want[:2]; want = dedup(want)
    if '/' not in src and not (len(got) > 1 and same(got[0], own[0])): want = dedup([full(d + '/' + q) for q in iquote for d in (src_dir, tgt_dir)])  # a source at the top: that place need not be named
    eq(len(got), len(want), 'C29: not exactly the include directories')
    for x, y in zip(got, want): eq(x, y, 'C29: an include directory is missing, wrong or in the wrong place')
    a = [x for x in a if not x.startswith('-iquote')]
    inc = dedup(['-include' + d['ref'] for d in deps if d['origin'] != 'pkg-config' and d.get('rel') == 'include']); gi = dedup([x for x in a if x.startswith('-include')]); eq(len(gi), len(inc), 'C29: not exactly the files to be included first')
    for x, y in zip(gi, inc): eq(x, y, 'C29: not exactly the files to be included first')
    a = [x for x in a if not x.startswith('-include')]
    pf = dedup([f for d in deps if d['origin'] == 'pkg-config' for f in expected_cflags(d['ref'], mode)]); gp = dedup([x for x in a if x.startswith('-I') or x.startswith('-DUSE') or x == '-pthread']); eq(len(gp), len(pf), 'C29: not exactly the flags of the libraries')
    for x, y in zip(gp, pf): eq(x, y, 'C29: not exactly the flags of the libraries, in order')
    a = [x for x in a if not (x.startswith('-I') or x.startswith('-DUSE') or x == '-pthread')]
    gc = dedup([x for x in a if x.startswith('-f') and not x.startswith('-fdiag') or x == '-g']); wc = dedup(cflags); eq(len(gc), len(wc), 'C29: not exactly the flags that are set')
    for x, y in zip(gc, wc): eq(x, y, 'C29: not exactly the flags that are set, in order')
    a = [x for x in a if not (x.startswith('-f') and not x.startswith('-fdiag') or x == '-g')]
    b = arg['build_info']; import datetime
    want = ['-fdiagnostics-color=' + ('always' if log == 'ansi_term' else 'never'), '-DMAIKE_TASKID=' + E.texts(task) + 'L', f'-DMAIKE_BUILDINFO_STARTTIME={b["start_time"]}L', '-DMAIKE_BUILDINFO_STARTTIME_STR="%s"' % ('1970-01-01 00:00:00 UTC' if b['start_time'] == 0 else '2023-11-14 22:13:20 UTC'), f'-DMAIKE_BUILDINFO_BUILDID="{b["build_id"]}"', f'-DMAIKE_BUILDINFO_TARGETDIR="{tgt_dir}"', f'-DMAIKE_BUILDINFO_SOURCEDIR="{src_dir}"'] + ([] if link else ['-c']) + (['-std=' + std['selected']] if std and 'selected' in std else [])
    a = take(a, want, 'C29: compiling'); claim(len(a) == 0, 'C29: the compiler is given something that nobody asked for'); E.C.reach(focus); E.C.reach('linked' if link else 'object')
    claim(all(e['kind'] in ('run', 'copy') for e in w.events), 'C29: files are altered')
def h29_linker(B):
    env = {'CXX': 'cc1'} if P(2, 'CXX') else {}; w = World(REPO, None, env=env); mode = pick('libraries', [0, 1, 2]); deps = deps_any(P(B.get('deps', 3) + 1, 'deps')); cflags = ['-f' + E.C.char('cflag', 'ab') for _ in range(P(3 if len(deps) < 2 else 1, 'cflags'))]; log = pick('log', ['ansi_term', 'plain_text']) if len(deps) < 2 else 'ansi_term'
    def run(argv, kw):
        if argv[0] == 'pkg-config': return pkg(argv, mode, 0)
        w.put(optarg(argv) or 'nothing', 'output', by='tool'); return 0, '', '', 'tool'
    w.tool = run
    w.execute('cxx_linker.py', 'compile', dict(source_file='m.app.maikerule', targets=['T/m'], dependencies=copy.deepcopy(deps), compiler_cfg={'cflags': cflags}, build_info=info(), log_format=log, task_id=3))
    ld = [e for e in works(w) if e['argv'][0] != 'pkg-config']; claim(len(ld) == 1 and ld[0]['argv'][0] == env.get('CXX', 'g++'), 'C29: the linker is not run exactly once'); a = list(ld[0]['argv'])[1:]
    i = [k for k, x in enumerate(a) if x == '-o']; claim(len(i) == 1 and i[0] + 1 < len(a), 'C29: the output is not given'); eq(a[i[0] + 1], 'T/m', 'C29: the output is not the target'); del a[i[0]:i[0] + 2]
    a = check_link(a, deps, mode, 'C29: linking'); gc = dedup([x for x in a if x.startswith('-f') and not x.startswith('-fdiag')]); wc = dedup(cflags); eq(len(gc), len(wc), 'C29: not exactly the flags that are set')
    for x, y in zip(gc, wc): eq(x, y, 'C29: not exactly the flags that are set, in order')
    a = take([x for x in a if not (x.startswith('-f') and not x.startswith('-fdiag'))], ['-fdiagnostics-color=' + ('always' if log == 'ansi_term' else 'never')], 'C29: linking'); claim(len(a) == 0, 'C29: the linker is given something that nobody asked for'); E.C.reach('linked')
def h29_lib(B):
    env = {'AR': 'ar1'} if P(2, 'AR') else {}; w = World(REPO, None, env=env); deps = deps_any(P(B.get('deps', 3) + 1, 'deps'))
    def run(argv, kw): w.put(argv[2] if len(argv) > 2 else 'nothing', 'output', by='tool'); return 0, '', '', 'tool'
    w.tool = run; w.execute('make_lib.py', 'compile', dict(source_file='m.lib.maikerule', targets=['T/m.a'], dependencies=copy.deepcopy(deps), compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3))
    claim(len(works(w)) == 1, 'C29: the archiver is not run exactly once'); a = works(w)[0]['argv']; eq(a[0], env.get('AR', 'ar'), 'C29: not the archiver that is set'); claim(len(a) > 2 and a[1].replace('-', '') in ('rcs', 'rsc', 'crs', 'src', 'scr', 'csr'), 'C29: the archiver is not told to make an archive'); eq(a[2], 'T/m.a', 'C29: the output is not the target')
    want, _ = link_items([d for d in deps if d['origin'] in ('generated', 'project')], 0); eq(len(a) - 3, len(want), 'C29: an archive does not have exactly the objects that are needed, each once')
    for x, y in zip(a[3:], want): eq(x, y, 'C29: an archive does not have exactly the objects that are needed'); E.C.reach('archive')
def h29_others(B):
    k = P(3, 'recipe'); w = World(REPO, None); src = 'p/' + E.C.char('source', 'ab') + '.x'; tgt = 'T/p/' + E.C.char('target', 'ab') + '.y'; a0 = dict(source_file=src, targets=[tgt], dependencies=[], compiler_cfg={}, build_info=info(), log_format='plain_text', task_id=3)
    def run(argv, kw): w.put(tgt, 'output', by='tool'); return 0, '<p>x</p>', '', 'tool'
    w.tool = run
    if k == 0:
        n = P(B.get('args', 2) + 1, 'args'); pieces = [('${source_file}', src), ('${target}', tgt), ('$$', '$'), ('l' + E.C.char('literal', 'ab'), None)]; args = []; want = []
        for _ in range(n):
            t = e = ''
            for _ in range(P(2, 'pieces') + 1): q = pick('piece', pieces); t += q[0]; e += q[0] if q[1] is None else q[1]
            args.append(t); want.append(e)
        if P(2, 'plain'): args.append('$source_file'); want.append(src); args.append('$target'); want.append(tgt)
        exe = 'x' + E.C.char('exe', 'ab'); a0['compiler_cfg'] = {'target_filename_ext': 'y', 'compilation_cmd': {'executable': exe, 'exec_origin': 'system', 'args': args}}; w.execute('generic.py', 'compile', a0); claim(len(works(w)) == 1, 'C29: the program is not run exactly once'); a = works(w)[0]['argv']; eq(a[0], exe, 'C29: not the program that is set'); eq(len(a) - 1, len(want), 'C29: the program is not given exactly the arguments that are set')
        for x, y in zip(a[1:], want): eq(x, y, 'C29: the program is not given exactly the arguments that are set')
        E.C.reach('generic')
    if k == 1:
        w.files.append(W.File(f'{REPO}/recipes/doc2html.xsl', True, content='x')); sd = pick('source dir', ['.', 'p']); a0['build_info'] = info(sd); w.execute('doc2html.py', 'compile', a0); claim(len(works(w)) == 1, 'C29: the program is not run exactly once'); a = works(w)[0]['argv']; eq(a[0], 'xsltproc', 'C29: not the program that converts documents'); eq(optarg(a), tgt, 'C29: the output is not the target')
        j = [x for x in range(len(a)) if a[x] == 'current_dir']; claim(len(j) == 1, 'C29: a document is not told where it is'); eq(full(a[j[0] + 1]), full('T/' + ('p' if sd == '.' else '.')), 'C29: a document is not told where it is'); eq(a[-1], src, 'C29: not the source file is converted'); E.C.reach('doc2html')
    if k == 2:
        xml_run(w, 'md2htmlpart.py', a0)
        claim(len(works(w)) == 1, 'C29: the program is not run exactly once'); a = works(w)[0]['argv']; eq(a[0], 'pandoc', 'C29: not the program that converts texts'); claim(any(same(x, src) for x in a[1:]), 'C29: not the source file is converted'); wr = [e for e in w.events if e['kind'] == 'write']; claim(len(wr) == 1, 'C29: not exactly the target is written'); eq(wr[0]['path'], tgt, 'C29: not exactly the target is written'); E.C.reach('md2htmlpart')
# ---------------------------------------------------------------- C34: what recipes answer
ALLREVS = ['c++98', 'c++11', 'c++14', 'c++17', 'c++20', 'c++23']; NUM = {'c++98': 199711, 'c++11': 201103, 'c++14': 201402, 'c++17': 201703, 'c++20': 202002, 'c++23': 202302}
def answer(w, msg):
    s = E.norm(''.join(w.out)).strip(); claim(len(s) == 1 and E.issym(s) and E.tok(s).kind == 'j', msg); return E.tok(s).obj
def h34_configure(B):
    c = E.C; shape = P(5, 'shape'); only = P(2, 'only the default compiler') == 0; w = World(REPO, None, env={'CXX': 'cc'} if (shape == 4 or not only and shape == 1) and P(2, 'CXX') else {}); name = w.env.get('CXX', 'g++'); rev = {}; lo = hi = None
    REVS = ALLREVS if only or B.get('all') else ALLREVS[1:5:2] + ALLREVS[4:5]
    if shape in (1, 3): lo = c.word('min', REVS); rev['min'] = lo
    if shape in (2, 3): hi = c.word('max', REVS); rev['max'] = hi
    cfg = {'cflags': ['-f' + c.char('flag', 'ab')], 'iquote': ['.']}
    if shape < 4: cfg['std_revision'] = rev
    if only: cfg['always_use_default_compiler'] = pick('flag value', [1, True]) if shape == 4 else 1
    elif shape == 4 and P(2, 'said'): cfg['always_use_default_compiler'] = 0
    found = [name] if only else [[name], [name + '-1', name], [], ['x' + name, name + '-1']][P(4, 'installed')]; cand = [x for x in found if x == name or x.startswith(name + '-')]; w.env['PATH'] = '/bin:/missing'; w.dirs = {'/bin': found}
    ask = {}   # each compiler: broken, or a default revision and for each named revision what it reports (0: rejected)
    def broken(x):
        if x not in ask: ask[x] = dict(broken=P(2, 'broken compiler'), default=None, std={})
        return ask[x]
    def number(k): return E.SymInt(sum([z3.If(k.e == i, z3.BitVecVal(NUM[r], 64), z3.BitVecVal(0, 64)) for i, r in enumerate(ALLREVS)], z3.BitVecVal(0, 64)))
    def run(argv, kw):
        x = argv[0]; q = broken(x)
        std = [a for a in argv if a.startswith('-std=')]
        if q['broken']: return (1, '', '', 'rev') if B.get('broken', 1) else (1, '', '', 'rev')
        if not std:
            if q['default'] is None: q['default'] = c.num('default', *[(v, v) for v in sorted(NUM[r] for r in REVS)])
            n = q['default']
        else:
            r = c.sub.get(std[-1][5:], E.conc(std[-1][5:])); 
            if r not in q['std']: q['std'][r] = None if P(2, 'revision rejected') else c.num('reported', (NUM[r], NUM[r]), (NUM[r] - 2, NUM[r] - 2))
            n = q['std'][r]
            if n is None: return 1, '', '', 'rev'
        return 0, '#define __STDC__ 1\n#define __cplusplus ' + E.texts(n) + 'L\n#define X 1\n', '', 'rev'
    w.tool = run; before = copy.deepcopy(cfg); w.execute('cxx_compiler.py', 'configure', copy.deepcopy(cfg))
    L = lambda r: E.SymInt(sum([z3.If(E.tokeq(r, v), z3.BitVecVal(NUM[v], 64), z3.BitVecVal(0, 64)) for v in ALLREVS if not (E.tok(r).dom and v not in E.tok(r).dom)], z3.BitVecVal(0, 64))) if E.issym(r) else NUM[r]
    if shape == 4: claim(bool(w.ok), 'C34: configuring fails'); r = answer(w, 'C34: the answer is not a configuration'); claim(same(r, dict(before, backend=name)), 'C34: configuring does not just select the compiler'); E.C.reach('no limits'); return
    if lo and hi and bool(L(lo) > L(hi)): claim(not bool(w.ok), 'C34: impossible limits are accepted'); claim(not ''.join(w.out).strip(), 'C34: an answer is given that is not one'); E.C.reach('impossible'); return
    if not bool(w.ok):
        # there must be no compiler that would do
        for x in cand:
            q = broken(x)
            if q['broken']: continue
            if not same(q['default'] is None, False): 
                claim(lo is not None and hi is not None and same(lo, hi), 'C34: configuring fails without asking a compiler')
            if q['default'] is not None:
                d = q['default']; within = z3.And([(d >= L(lo)).e if lo else z3.BoolVal(True)] + [((d <= L(hi)).e if isinstance(d <= L(hi), E.SymBool) else z3.BoolVal(bool(d <= L(hi)))) if hi else z3.BoolVal(True)]); claim(E.SymBool(z3.Not(within)), 'C34: configuring fails although a compiler does what is asked for')
            claim(all(v is None for v in q['std'].values()), 'C34: configuring fails although a compiler does what is asked for')
            claim(len(q['std']) > 0, 'C34: configuring fails without trying a compiler')
        claim(not ''.join(w.out).strip(), 'C34: an answer is given that is not one'); E.C.reach('nothing fits'); return
    r = answer(w, 'C34: the answer is not a configuration'); claim(isinstance(r, dict) and 'backend' in r, 'C34: no compiler is selected'); b = E.conc(r['backend']); claim(b in cand, 'C34: a compiler is selected that does not exist or may not be used'); q = broken(b); claim(not rev or not q['broken'], 'C34: a compiler is selected that does not work')
    rest = copy.deepcopy(r); del rest['backend']; sel = rest['std_revision'].pop('selected', None); claim(same(rest, before), 'C34: configuring alters settings')
    if sel is None:
        d = q['default']; claim(d is not None or not rev, 'C34: the revision of the selected compiler is unknown')
        if lo: claim(d >= L(lo), 'C34: the compiler is older than the oldest revision allowed')
        if hi: claim(d <= L(hi), 'C34: the compiler is newer than the newest revision allowed')
        E.C.reach('default revision')
    else:
        if lo: claim(E.SymInt(z3.BitVecVal(0, 64)) + L(sel) >= L(lo), 'C34: the revision selected is older than the oldest one allowed')
        if hi: claim(E.SymInt(z3.BitVecVal(0, 64)) + L(sel) <= L(hi), 'C34: the revision selected is newer than the newest one allowed')
        s = E.conc(sel); claim(q['std'].get(s) is not None, 'C34: a revision is selected that the compiler rejects'); E.C.reach('selected revision')
        if bool(q['std'][s] < NUM[s]):
            E.C.reach('experimental'); claim(len(w.err) > 0, 'C34: nobody is told that support of the revision is experimental')
            for x in cand:
                z = ask.get(x)
                if z and not z['broken'] and x != b and z['std'].get(s) is not None: claim(z['std'][s] < NUM[s], 'C34: a compiler with experimental support is selected although another one has full support')
def h34_tags(B):
    c = E.C; k = P(3, 'recipe'); w = World(REPO, None)
    if k == 0:
        src = 'p/' + c.char('name', 'ab') + '.x'; ext = c.char('ext', 'yz'); exe = 'e' + c.char('exe', 'ab'); origin = c.word('origin', ['project', 'system', 'generated']); w.execute('generic.py', 'get_tags', dict(source_file=src, compiler_cfg={'target_filename_ext': ext, 'compilation_cmd': {'executable': exe, 'exec_origin': origin, 'args': []}})); claim(bool(w.ok), 'C34: asking for tags fails'); r = answer(w, 'C34: no tags are given')
        claim(set(r) == {'target', 'dependencies'} and set(r['target']) == {'name'} and len(r['dependencies']) == 1, 'C34: the tags are not exactly a target and the program'); eq(r['target']['name'], src + '.' + ext, 'C34: the target is not named after the source file'); d = r['dependencies'][0]; claim(set(d) == {'ref', 'origin'}, 'C34: the program is not exactly named'); eq(d['ref'], exe, 'C34: the program is not a dependency'); eq(d['origin'], origin, 'C34: the origin of the program is not told'); E.C.reach('generic')
    if k == 1:
        w.execute('generic.py', 'get_tags', dict(source_file='/lib/recipes/generic.py', compiler_cfg={})); claim(bool(w.ok) and not ''.join(w.out).strip(), 'C34: a recipe is given tags'); E.C.reach('the recipe itself')
    if k == 2:
        import xml.etree.ElementTree as ET
        root = ET.Element('doc'); n = P(B.get('refs', 2) + 1, 'references'); want = []; el = root; attrs = []
        for k in range(n):
            el = ET.SubElement(el if k and P(2, 'nested') else root, 'a' if k else pick('element', ['img', 'a'])); a = pick('attribute', ['src', 'href'] if k else ['src', 'href', 'title', 'both'])
            for at in (['src', 'href'] if a == 'both' else [a]):
                v = pick('kind', ['./' + c.char('ref', 'ab') + '.png', c.char('ref', 'ab') + '.html', c.char('scheme', 'az') + 'tp://x', 'http:/' + c.char('ref', '/a') + 'y']); el.set(at, v)
                if at != 'title': attrs.append(v)
        saved = ET.parse; fail = P(2, 'ill-formed')
        def parse(f, *a):
            if fail: raise ET.ParseError('syntax error')
            return ET.ElementTree(root)
        parse._stub = True; ET.parse = parse; w.doc = None if fail else root
        try: w.execute('doc2html.py', 'get_tags', dict(source_file='p/a.doc.xml'))
        finally: ET.parse = saved
        if fail: claim(not bool(w.ok) and not ''.join(w.out).strip(), 'C34: an ill-formed document is accepted'); E.C.reach('ill-formed'); return
        claim(bool(w.ok), 'C34: asking for tags fails'); r = answer(w, 'C34: no tags are given'); claim(set(r) == {'dependencies'}, 'C34: the tags are not exactly dependencies')
        for v in attrs:
            i = E.StrOps.find(v, '://')
            if i > 0: continue
            want.append(v)
        got = r['dependencies']; eq(len(got), len(want), 'C34: not exactly the local references of a document are dependencies')
        for v in want:
            m = [d for d in got if same(d.get('ref'), v)]; claim(len(m) >= 1, 'C34: a local reference of a document is not a dependency')
            claim(all(d.get('origin') == 'generated' and d.get('rel') == 'resource' for d in m), 'C34: a reference of a document is not known as a resource'); E.C.reach('references')
H = {'C28': [('compile', h28_cxx, ['cxx_compiler'], dict(quick=dict(deps=1), thorough=dict(deps=2, deep=1)), ['success', 'failure', 'header', 'test run', 'compiled']), ('link', h28_linker, [], dict(quick=dict(deps=1), thorough=dict(deps=2)), ['success', 'failure', 'cxx_linker.py', 'make_lib.py']), ('generic', h28_generic, [], {}, ['success', 'failure', 'meaningless argument']), ('copy', h28_copy, [], {}, ['success', 'failure']), ('mkdir', h28_mkdir, [], {}, ['success', 'failure']), ('document', h28_doc, [], {}, ['success', 'failure']), ('text', h28_md, [], {}, ['success', 'failure']), ('style', h28_sass, [], {}, ['success', 'failure'])],
     'C29': [('flags', h29_cxx, [], dict(quick=dict(focus=['flags'], flags=2), thorough=dict(focus=['flags'], flags=4)), ['flags', 'linked', 'object']), ('dirs', h29_cxx, [], dict(quick=dict(focus=['dirs'], iquotes=2), thorough=dict(focus=['dirs'], iquotes=3)), ['dirs']), ('test', h29_cxx, [], dict(quick=dict(focus=['link'], deps=2), thorough=dict(focus=['link'], deps=3)), ['link']), ('object', h29_cxx, [], dict(quick=dict(focus=['compile'], deps=2), thorough=dict(focus=['compile'], deps=3)), ['compile']), ('link', h29_linker, [], dict(quick=dict(deps=2), thorough=dict(deps=3)), ['linked']), ('archive', h29_lib, [], dict(quick=dict(deps=2), thorough=dict(deps=4)), ['archive']), ('others', h29_others, [], dict(quick=dict(args=2), thorough=dict(args=3)), ['generic', 'doc2html', 'md2htmlpart'])],
     'C34': [('configure', h34_configure, [], {}, ['no limits', 'impossible', 'nothing fits', 'default revision', 'selected revision', 'experimental']), ('tags', h34_tags, [], dict(quick=dict(refs=2), thorough=dict(refs=3)), ['generic', 'the recipe itself', 'ill-formed', 'references'])]}
BOUNDS = {'compile': 'up to {deps} dependency, 1..2 targets, any exit status 0..255 or killed by a signal, any program missing, directories in the way', 'link': 'up to {deps} dependencies of any origin and use', 'flags': 'up to {flags} flags of one arbitrary letter, any number as task', 'dirs': 'up to {iquotes} include directories, 7 places of the source', 'test': 'up to {deps} dependencies of any origin and use, 3 shapes of what pkg-config answers', 'object': 'up to {deps} dependencies of any origin and use', 'archive': 'up to {deps} dependencies', 'others': 'up to {args} arguments of 1..2 pieces', 'configure': 'any limits, any default and supported revisions of up to 2 compilers', 'tags': 'up to {refs} references'}
REPO = '/repo'
# ---------------------------------------------------------------- concrete cases, and their replay
def concrete(x, model):
    if isinstance(x, str): return ''.join((json.dumps(concrete(E.tok(c).obj, model)) if E.tok(c).kind == 'j' else tokv(c, model)) if ord(c) >= E.BASE else c for c in x)
    if isinstance(x, E.SymInt): return model.eval(x.e, model_completion=True).as_signed_long()
    if isinstance(x, E.SymBool): return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, (list, tuple)): return [concrete(y, model) for y in x]
    if isinstance(x, dict): return {concrete(k, model): concrete(v, model) for k, v in x.items()}
    return x
def tokv(c, model): return E.C.sub.get(c) or E.tokval(c, model)
LAST = []
def doc(w, model):
    if not hasattr(w, 'doc'): return None
    import xml.etree.ElementTree as ET
    if w.doc is None: return '<doc'
    r = copy.deepcopy(w.doc)
    for e in r.iter():
        for k in list(e.attrib): e.attrib[k] = concrete(e.attrib[k], model)
    return ET.tostring(r, encoding='unicode')
def collect(p, model, ok):
    w = LAST[-1]; present = lambda f: f.present if isinstance(f.present, bool) else z3.is_true(model.eval(f.present.e, model_completion=True))
    return dict(recipe=w.recipe, action=w.action, arg=concrete(w.arg, model), env=concrete(w.env, model), events=[concrete({k: e[k] for k in e}, model) for e in w.events], initial=[dict(path=concrete(q[0], model), kind=q[1], content=q[2]) for q in w.initial], final=[[concrete(f.path, model), f.kind] for f in w.files if present(f)], ok=(concrete(w.code, model) == 0) if hasattr(w, 'code') else None, out=concrete(''.join(w.out), model), inputs=[[n, concrete(v, model) if isinstance(v, (E.SymInt, E.SymBool)) else (str(model.eval(v, model_completion=True)) if isinstance(v, z3.ExprRef) else v)] for n, v in p.inputs][:60], how=getattr(w, 'how', ''), replay=getattr(w, 'replayable', True), setorder=getattr(p, 'setorder', False), dirs=w.dirs, doc=doc(w, model))
if z3:
    _execute = World.execute
    def execute(self, recipe, action, arg): self.recipe = recipe; self.action = action; self.arg = copy.deepcopy(arg); self.initial = [(f.path, f.kind, f.content) for f in self.files]; LAST[:] = [self]; return _execute(self, recipe, action, arg)
    World.execute = execute
FAKE = r'''#!/usr/bin/python3 -SE
import sys, os, json, fcntl
D = %r
with open(D + '/lock', 'w') as l:
    fcntl.flock(l, fcntl.LOCK_EX)
    with open(D + '/log', 'a+') as f:
        f.seek(0); n = len(f.readlines()); f.write(json.dumps(sys.argv) + '\n')
a = json.load(open(D + '/answers'))
if n >= len(a): sys.exit(97)
a = a[n]
sys.stdout.write(a['out']); sys.stdout.flush()
if a['makes']:
    data = open(D + '/fake').read(); open(a['makes'], 'w').write(data); os.chmod(a['makes'], 0o755)
if a['code'] < 0: os.kill(os.getpid(), -a['code'])
sys.exit(a['code'])
'''
def replay(case, tries=1):
    """the real recipe, with stand-ins for the programs; returns None if it does what was predicted"""
    D = tempfile.mkdtemp(prefix='recipe'); os.chmod(D, 0o755)
    try:
        shutil.copytree(f'{REPO}/recipes', D + '/recipes', symlinks=True); os.mkdir(D + '/w'); os.mkdir(D + '/bin'); os.mkdir(D + '/py'); w = D + '/w'
        fix = lambda s: s.replace('/__cwd__', w).replace(f'{REPO}/recipes', D + '/recipes').replace('/lib/recipes', D + '/recipes') if isinstance(s, str) else [fix(x) for x in s] if isinstance(s, list) else {fix(k): fix(v) for k, v in s.items()} if isinstance(s, dict) else s
        case = fix(case); runs = [e for e in case['events'] if e['kind'] == 'run']; missing = {e['argv'][0] for e in runs if e['code'] is None}
        def parent(p):
            q = os.path.normpath(os.path.join(w, p)); assert q.startswith(D + '/'), q; os.makedirs(os.path.dirname(q), exist_ok=True); return q
        for f in case['initial']:
            q = parent(f['path'])
            if q.startswith(D + '/recipes'): continue
            if f['kind'] == 'dir': os.makedirs(q, exist_ok=True)
            else: open(q, 'w').write(f['content'] or '')
        if case['recipe'] == 'doc2html.py' and not any('doc2html.xsl' in f['path'] for f in case['initial']): os.remove(D + '/recipes/doc2html.xsl')
        if case['doc']: open(parent('p/a.doc.xml'), 'w').write(case['doc'])
        for t in case['arg'].get('targets', []): 
            p = t[:-2] if t.endswith('/.') else t
            if os.path.normpath(os.path.join(w, p)).startswith(w): parent(p)
        for n, e in enumerate(case['events']):
            if e['kind'] in ('fault',): return 'skip'
        makes = []
        for e in runs:
            a = e['argv']; m = None
            if e['why'] == 'tool' and e['code'] is not None and e['code'] == 0:
                o = [a[i + 1] for i in range(len(a) - 1) if a[i] == '-o']
                m = o[0] if o else a[2] if case['recipe'] == 'make_lib.py' else a[-1] if case['recipe'] == 'generic.py' and case['final'] and any(f[0] == a[-1] for f in case['final']) else None
                if m and not any(f[0] == m for f in case['final']): m = None
                if m is None and case['recipe'] == 'generic.py': m = next((f[0] for f in case['final'] if f[0] in case['arg']['targets']), None)
            if m and not os.path.normpath(os.path.join(w, m)).startswith(w): return 'skip'
            if m and os.path.isabs(m) and not m.startswith(w): return 'skip'
            makes.append(m)
        json.dump([dict(out=e['out'], code=e['code'] if e['code'] is not None else 0, makes=m) for e, m in zip(runs, makes)], open(D + '/answers', 'w')); open(D + '/fake', 'w').write(FAKE % D); os.chmod(D + '/fake', 0o755)
        names = {e['argv'][0] for e in runs} - missing
        for n in names:
            if '/' in n:
                continue
            shutil.copy(D + '/fake', f'{D}/bin/{n}')
        # a program that is to be started but cannot be: a target that is missing or is no program
        for e in runs:
            if '/' in e['argv'][0] and e['code'] is None: return 'skip'
        open(D + '/py/sass.py', 'w').write('def compile(string=None, **k):\n' + (' raise ValueError("Invalid CSS")\n' if any(i[0] == 'compiles' and i[1] for i in case['inputs']) else ' return "/*" + string + "*/"\n'))
        env = {'PATH': D + '/bin', 'PYTHONPATH': D + '/py', 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': D}
        for k, v in case['env'].items():
            if k != 'PATH': env[k] = v
        if case['dirs']:
            env['PATH'] = ''
            for i, d in enumerate(case['dirs']['/bin']): os.mkdir(f'{D}/bin{i}'); shutil.copy(D + '/fake', f'{D}/bin{i}/{d}'); env['PATH'] += f'{D}/bin{i}:'
            env['PATH'] += '/missing'
        kw = {}
        if os.getuid() == 0:
            kw = dict(user=65534, group=65534, extra_groups=[]); open(D + '/log', 'w'); open(D + '/lock', 'w')
            for r, ds, fs in os.walk(D):
                for x in [r] + [r + '/' + f for f in fs]: os.chown(x, 65534, 65534)
        why = None
        for t in range(tries):
            if t: open(D + '/log', 'w')
            p = subprocess.run(['/usr/bin/python3', D + '/recipes/' + case['recipe'], case['action'], json.dumps(case['arg'])], cwd=w, env=dict(env, PYTHONHASHSEED=str(t)), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60, **kw)
            log = [json.loads(l) for l in open(D + '/log')] if os.path.exists(D + '/log') else []; want = [e['argv'] for e in runs if e['code'] is not None]
            log = [[os.path.basename(x) if i == 0 and x.startswith(D + '/bin') else x for i, x in enumerate(l)] for l in log]
            why = None
            if log != want: why = f'runs {log} instead of {want}: {p.stderr[-300:]}'
            elif (p.returncode == 0) != case['ok']: why = f'exit status {p.returncode}, expected {"success" if case["ok"] else "failure"} ({case["how"]}): {p.stderr[-300:]}'
            elif any(os.path.normpath(os.path.join(w, q)).startswith(w) and not (os.path.isdir if k == 'dir' else os.path.isfile)(os.path.join(w, q)) for q, k in case['final']): why = f'files differ: {case["final"]}'
            elif case['out'].strip().startswith('{') and p.stdout.strip().startswith('{') and json.loads(case['out']) != json.loads(p.stdout): why = f'answers {p.stdout} instead of {case["out"]}'
            if why is None: return None
        return why
    finally: shutil.rmtree(D, ignore_errors=True)
def run_one(job):
    pid, name, tier, shard, nshards, budget, repo = job; global REPO; REPO = repo; sys.setrecursionlimit(20000)
    h = next(x for x in H[pid] if x[0] == name); B = h[3].get(tier, h[3].get('quick', {})); stats = dict(queries=0, solver=0.0, branches=0, asserts=0, paths=0)
    def fn(p):
        if nshards > 1:
            k = 0
            orig = p.pick
            p.shard = [shard]
        h[1](B)
    if nshards > 1:
        # split on the first choices: run every prefix of two picks, and keep those of this shard
        pre = prefixes(h[1], B); mine = [x for i, x in enumerate(pre) if i % nshards == shard]
    else: mine = [[]]
    viol = {}; inc = {}; reach = {}; fns = set(); samples = []
    for x in mine:
        v, i, r, f, s = E.explore(fn, budget, stats, collect=collect, prefix=x)
        for y in v: viol.setdefault(y['msg'], y)
        for k, n in i.items(): inc[k] = inc.get(k, 0) + n
        for k, n in r.items(): reach[k] = reach.get(k, 0) + n
        fns |= f; samples += s
    import random; random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(samples)
    return dict(name=name, viol=list(viol.values()), incomplete=inc, reach=reach, fns=sorted(fns), samples=samples[:12], stats=stats)
def prefixes(h, B):
    """the feasible values of the first two picks"""
    class Cut(BaseException): pass
    out = []; stack = [[]]
    while stack:
        pre = stack.pop()
        p = E.Path(pre, dict(queries=0, solver=0.0, branches=0, asserts=0, paths=0), time.time() + 60); E.C = p
        real = p.pick
        def pk(n, name, p=p, real=real):
            if len(p.dec) >= 2: p.cut = True; raise Cut()
            return real(n, name)
        def br(c, p=p):
            if isinstance(c, bool): return c
            p.cut = True; raise Cut()
        p.pick = pk; p.branch = br
        p.cut = False
        try:
            h(B); out.append(list(p.dec))
        except Cut: out.append(list(p.dec))
        except E.Stop: pass
        except (E.Violation, E.Unsupported): out.append(list(p.dec))
        except Exception:
            if not p.cut: raise
            out.append(list(p.dec))
        stack.extend(p.alts)
    return [x for i, x in enumerate(out) if x not in out[:i]]
def main(pid, tier, seed, repo, root):
    if z3 is None: sys.stdout.flush(); os.execvp('python3-vt', ['python3-vt', ROOT + '/pyrecipes.py', pid, tier, str(seed), repo, root])
    global REPO; REPO = repo; t0 = time.time(); budget = 500 if tier == 'quick' else 2 * 3600; jobs = []; n = 8
    for h in H[pid]: jobs += [(pid, h[0], tier, i, n, budget, repo) for i in range(n)]
    only = os.environ.get('ONLY')
    if only: jobs = [j for j in jobs if only in j[1]]
    tot = dict(queries=0, solver=0.0, branches=0, asserts=0, paths=0); per = {}; reach = {}; inc = []; viol = {}; fns = set(); samples = {}
    with cf.ProcessPoolExecutor(8) as pool:
        for r in pool.map(run_one, jobs):
            for k, v in r['stats'].items(): tot[k] += v; per.setdefault(r['name'], dict.fromkeys(tot, 0)); per[r['name']][k] = round(per[r['name']][k] + v, 3)
            for k, v in r['reach'].items(): reach[(r['name'], k)] = reach.get((r['name'], k), 0) + v
            for k, v in r['incomplete'].items(): inc.append(f'{r["name"]}: {k} ({v} paths)')
            for v in r['viol']: viol.setdefault((r['name'], v['msg']), v)
            fns |= set(r['fns']); samples.setdefault(r['name'], []).extend(r['samples'])
    for h in H[pid]:
        if only and only not in h[0]: continue
        for l in h[4]:
            if not reach.get((h[0], l)) and not viol: inc.append(f'{h[0]}: vacuous, "{l}" was never reached')
    confirmed = []; unconfirmed = []; os.makedirs(f'{root}/replays/{pid}', exist_ok=True)
    known = [k for k in json.load(open(f'{root}/known_findings.json'))['findings'] if k['property'] == pid and k['status'] == 'known']; hit = {}
    for n, ((name, msg), v) in enumerate(sorted(viol.items())[:40]):
        path = f'{root}/replays/{pid}/{name}-{n}.json'; json.dump(v, open(path, 'w'), indent=1); ks = [k for k in known if __import__('re').search(k['match'], f'{name} {msg}')]
        if len(confirmed) >= 5: break
        why = replay(v['case'], 30 if v['case'].get('setorder') else 1)
        if why in (None, 'skip'):
            if ks: hit[ks[0]['text']] = 1
            else: confirmed.append((name, msg, v, path))
        else: unconfirmed.append((name, msg, v, why))
    validated = 0; mism = []; shown = []
    if not confirmed:
        cases = [(n, c) for n, s in samples.items() for c in s[:6 if tier == 'quick' else 24] if not c['setorder']]
        with cf.ThreadPoolExecutor(8) as tp:
            for (n, c), why in zip(cases, tp.map(lambda x: replay(x[1]), cases)):
                if why == 'skip': continue
                if why: mism.append(f'{n}: sampled path differs: {why} inputs={c["inputs"]}')
                else: validated += 1
                if len(shown) < 10: shown.append(dict(harness=n, inputs=c['inputs'], runs=[e['argv'] for e in c['events'] if e['kind'] == 'run'], ok=c['ok']))
    wall = round(time.time() - t0, 2)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=wall, violations=len(confirmed), assumptions=['the engine (pysym/), its models of subprocess, os, shutil, json and string.Template, CPython and z3 are trusted; sampled paths are re-run with the real recipe and stand-ins for programs and compared', 'verdicts hold within the bounds stated in coverage.bounds', 'programs do what they report: one that succeeds has made its output'],
        coverage=dict(states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=validated, exhaustive=not inc and not confirmed, samples=shown or [dict(violation=m, inputs=v['case']['inputs']) for _, m, v, _ in confirmed[:3]] or ['none'], explanation='states = symbolic path classes completed; transitions = solver-decided branches; every assertion was decided by the SMT solver over all inputs of its path class within the bounds',
            bounds={h[0]: BOUNDS.get(h[0], 'all combinations of outcomes and files').format(**dict(dict(deps=1, flags=2, iquotes=2, args=2, refs=2), **h[3].get(tier, h[3].get('quick', {})))) for h in H[pid]}, harnesses=per, reach={f'{a}:{b}': n for (a, b), n in reach.items()}, solver_queries=tot['queries'], solver_s=round(tot['solver'], 3), assertions_decided=tot['asserts'], functions_encoded=sorted(fns)[:400], incomplete=inc))
    os.makedirs(f'{root}/evidence', exist_ok=True); json.dump(ev, open(f'{root}/evidence/{pid}.json', 'w'), indent=1)
    for t in hit: print(f'KNOWN-FINDING: property={pid} {t}')
    if os.environ.get('PER'): print(per)
    for name, msg, v, path in confirmed:
        c = v['case']; print(f'{name}: {msg}\n  inputs: {c["inputs"]}\n  runs: {[e["argv"] for e in c["events"] if e["kind"] == "run"]}\n  outcome: {"success" if c["ok"] else "failure"} {c["how"]}'); print(f'VIOLATION property={pid} replay={path}')
    print(f'{pid} {tier}: paths={tot["paths"]} queries={tot["queries"]} solver={tot["solver"]:.2f}s asserts={tot["asserts"]} validated={validated} functions={len(fns)} wall={wall}s')
    if confirmed: return 1
    bad = False
    for x in unconfirmed: bad = True; print('UNCONFIRMED', x[0], x[1], x[2]['case']['inputs'], '\n  native:', x[3][:900])
    for x in sorted(set(inc))[:20]: bad = True; print('INCOMPLETE', x)
    for x in mism[:5]: bad = True; print('MISMATCH', x[:1500])
    return 2 if bad else 0
if __name__ == '__main__':
    a = sys.argv
    try: sys.exit(main(a[1], a[2], int(a[3]), a[4], a[5]))
    except SystemExit: raise
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
