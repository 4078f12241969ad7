"""C18: effects reachable from parsing. Two analyses, both on the current source:
 - the type-checked syntax tree of every header (uninstantiated templates included): no throw, no allocating new, no heap or I/O
   call, no heap-owning std type, no mutable variable of static or thread storage duration;
 - the call graph of the LLVM IR of every witness (with exceptions on): from no witness can an external function other than the
   listed pure ones, a mutable global of the library or inline assembly be reached."""
import os, re, json, subprocess, tempfile, shutil, concurrent.futures as cf
# Where an effect is the documented purpose of the code.
AST_ALLOW = [
    (r'^lexy/_detail/memory_resource\.hpp', r'^call operator (new|delete)'),   # the default memory resource
    (r'^lexy/_detail/buffer_builder\.hpp', r'^call operator (new|delete)'),    # reading files and terminals
    (r'^lexy/callback/object\.hpp', r'^new '),                                 # lexy::new_
    (r'^lexy/visualize\.hpp', r'^call '),                                      # output
    (r'^lexy/action/trace\.hpp', r'^call '),
    (r'^lexy/input/file\.hpp', r'^call '),
    (r'^lexy_ext/', r'.'),                                                     # reporting, shell
]
PURE = r'^(vp_\w+|__cxa_begin_catch|__cxa_end_catch|std::terminate\(\)|_Unwind_Resume|__gxx_personality_v0|__assert_fail|abort|memcmp|memcpy|memmove|memset|memchr|strlen|strcmp|wmem\w+|__cxa_rethrow)$'
CUT = r'^lexy::_detail::(default_memory_resource|buffer_builder<)'
SKIP = {'c17.cpp', 'c17p.cpp'}  # file reading
AST_SKIP = re.compile(r'doctest|compiler_explorer|unicode_database')


def run(repo, v, tier):
    viol, stats = [], dict(witnesses=0, complete=0, states=0, transitions=0, inconclusive=[], functions=set(), samples=[], roots=0, call_edges=0,
                           functions_in_call_graphs=0, headers=0, functions_in_syntax_tree=0, calls_in_syntax_tree=0, variables_in_syntax_tree=0)
    r = subprocess.run(['make', '-s', '-C', os.path.join(v, 'engine'), 'build/lxcg', 'build/lxast'], capture_output=True, text=True)
    if r.returncode: print('ERROR engine does not build: ' + r.stderr[-1500:]); raise SystemExit(2)
    inc = os.path.join(repo, 'include')
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith('.hpp'))
    hs = [h for h in hs if not AST_SKIP.search(h)]
    tmp = tempfile.mkdtemp(prefix='lxcheck')
    try:
        ex = cf.ThreadPoolExecutor(os.cpu_count() or 8)

        def ast(_):
            r = subprocess.run([os.path.join(v, 'engine/build/lxast'), inc, '-std=c++20', '-I' + inc, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w', '-DLEXY_HAS_UNICODE_DATABASE=1', '-DLEXY_EXPERIMENTAL=1'],
                               input=''.join('#include <%s>\n' % h for h in hs), capture_output=True, text=True)
            return r.returncode, [json.loads(l) for l in r.stdout.splitlines()], r.stderr[:300]

        def cg(f):
            bc = os.path.join(tmp, f + '.bc')
            r = subprocess.run(['/usr/bin/clang++', '-std=c++20', '-I', inc, '-I', os.path.join(v, 'witness'), '-I', os.path.join(repo, 'src'), '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-DLEXY_HAS_UNICODE_DATABASE=1', '-DLEXY_EXPERIMENTAL=1',
                                '-emit-llvm', '-c', os.path.join(v, 'witness', f), '-o', bc], capture_output=True, text=True)
            if r.returncode: return f, None, r.stderr[:300]
            r = subprocess.run([os.path.join(v, 'engine/build/lxcg'), bc, '^w_', CUT], capture_output=True, text=True)
            os.unlink(bc)
            return f, [json.loads(l) for l in r.stdout.splitlines()], r.stderr[:300]

        a = ex.submit(ast, 0)
        res = list(ex.map(cg, sorted(f for f in os.listdir(os.path.join(v, 'witness')) if f.endswith('.cpp') and f not in SKIP)))
        rc, items, err = a.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    stats['witnesses'] += 1
    if rc: stats['inconclusive'].append('headers do not parse: ' + err)
    else: stats['complete'] += 1
    stats['headers'] = len(hs)
    for d in items:
        if d['kind'] == 'stats':
            stats['functions_in_syntax_tree'] = d['functions']; stats['calls_in_syntax_tree'] = d['calls']; stats['variables_in_syntax_tree'] = d['variables']
            continue
        if any(re.search(f, d['at']) and re.search(k, d['kind'] + ' ' + d['name']) for f, k in AST_ALLOW): continue
        viol.append(dict(witness='source', file=d['at'], code='effect', msg='%s: %s in %s' % (d['kind'], d['name'], d['path']), loc='include/' + d['at'], input='(any)', stack=d['path']))
    seen = set()
    for f, items, err in res:
        stats['witnesses'] += 1
        if items is None: stats['inconclusive'].append('%s does not compile: %s' % (f, err)); continue
        stats['complete'] += 1
        for d in items:
            if d['kind'] == 'stats':
                stats['roots'] += d['roots']; stats['call_edges'] += d['edges']; stats['functions_in_call_graphs'] += d['functions']
                if len(stats['samples']) < 6: stats['samples'].append('%s: %d roots, %d functions, %d edges' % (f, d['roots'], d['functions'], d['edges']))
                continue
            if d['kind'] == 'external' and re.search(PURE, d['name']): continue
            if d['kind'] == 'global' and os.path.join(v, 'witness') in os.path.abspath(d['file'] or '/'): continue  # the witness's own
            if d['kind'] == 'global' and re.match(r'witness/', d['file'] or ''): continue
            k = (d['kind'], d['name'])
            if k in seen: continue
            seen.add(k)
            viol.append(dict(witness=f, file=f, code='effect', msg='%s %s is reachable: %s' % (d['kind'], d['name'], d['path']), loc=d['at'], input='(any)', stack=d['path']))
    return viol, stats
