import json,sys
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception as e: print("BAD",l[:200]); continue
    d.pop('function_list',None)
    print(f"{d['witness']}: states={d['states']} trans={d['transitions']} widen={d['widenings']} inst={d['instructions']} fns={d['functions']} wall={d['wall']:.2f}{' TRUNC' if d['truncated'] else ''} covers={d['covers']} ext={d['externals']} mg={d['mutable_globals']}")
    for v in d['violations']: print('   ', 'imprecise' if v['imprecise'] else 'VIOL', v['code'], '|', v['msg'], '|', v['loc'], '| in:', v['input'][:300], '|', v['why'],'x',v['count']); \
        (len(sys.argv)>2) and print('        ', v['stack'][:1500])
    for k,v in d['gaveup'].items(): print('    GAVEUP',k,v)
    if d['imprecision']: print('    imprecision', d['imprecision'])
