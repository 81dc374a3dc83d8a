import json,sys
d=json.load(open(sys.argv[1]))
print(len(d['fns']),len(d['types']),len(d['consts']),d['crate_type'],d['foreign'],d['statics'])
for k,f in d['fns'].items():
    print('L' if f['local'] else ' ', 'B' if 'body' in f else '-', f['kind'], k[:170], len(f['body']['blocks']) if 'body' in f else '')
for c in d['consts']:
    if 'opaque' in c['v']: print('OPQ',d['tnames'][str(c['ty'])],c['v'])
