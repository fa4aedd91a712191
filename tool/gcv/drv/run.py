import sys, struct, importlib
sys.path.insert(0, sys.argv[1])
mod = importlib.import_module(sys.argv[2])
def fl(t, s):
    return struct.unpack('<f', struct.pack('<I', int(s)))[0] if t == 'f32' else struct.unpack('<d', struct.pack('<Q', int(s)))[0]
def fb(t, v):
    return struct.unpack('<I', struct.pack('<f', v))[0] if t == 'f32' else struct.unpack('<Q', struct.pack('<d', v))[0]
def get(x, s):
    if s.isdigit(): return x[int(s)]
    return getattr(x, s) if hasattr(x, s) else getattr(x, '_' + s)
def put(x, s, v):
    if s.isdigit(): x[int(s)] = v
    elif hasattr(x, s): setattr(x, s, v)
    else: setattr(x, '_' + s, v)
for ln in open(sys.argv[3]):
    a = ln.rstrip('\n').split(' ')
    try:
        if a[0] == 'CASE':
            print('CASE', a[1]); kind = a[2]; cls = getattr(mod, a[3]); start = int(a[4]); n = int(a[5]); buf = bytes.fromhex(a[6]); o = cls()
        elif a[0] == 'SET':
            p = a[1].split('.'); x = o
            for s in p[:-1]: x = get(x, s)
            t = a[2]
            if t == 's': v = bytes.fromhex(a[3]).decode('utf8')
            elif t == 'y': v = bytearray.fromhex(a[3])
            elif t == 'b': v = a[3] == '1'
            elif t[0] == 'f': v = fl(t, a[3])
            elif t[0] == 'e': v = getattr(mod, t[2:])(int(a[3]))
            else: v = int(a[3])
            put(x, p[-1], v)
        elif a[0] == 'RUN':
            if kind == 'encode':
                b = bytearray(buf)
                print('R', o.encode(memoryview(b)[start:])); print('B', b.hex()); print('E', bytes(o.encode()).hex())
            elif kind in ('decode', 'mald'):
                ok, k = o.decode(memoryview(buf)[start:start + n]); print('R', k if ok else -1)
            elif kind == 'size': print('R', o.encode_size()); print('S', cls.size())
            else: print('R', o.decode_size(memoryview(buf)[start:start + n]))
        elif a[0] == 'GET':
            x = o
            for s in a[1].split('.'): x = get(x, s)
            t = a[2]
            if t == 's': v = x.encode('utf8').hex()
            elif t == 'y': v = bytes(x).hex()
            elif t == 'b': v = int(bool(x))
            elif t[0] == 'f': v = fb(t, x)
            elif t[0] == 'e': v = x.value if hasattr(x, 'value') else x
            else: v = int(x)
            print('V', a[1], v)
    except Exception as e:
        print('X', type(e).__name__, str(e).replace('\n', ' '))
