"""Runs isxml of the module built with sanitizers, within the process they are preloaded into. Reads batches from stdin, writes outcomes to stdout"""
import ctypes, gc, importlib.machinery, importlib.util, pickle, struct, sys

inp, out = sys.stdin.buffer, sys.stdout.buffer


def load(path):
    loader = importlib.machinery.ExtensionFileLoader('cxmlstring', path)
    spec = importlib.util.spec_from_file_location('cxmlstring', path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]
allocated = libc.__sanitizer_get_current_allocated_bytes
allocated.restype = ctypes.c_size_t


def outcome(isxml, arg):
    try:
        r = isxml(arg)
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)
    return r if r is True or r is False else 'gives %r' % (r,)


def on_heap(isxml, data, how):
    """data in memory of its own, at either end of what has been allocated, so that nothing before or after may be read"""
    n = len(data)
    p = libc.malloc(n if how == 'exact' and n else n + 16)
    at = p + (0 if how == 'exact' and n else 16)
    ctypes.memmove(at, data, n)
    try:
        return outcome(isxml, (ctypes.c_ubyte * n).from_address(at))
    finally:
        libc.free(p)


def growth(isxml, data, times=40):
    """Bytes by which what is allocated grows each time it is called"""
    for _ in range(5): outcome(isxml, data)
    grown = []
    for _ in range(3):
        a = allocated()
        for _ in range(times): outcome(isxml, data)
        grown.append((allocated() - a) / times)
    return min(grown)


def main():
    path = sys.argv[1]
    mod = load(path)
    while True:
        head = inp.read(4)
        if len(head) < 4: break
        op, items = pickle.loads(inp.read(struct.unpack('<I', head)[0]))
        if op == 'call':
            res = []
            for how, data in items:
                if how == 'bytes': res.append(outcome(mod.isxml, data))
                else: res.append(on_heap(mod.isxml, data, how))
        elif op == 'growth': res = [growth(mod.isxml, d) for d in items]
        elif op == 'other': res = [outcome(mod.isxml, x) for x in items]
        elif op == 'module':
            for _ in range(items):
                m = load(path)
                assert m.isxml(b'<a/>') is True
                del m
                gc.collect()
            res = outcome(mod.isxml, b'<a/>')
        data = pickle.dumps(res)
        out.write(struct.pack('<I', len(data)) + data)
        out.flush()


main()
