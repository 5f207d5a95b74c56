"""ctypes access to the library built by buildlib.sh"""
import ctypes, hashlib, hmac, sys
DIG = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha512': 64}
class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
        self.err = ctypes.c_void_p()
    def f(self, name, *args):
        fn = getattr(self.l, name)
        fn.restype = ctypes.c_int
        return fn(*args, ctypes.byref(self.err))
    def digest(self, alg, chunks):
        c = ctypes.c_void_p()
        assert self.f('libhmac_%s_context_initialize' % alg, ctypes.byref(c)) == 1
        for x in chunks:
            if self.f('libhmac_%s_context_update' % alg, c, x, ctypes.c_size_t(len(x))) != 1:
                return None
        out = ctypes.create_string_buffer(DIG[alg])
        r = self.f('libhmac_%s_context_finalize' % alg, c, out, ctypes.c_size_t(DIG[alg]))
        assert self.f('libhmac_%s_context_free' % alg, ctypes.byref(c)) == 1
        return out.raw if r == 1 else None
    def calc(self, alg, data, size=None):
        n = DIG[alg] if size is None else size
        out = ctypes.create_string_buffer(n)
        r = self.f('libhmac_%s_calculate' % alg, data, ctypes.c_size_t(len(data)), out, ctypes.c_size_t(n))
        return out.raw if r == 1 else None
    def mac(self, alg, key, data, size=None):
        n = DIG[alg] if size is None else size
        out = ctypes.create_string_buffer(n)
        r = self.f('libhmac_%s_calculate_hmac' % alg, key, ctypes.c_size_t(len(key)), data, ctypes.c_size_t(len(data)), out, ctypes.c_size_t(n))
        return out.raw if r == 1 else None
def ref(alg, data): return hashlib.new(alg, data).digest()
def refmac(alg, key, data): return hmac.new(key, data, alg).digest()
