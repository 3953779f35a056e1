"""ctypes access to the C library interface inside the freshly built libcantera_shared."""
import ctypes as C, os
import cantera as ct      # loads the shared library this interface lives in
import numpy as np

B = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'))
L = C.CDLL(os.path.join(B, 'o', 'libcantera_shared.so.3'))
NPOS = C.c_size_t(-1).value
DERR = -999.999


def fn(name, res, *args):
    f = getattr(L, name)
    f.restype, f.argtypes = res, list(args)
    return f


I, D, S, Z = C.c_int, C.c_double, C.c_char_p, C.c_size_t
P = C.POINTER(C.c_double)


def vec(x):
    a = np.ascontiguousarray(x, float)
    return a, a.ctypes.data_as(P)


def err():
    f = fn('ct_getCanteraError', I, I, S)
    b = C.create_string_buffer(20000)
    f(20000, b)
    return b.value.decode(errors='replace')
