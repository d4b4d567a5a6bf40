"""Memory made sensitive to misuse.

guarded(): every shared-memory array (multiprocessing's heap, where AddressSanitizer sees one
big block) gets a mapping of its own between two inaccessible pages, at the start or at the end
of its accessible part in turn, so that reading or writing past either end stops the process.
fill(byte): memory from malloc starts out filled with the byte (0: no filling)."""
import ctypes
import mmap
import multiprocessing.heap as heap

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = mmap.PAGESIZE
_turn = [0]


class Guarded:
    def __init__(self, size):
        if size < 0:
            raise ValueError(size)
        n = max(1, -(-size // PAGE)) * PAGE
        self._m = mmap.mmap(-1, n + 2 * PAGE)
        a = ctypes.addressof(ctypes.c_char.from_buffer(self._m))
        for p in (a, a + PAGE + n):
            if _libc.mprotect(p, PAGE, mmap.PROT_NONE if hasattr(mmap, "PROT_NONE") else 0):
                raise OSError(ctypes.get_errno(), "mprotect")
        _turn[0] += 1
        off = PAGE if _turn[0] % 2 else PAGE + n - size
        self._v, self._size = memoryview(self._m)[off:off + size], size

    def create_memoryview(self):
        return self._v


def guarded(on=True):
    if on and not hasattr(heap, "_vt_plain"):
        heap._vt_plain = heap.BufferWrapper
    heap.BufferWrapper = Guarded if on else getattr(heap, "_vt_plain", heap.BufferWrapper)


def fill(byte):
    return _libc.mallopt(-6, ctypes.c_int((~byte & 0xff) if byte else 0))
