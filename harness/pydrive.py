"""Runs the generated Python programs of P02/P03: pydrive.py MODULE_DIR... ; requests on fd 3, answers on fd 4.

A request is "LENGTH\n" and a program of that many bytes; an answer likewise.  A program reports with out(...), one line each;
an exception that escapes it is the last line, "EXC type message"."""
import sys, os, gc
sys.path[:0] = sys.argv[1:]
import warnings
warnings.simplefilter("ignore")
import numpy as np

rd, wr = os.fdopen(3, "rb"), os.fdopen(4, "wb")
lines = []


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        return num(x.real) + "," + num(x.imag)
    return float(x).hex()


def txt(s):
    return "x" + s.encode("utf8", "surrogateescape").hex()


def form(x):
    if x is None:
        return "N"
    if isinstance(x, str):
        return "S " + txt(x)
    if isinstance(x, (bool, int, float, np.generic)):
        return "V " + num(x)
    if isinstance(x, (list, tuple)):
        return "L " + str(len(x)) + "".join(" " + form(y) for y in x)
    if not isinstance(x, np.ndarray):
        x = np.from_dlpack(x)
    name = x.dtype.str[1:] if x.dtype.itemsize > 1 else x.dtype.kind + "1"
    return "A %s %d%s x%s" % (name, x.ndim, "".join(" %d" % n for n in x.shape), np.ascontiguousarray(x, "<f8").tobytes().hex())


def out(*xs):
    for x in xs:
        lines.append(form(x))


def view(dtype, cells, shape, strides, start):
    """an array whose element strides and first cell are given, on cells of its own"""
    base = np.array(cells, dtype=dtype)
    w = base.itemsize
    return base, np.lib.stride_tricks.as_strided(base[start:], shape, [s * w for s in strides], writeable=True)


def raises(f):
    """reports whether f raised"""
    try:
        f()
    except Exception:
        out(1)
        return
    out(0)


base_env = dict(np=np, gc=gc, out=out, view=view, raises=raises, os=os)
while True:
    head = rd.readline()
    if not head:
        break
    code = rd.read(int(head)).decode()
    lines.clear()
    env = dict(base_env)
    try:
        exec(compile(code, "case", "exec"), env)
    except Exception as e:
        lines.append("EXC %s %s" % (type(e).__name__, str(e).replace("\n", " ")[:300]))
    env.clear()
    gc.collect()
    ans = "\n".join(lines).encode()
    wr.write(b"%d\n" % len(ans) + ans)
    wr.flush()
os._exit(0)
