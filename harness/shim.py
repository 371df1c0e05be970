"""tm.rust_stuff, backed by the Rust code of /repo through a C ABI.

install() builds the library from /repo's working tree and registers the
module, so that every Python module of /repo imports as it would with the real
extension.  The functions mirror what src/lib.rs exports: same names, same
arguments, same results; a Rust panic becomes PanicException."""
import ctypes
import json
import sys
import types
from enum import Enum

from . import build


class PanicException(BaseException):
    """As pyo3_runtime.PanicException: not an Exception."""


LIB = None


def load(path=None):
    global LIB
    if LIB is not None:
        return LIB
    if path is None:
        path, _ = build.build()
    lib = ctypes.CDLL(path)
    lib.bb_call.restype = ctypes.c_void_p
    lib.bb_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.bb_free.argtypes = [ctypes.c_void_p]
    lib.bb_pc_new.restype = ctypes.c_void_p
    lib.bb_pc_new.argtypes = [ctypes.c_uint64, ctypes.c_int32]
    lib.bb_pc_free.argtypes = [ctypes.c_void_p]
    lib.bb_pc_next.argtypes = [
        ctypes.c_void_p, ctypes.c_uint64, ctypes.c_int32, ctypes.c_void_p]
    lib.bb_pc_next.restype = ctypes.c_int32
    lib.bb_pc_del.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
    lib.bb_quiet()
    LIB = lib
    return lib


def call(name, *args):
    ptr = LIB.bb_call(name.encode(), json.dumps(args).encode())
    try:
        text = ctypes.string_at(ptr).decode()
    finally:
        LIB.bb_free(ptr)
    if text[0] == '-':
        raise PanicException(text[1:])
    return json.loads(text[1:])


class PastConfigs:
    __slots__ = ('ptr', 'buf')

    def __init__(self, state, cycle):
        self.ptr = LIB.bb_pc_new(state, cycle)
        self.buf = (ctypes.c_int32 * 3)()

    def __del__(self):
        LIB.bb_pc_free(self.ptr)

    def next_deltas(self, state, cycle):
        got = LIB.bb_pc_next(self.ptr, state, cycle, self.buf)
        if got < 0:
            raise PanicException('next_deltas')
        return tuple(self.buf) if got else None

    def delete_configs(self, state):
        LIB.bb_pc_del(self.ptr, state)


class TermRes(Enum):
    xlimit = 0
    cfglim = 1
    infrul = 2
    spnout = 3
    undfnd = 4
    mulrul = 5


def tuples(x):
    return tuple(map(tuples, x)) if isinstance(x, list) else x


class MachineResult:
    def __init__(self, **data):
        self.__dict__.update(data)


def result(data):
    data['result'] = TermRes[data['result']]
    data['blanks'] = {state: step for state, step in data['blanks']}
    data['undfnd'] = tuples(data['undfnd'])
    return MachineResult(**data)


def tcompile(prog):
    return {
        tuple(slot): tuple(instr) for slot, instr in call('tcompile', prog)}


def py_show_comp(comp, params=None):
    return call('py_show_comp', list(comp.items()), params)


def read_slot(slot):
    return tuples(call('read_slot', slot))


def read_instr(instr):
    return tuples(call('read_instr', instr))


def show_state(state):
    return call('show_state', state)


def show_slot(slot):
    return call('show_slot', slot)


def show_instr(instr):
    return call('show_instr', instr)


def run_prover(prog, sim_lim=100_000_000):
    return result(call('run_prover', prog, sim_lim))


def run_quick_machine(prog, sim_lim=100_000_000):
    return result(call('run_quick_machine', prog, sim_lim))


def tree_progs(params, halt, sim_lim):
    return call('tree_progs', params, halt, sim_lim)


def _plain(name, **defaults):
    order = list(defaults)

    def func(*args, **kwargs):
        args = list(args) + [kwargs.pop(k) for k in order[len(args):]]
        assert not kwargs, kwargs
        return call(name, *args)
    func.__name__ = name
    return func


py_cant_halt = _plain('py_cant_halt', prog=0, depth=0)
py_cant_blank = _plain('py_cant_blank', prog=0, depth=0)
py_cant_spin_out = _plain('py_cant_spin_out', prog=0, depth=0)
py_is_connected = _plain('py_is_connected', prog=0, states=0)
py_opt_block = _plain('py_opt_block', prog=0, steps=0)
py_quick_term_or_rec = _plain('py_quick_term_or_rec', prog=0, sim_lim=0)
py_segment_cant_halt = _plain('py_segment_cant_halt', prog=0, segs=0)

NAMES = '''PastConfigs TermRes MachineResult tcompile py_show_comp read_slot
read_instr show_state show_slot show_instr run_prover run_quick_machine
tree_progs py_cant_halt py_cant_blank py_cant_spin_out py_is_connected
py_opt_block py_quick_term_or_rec py_segment_cant_halt'''.split()


def install(path=None):
    sys.dont_write_bytecode = True
    load(path)
    if build.REPO not in sys.path:
        sys.path.insert(0, build.REPO)
    mod = types.ModuleType('tm.rust_stuff')
    for name in NAMES:
        setattr(mod, name, globals()[name])
    sys.modules['tm.rust_stuff'] = mod
    return mod
