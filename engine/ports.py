"""Input and output ports: streams whose characters come from / go to the property monitor."""
from .values import *
from .state import *
from .interp import *
from .models import *


def port_vt(st):
    if '$vtport' not in st.mem:
        st.new_region('ext', None, ('any',), name='$vtport')
        for n, s in SLOT.items():
            st.mem['$vtport'].cells[8 * s] = (Fn('$port_' + n), 8)
    return Ptr('$vtport', 0)


def portbuf(c, name):
    """a stream buffer object backed by the monitor"""
    st = c.st
    st.new_region('obj', None, ('any',), name=name)
    c.it.store(st, Ptr(name, 0), port_vt(st), 8)
    for o in range(8, 56, 8):
        c.it.store(st, Ptr(name, o), 0, 8)
    return Ptr(name, 0)


def stream(c, name, buf, out=False):
    """an already constructed std::basic_istream / basic_ostream over buf; returns its address"""
    st = c.st
    off = 8 if out else 16
    st.new_region('obj', None, ('undef',), name=name)
    c.it.store(st, Ptr(name, 0), synth_vt(c, off), 8)
    newios(c, Ptr(name, off), buf)
    return Ptr(name, 0)


def _in(peek):
    def f(c, this):
        return c.it.mon.read(c, this, peek)
    return f


def _over(c, this, ch):
    return c.it.mon.write(c, this, [ch])


def _xsputn(c, this, s, n):
    return c.it.mon.writen(c, this, s, n)


PORTS = {'$port_underflow': _in(True), '$port_uflow': _in(False), '$port_overflow': _over, '$port_xsputn': _xsputn,
         '$port_sync': lambda c, this: 0, '$port_showmanyc': lambda c, this: 0,
         '$port_pbackfail': lambda c, this, *a: 0xffffffff}
