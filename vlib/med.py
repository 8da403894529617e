"""Reads a MED mesh through libmed (ctypes): node coordinates, cells by type, groups."""
import ctypes as C, os, tempfile
from .run import SCRATCH_ROOT

NN = {1: ("POINT1", 1), 102: ("SEG2", 2), 103: ("SEG3", 3), 203: ("TRI3", 3), 206: ("TRI6", 6), 204: ("QUAD4", 4),
      208: ("QUAD8", 8), 209: ("QUAD9", 9), 304: ("TETRA4", 4), 310: ("TETRA10", 10), 305: ("PYRA5", 5),
      313: ("PYRA13", 13), 306: ("PENTA6", 6), 315: ("PENTA15", 15), 308: ("HEXA8", 8), 320: ("HEXA20", 20)}
LNAME = 80
_lib = None


class MedError(Exception):
    pass


def _l():
    global _lib
    if _lib is None:
        _lib = C.CDLL("libmedC.so.11")
        _lib.MEDfileOpen.restype = C.c_int64
        _lib.MEDfileOpen.argtypes = [C.c_char_p, C.c_int]
    return _lib


class Mesh:
    """coords: list of (x,y,z); cells: {number: (type, [node index from 0])};
    cell_groups/node_groups: {name: set(number | node index)}; by_type: {type: [number...]}"""


def read(path):
    L = _l()
    fid = L.MEDfileOpen(path.encode(), 0)
    if fid < 0:
        raise MedError("cannot open MED file")
    f = C.c_int64(fid)
    try:
        return _read(L, f)
    finally:
        L.MEDfileClose(f)


def _read(L, f):
    mn = b"3D unstructured mesh"
    ND = C.c_int(-1)
    ch, tr = C.c_int(0), C.c_int(0)
    dbl0 = C.c_double(0)

    def n_entity(ent, geo, dt, cm):
        return L.MEDmeshnEntity(f, mn, ND, ND, C.c_int(ent), C.c_int(geo), C.c_int(dt), C.c_int(cm), C.byref(ch), C.byref(tr))

    m = Mesh()
    n = n_entity(3, 0, 0, -1)
    if n < 0:
        raise MedError("no nodes entity")
    buf = (C.c_double * max(1, 3 * n))()
    if n and L.MEDmeshNodeCoordinateRd(f, mn, ND, ND, C.c_int(0), buf) < 0:
        raise MedError("coordinates")
    m.coords = [(buf[3 * i], buf[3 * i + 1], buf[3 * i + 2]) for i in range(n)]

    fams = {}
    nf = L.MEDnFamily(f, mn)
    for i in range(1, nf + 1):
        ng = L.MEDnFamilyGroup(f, mn, C.c_int(i))
        gb = C.create_string_buffer(max(0, ng) * LNAME + 1)
        name = C.create_string_buffer(65)
        num = C.c_int(0)
        if L.MEDfamilyInfo(f, mn, C.c_int(i), name, C.byref(num), gb) < 0:
            raise MedError("family %d" % i)
        raw = gb.raw
        fams[num.value] = [raw[k * LNAME:(k + 1) * LNAME].split(b"\0")[0].rstrip().decode("latin-1") for k in range(max(0, ng))]
    m.families = fams
    m.node_groups, m.cell_groups = {}, {}
    if n:
        fb = (C.c_int * n)()
        if L.MEDmeshEntityFamilyNumberRd(f, mn, ND, ND, C.c_int(3), C.c_int(0), fb) >= 0:
            for i in range(n):
                if fb[i] != 0:
                    if fb[i] not in fams:
                        raise MedError("node family %d undefined" % fb[i])
                    for g in fams[fb[i]]:
                        m.node_groups.setdefault(g, set()).add(i)
    m.cells, m.by_type = {}, {}
    for geo, (tname, k) in NN.items():
        nc = n_entity(0, geo, 1, 0)
        if nc <= 0:
            continue
        cb = (C.c_int * (nc * k))()
        if L.MEDmeshElementConnectivityRd(f, mn, ND, ND, C.c_int(0), C.c_int(geo), C.c_int(0), C.c_int(0), cb) < 0:
            raise MedError("connectivity " + tname)
        nb = (C.c_int * nc)()
        if L.MEDmeshEntityNumberRd(f, mn, ND, ND, C.c_int(0), C.c_int(geo), nb) < 0:
            raise MedError("numbers " + tname)
        fb = (C.c_int * nc)()
        has_f = L.MEDmeshEntityFamilyNumberRd(f, mn, ND, ND, C.c_int(0), C.c_int(geo), fb) >= 0
        for i in range(nc):
            if nb[i] in m.cells:
                raise MedError("duplicate cell number %d" % nb[i])
            m.cells[nb[i]] = (tname, [cb[i * k + j] - 1 for j in range(k)])
            m.by_type.setdefault(tname, []).append(nb[i])
            if has_f and fb[i] != 0:
                if fb[i] not in fams:
                    raise MedError("cell family %d undefined" % fb[i])
                for g in fams[fb[i]]:
                    m.cell_groups.setdefault(g, set()).add(nb[i])
    return m


def loads(data):
    fd, p = tempfile.mkstemp(prefix="vegamed_", suffix=".med", dir=SCRATCH_ROOT)
    try:
        with os.fdopen(fd, "wb") as h:
            h.write(data)
        return read(p)
    finally:
        os.unlink(p)
