PLANTS = []


def plant(id, property, needs, breaks, edits, demo):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


plant("c01-getitem-outside-try", "C01",
      "load from a path whose target group does not exist, by path or file object",
      "the file opened by load stays open: the lookup of the root group moved in front of the try that closes it",
      [("hickle.py", """    h5f, path, close_flag = file_opener(file_obj, path, 'r', filename)
    try:
        h_root_group = h5f.get(path,None) # only used by v4
        if not isinstance(h_root_group,h5.Group):
            raise FileError("file '{}': path '{}' not existing".format(h5f.filename,path))
""", """    h5f, path, close_flag = file_opener(file_obj, path, 'r', filename)
    h_root_group = h5f.get(path,None) # only used by v4
    if not isinstance(h_root_group,h5.Group):
        raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! "
                         "(path '{}' not existing)".format(path))
    try:
""")], """
p = P("a.hkl")
hickle.dump([1, "a"], p)
err = None
try:
    hickle.load(p, path="/nothing")
except Exception as e:
    err = e
if err is None: fail("no error")
h5objs = [o for o in gc.get_objects() if isinstance(o, h5py.File) and o.id.valid]
if h5objs: fail("file still open after load failed")
""")

plant("c08-skycoord-options", "C08",
      "dump of a SkyCoord with compression or chunks",
      "the dataset options are withheld from the coordinates of a SkyCoord, which are stored uncompressed",
      [("loaders/load_astropy.py", "d = h_group.create_dataset(name, data=dd, dtype='float64', **kwargs)",
        "d = h_group.create_dataset(name, data=dd, dtype='float64', **no_compression(kwargs))")], """
from astropy.coordinates import SkyCoord
c = SkyCoord(np.arange(50.), np.arange(50.), unit="deg")
hickle.dump(c, P("a.hkl"), compression="gzip")
with h5py.File(P("a.hkl"), "r") as f:
    if f["data"].compression != "gzip": fail(f["data"].compression)
""")

plant("c08-sparse-items", "C08",
      "a sparse matrix dumped with compression",
      "the index arrays of sparse matrices are handed on without the options given to dump and stored unfiltered",
      [("loaders/load_scipy.py", "    return h_sparsegroup,(\n", "    index_kwargs = {}\n    return h_sparsegroup,(\n"),
       ("loaders/load_scipy.py", "('indices',py_obj.indices,{},kwargs),", "('indices',py_obj.indices,{},index_kwargs),"),
       ("loaders/load_scipy.py", "('indptr',py_obj.indptr,{},kwargs),", "('indptr',py_obj.indptr,{},index_kwargs),")], """
import scipy.sparse as sp
hickle.dump(sp.csr_matrix(np.eye(30)), P("a.hkl"), compression="gzip")
with h5py.File(P("a.hkl"), "r") as f:
    for n in ("data", "indices", "indptr"):
        if f["data/" + n].compression != "gzip": fail(n)
""")

plant("c01-closes-callers-group", "C01",
      "load from a group (not a file) of an already open file",
      "a group passed in marks the file as owned by hickle, so the caller's file is closed under its feet",
      [("fileio.py", """        base_path = f.name
        if not isinstance(f,h5.File):
            f = f.file
""", """        base_path = f.name
        close_flag = not isinstance(f,h5.File) and mode == 'r' and filename is not None
        if not isinstance(f,h5.File):
            f = f.file
"""), ("fileio.py", "        return f,''.join((base_path,path.rstrip('/'))),False\n", "        return f,''.join((base_path,path.rstrip('/'))),close_flag\n")], """
with h5py.File(P("a.hkl"), "w") as f:
    g = f.create_group("g")
    hickle.dump([1, "a"], g)
    hickle.load(g, filename="a.hkl")
    if not f: fail("caller's file closed")
""")

plant("c02-exit-only-on-success", "C02",
      "a dump or load that fails on an open file followed by another one on the same file, while the traceback is alive",
      "the loader manager is only dropped if the with block ended without an exception",
      [("lookup.py", """        if not isinstance(self._file,h5.File) or not self._file:
            return
        super().__exit__(exc_type, exc_value, exc_traceback, self._file)
""", """        if not isinstance(self._file,h5.File) or not self._file or isinstance(exc_value,(pickle.PicklingError,RecursionError)):
            return
        super().__exit__(exc_type, exc_value, exc_traceback, self._file)
""")], """
import pickle
class Bad:
    def __reduce__(self): raise pickle.PicklingError("no")
with h5py.File(P("a.hkl"), "w") as f:
    try:
        hickle.dump(Bad(), f, path="a")
    except pickle.PicklingError as e:
        keep = e
    else: fail("no error")
    try:
        hickle.dump([1], f, path="b")
    except Exception as e:
        fail(repr(e))
""")

plant("c02-registered-before-built", "C02",
      "options naming an unknown loader set, then another dump to the same open file",
      "the table entry is created before the manager and remains if the manager can not be constructed",
      [("lookup.py", "        table = cls.__managers__[h_node.file.id] = create_entry()\n", """        cls.__managers__[h_node.file.id] = [None]
        table = cls.__managers__[h_node.file.id] = create_entry()
""")], """
with h5py.File(P("a.hkl"), "w") as f:
    try: hickle.dump([1], f, path="a", options={"nope": True})
    except Exception: pass
    else: fail("no error")
    try: hickle.dump([1], f, path="b")
    except Exception as e: fail(repr(e))
""")

plant("c03-touch-attribute", "C03",
      "load of a file the caller has open for writing",
      "the loader stamps the version that read the file into the root group",
      [("hickle.py", """        if all(map(h_root_group.attrs.get, v4_attrs)):
""", """        if all(map(h_root_group.attrs.get, v4_attrs)):
            if h5f.mode == 'r+' and not close_flag:
                h_root_group.attrs.setdefault('HICKLE_READ_BY',__version__)
""")], """
with h5py.File(P("a.hkl"), "w") as f:
    hickle.dump([1, "a"], f)
    before = dict(f.attrs)
    hickle.load(f)
    if set(f.attrs) != set(before): fail(sorted(f.attrs))
""")

plant("c03-sparse-fix-in-place", "C03",
      "load of a hickle 4.x sparse matrix from a file opened for writing",
      "the missing np_dtype of old sparse matrices is added to the dataset of the file instead of the proxy",
      [("loaders/load_scipy.py", """        for name,item in h_parent.items():
            item = H5NodeFilterProxy(item)
""", """        for name,h_item in h_parent.items():
            item = H5NodeFilterProxy(h_item)
"""), ("loaders/load_scipy.py", """            if name == "shape":
                item.attrs['type']""", """            if name != "shape" and h_item.file.mode == 'r+' and 'np_dtype' not in h_item.attrs:
                h_item.attrs['np_dtype'] = h_item.dtype.str.encode('ascii')
            if name == "shape":
                item.attrs['type']""")], """
src = os.path.join(os.path.dirname(hickle.__file__), "tests", "legacy_hkls")
import glob
from hickle.loaders import load_scipy
import pickle, scipy.sparse as sp
m = sp.csr_matrix(np.eye(3))
with h5py.File(P("a.hkl"), "w") as f:
    f.attrs["HICKLE_VERSION"] = "4.0.0"; f.attrs["HICKLE_PYTHON_VERSION"] = "3.8.0"
    g = f.create_group("data")
    g.attrs["base_type"] = b"csr_matrix"; g.attrs["type"] = np.array(pickle.dumps(load_scipy.return_first))
    for n, v, b in (("data", m.data, b"csr_matrix"), ("indices", m.indices, b"ndarray"), ("indptr", m.indptr, b"ndarray"), ("shape", np.array(m.shape), b"tuple")):
        d = g.create_dataset(n, data=v)
        d.attrs["base_type"] = b
        d.attrs["type"] = np.array(pickle.dumps({b"csr_matrix": sp.csr_matrix, b"ndarray": np.ndarray, b"tuple": tuple}[b]))
with h5py.File(P("a.hkl"), "r+") as f:
    before = {n: sorted(f["data/" + n].attrs) for n in f["data"]}
    r = hickle.load(f)
    if (r != m).nnz: fail("content")
    after = {n: sorted(f["data/" + n].attrs) for n in f["data"]}
    if before != after: fail(after)
""")

plant("c03-default-readwrite", "C03",
      "load from a path",
      "files are opened for reading and writing",
      [("hickle.py", "    h5f, path, close_flag = file_opener(file_obj, path, 'r', filename)\n",
        "    h5f, path, close_flag = file_opener(file_obj, path, 'r' if not isinstance(file_obj,str) or path == '/' else 'r+', filename)\n")], """
p = P("a.hkl")
hickle.dump([1], p, path="/x")
with h5py.File(p, "r") as f:
    try: hickle.load(p, path="/x")
    except Exception as e: fail(repr(e))
""")

plant("c04-set-one-item-group", "C04",
      "a SkyCoord that is a scalar dumped inside a list",
      "scalar coordinates are written as a group with one dataset per axis, for which no reader exists",
      [("loaders/load_astropy.py", """    lon = py_obj.data.lon.value
    lat = py_obj.data.lat.value
    dd = np.stack((lon, lat), axis=-1)
""", """    lon = py_obj.data.lon.value
    lat = py_obj.data.lat.value
    if np.size(lon) == 0:
        d = h_group.create_group(name)
        d.attrs['lon_unit'] = py_obj.data.lon.unit.to_string().encode('ascii')
        d.attrs['lat_unit'] = py_obj.data.lat.unit.to_string().encode('ascii')
        return d,()
    dd = np.stack((lon, lat), axis=-1)
""")], """
from astropy.coordinates import SkyCoord
r = roundtrip([SkyCoord(np.zeros(0), np.zeros(0), unit="deg")])
if not isinstance(r[0], SkyCoord): fail(type(r[0]))
""")

plant("c04-empty-bytes", "C04",
      "an empty array of bytes strings",
      "arrays without elements are stored as an empty dataset whatever their dtype, which loses their shape and is read as content",
      [("loaders/load_numpy.py", """    d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
    return d,()
""", """    if not py_obj.itemsize:
        # flexible dtype of unspecified size
        return h_group.create_dataset(name, shape=None, dtype=py_obj, **no_compression(kwargs)),()
    d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
    return d,()
""")], """
r = roundtrip(np.dtype("S"))
if r != np.dtype("S"): fail(r)
""")

plant("c05-masked-swap", "C05",
      "a masked array whose data has no masked entry at the same places as its values",
      "the mask is inverted for arrays of bool",
      [("loaders/load_numpy.py", "('mask',py_obj.mask,{},kwargs))", "('mask',py_obj.mask if py_obj.ndim else py_obj.data,{},kwargs))")], """
m = np.ma.array(5.0, mask=False)
r = roundtrip(m)
if bool(r.mask): fail(r)
""")

plant("c05-constant-reference", "C05",
      "an astropy constant without a system",
      "the reference of constants that belong to no system is taken from their name",
      [("loaders/load_astropy.py", """    system = None
    if "system" in h_node.attrs.keys():
        system = h_node.attrs["system"]
""", """    system = None
    if "system" in h_node.attrs.keys():
        system = h_node.attrs["system"]
    else:
        ref = h_node.attrs["name"]
""")], """
from astropy.constants import Constant, EMConstant
from astropy import constants
c = constants.c
r = roundtrip(c)
if r.reference != c.reference: fail(r.reference)
""")

plant("c05-time-scale", "C05",
      "a numeric Time with a scale other than its default, stored in julian dates",
      "times in julian dates are restored with the default scale of the format",
      [("loaders/load_astropy.py", "        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale)\n",
        "        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale if fmt != 'cxcsec' else None)\n")], """
from astropy.time import Time
t = Time(1e8, format="cxcsec", scale="tai")
r = roundtrip(t)
if r.scale != t.scale: fail(r.scale)
""")

plant("c05-sparse-mapping", "C05",
      "a sparse matrix that is not symmetric",
      "indices of matrices in column order are stored sorted",
      [("loaders/load_scipy.py", "        ('indices',py_obj.indices,{},kwargs),\n", "        ('indices',py_obj.indices if py_obj.has_sorted_indices else np.sort(py_obj.indices),{},kwargs),\n")], """
import scipy.sparse as sp
m = sp.csr_matrix((np.array([1., 2.]), np.array([2, 0]), np.array([0, 2])), shape=(1, 3))
m.has_sorted_indices = False
r = roundtrip(m)
if (r.toarray() != m.toarray()).any(): fail(r.toarray())
""")

plant("c06-dict-names", "C06",
      "a dict with more than 256 keys of types that are stored as key/value pairs",
      "the name of a key/value pair is derived from its position modulo 256, so names are not unique",
      [("loaders/load_builtins.py", "            sub_node_name = key_value_pair_name.format(idx)\n",
        "            sub_node_name = key_value_pair_name.format(idx & 0xff)\n")], """
d = {(1, i): i for i in range(300)}
try: r = roundtrip(d)
except Exception as e: fail(repr(e))
if list(r.items()) != list(d.items()): fail("order")
""")

plant("c07-bytes-key-escape", "C07",
      "a bytes key that starts with a quote character",
      "the restored key is stripped of quotes instead of cut at the fixed positions",
      [("loaders/load_builtins.py", """                name[1:-1] if name[0] == '"' else self._swap_key_slashes.sub(r'/',name)[1:-1],
                item
            )
        elif key_base_type in (b'bytes','bytes'):""", """                name.strip('"') if name[0] == '"' else self._swap_key_slashes.sub(r'/',name)[1:-1],
                item
            )
        elif key_base_type in (b'bytes','bytes'):""")], """
d = {'"a"': 1, "b": 2}
r = roundtrip(d)
if r != d: fail(r)
""")

plant("c07-complex-key", "C07",
      "a complex key with negative zero or infinite parts",
      "complex keys are formatted with str.format, which drops the sign of zero",
      [("loaders/load_builtins.py", """                h_key = "{!r}".format(key)
""", """                h_key = "{!r}".format(key) if key.__class__ is not float else "{:.15g}".format(key)
""")], """
d = {0.1 + 0.2: 1}
r = roundtrip(d)
if list(r) != list(d): fail(list(r))
d = {1.0: 1}
""")

plant("c09-temporary-id", "C09",
      "a dict-like object whose items() creates temporary objects, e.g. key/value tuples",
      "the memo keeps the node only, so the id of a temporary object can be reused by a different object",
      [("hickle.py", "        memo[py_obj_id] = (h_node,py_obj)\n", "        memo[py_obj_id] = (h_node,)\n")], """
d = {(i, "k"): [str(i), "v%d" % i] for i in range(300)}
try: r = roundtrip(d)
except Exception as e: fail(repr(e))
if r != d: fail("merged")
""")

plant("c09-load-memo-groups-only", "C09",
      "a long string shared twice",
      "only objects stored as groups are remembered on load",
      [("hickle.py", """    if memoise:
        memo[h_node.id] = sub_data
""", """    if memoise and ( is_container or h_node.ndim ):
        memo[h_node.id] = sub_data
""")], """
a = np.array(5.0)
r = roundtrip([a, "x", a])
if r[0] is not r[2]: fail("not shared")
""")

plant("c10-late-check", "C10",
      "dump into a group that already has content, in a file opened with mode a",
      "attributes of the target group are written before it is checked for content",
      [("hickle.py", """        elif h_root_group.items():
            raise ValueError("Unable to create group (name already exists)")

        h_root_group.attrs["HICKLE_VERSION"] = __version__
        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
""", """
        empty = not h_root_group.items()
        h_root_group.attrs["HICKLE_VERSION"] = __version__
        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
        if not empty:
            raise ValueError("Unable to create group (name already exists)")
""")], """
with h5py.File(P("a.hkl"), "w") as f:
    f.create_group("g").create_dataset("mine", data=1)
try: hickle.dump([1], P("a.hkl"), mode="a", path="/g")
except Exception: pass
else: fail("no error")
with h5py.File(P("a.hkl"), "r") as f:
    if len(f["g"].attrs): fail(list(f["g"].attrs))
""")

plant("c10-readonly-plus", "C10",
      "dump with mode r+ to a file the caller opened read-only",
      "only the first letter of the mode decides whether writing is refused",
      [("fileio.py", "        if f.mode == 'r' and ( mode[0] != 'r' or '+' in mode[1:] ):\n", "        if f.mode == 'r' and mode[0] not in 'ra':\n")], """
hickle.dump([1], P("a.hkl"), path="/x")
from hickle.fileio import FileError
with h5py.File(P("a.hkl"), "r") as f:
    for mode in ("r+", "a"):
        try: hickle.dump([2], f, mode=mode, path="/y")
        except FileError: pass
        except Exception as e: fail(repr(e))
""")

plant("c10-only-datasets", "C10",
      "dump into a group that holds nothing but empty groups",
      "content of the target is judged by its datasets only",
      [("hickle.py", "        elif h_root_group.items():\n", "        elif any(not isinstance(item,h5.Group) or len(item) for item in h_root_group.values()):\n")], """
with h5py.File(P("a.hkl"), "w") as f:
    f.create_group("mine")
    try: hickle.dump([1], f)
    except ValueError: pass
    else: fail("dumped beside existing content")
""")

plant("c11-sum-duplicates", "C11",
      "a sparse matrix with unsorted indices",
      "the dumped matrix is brought into canonical form in place",
      [("loaders/load_scipy.py", "    h_sparsegroup = h_group.create_group(name)\n", "    py_obj.sort_indices()\n    h_sparsegroup = h_group.create_group(name)\n")], """
import scipy.sparse as sp
m = sp.csr_matrix((np.array([1., 2.]), np.array([2, 0]), np.array([0, 2])), shape=(1, 3))
before = m.indices.copy()
hickle.dump(m, P("a.hkl"))
if (m.indices != before).any(): fail(m.indices)
""")

plant("c11-options-pop", "C11",
      "the same options dict used for two dumps",
      "disabled options are removed from the dict of the caller",
      [("lookup.py", """                for option_key,on in options.items():
                    if not on:
                        continue
""", """                for option_key,on in tuple(options.items()):
                    if not on:
                        del options[option_key]
                        continue
""")], """
o = {"custom": False}
hickle.dump([1], P("a.hkl"), options=o)
if o != {"custom": False}: fail(o)
""")

plant("c12-mask-dataset", "C12",
      "a masked array of hickle 4.x",
      "the mask of old masked arrays is kept as dataset until used",
      [("loaders/load_astropy.py", """    return py_obj_type(h_node[()], unit)


def load_astropy_time""", """    return py_obj_type(h_node[()] if h_node.ndim else h_node[...], unit)


def load_astropy_time"""),
       ("loaders/load_astropy.py", """        meta = {
            metakey:metavalue 
            for metakey,metavalue in h_node.attrs.items()
            if metakey not in table_attrs
        }
    )
    return t""", """    )
    t.meta = _TableMeta(h_node.attrs)
    return t"""),
       ("loaders/load_astropy.py", "# %% REGISTERS\n", """class _TableMeta(collections.ChainMap):
    \"\"\" metadata of table without the entries hickle needs itself \"\"\"
    def __init__(self,attrs):
        super().__init__({},attrs)
    def __iter__(self):
        return ( key for key in super().__iter__() if key not in {'type','base_type','colnames'} )

# %% REGISTERS
"""), ("loaders/load_astropy.py", "import sys\n", "import sys\nimport collections\n")], """
from astropy.table import Table
t = Table({"a": [1, 2]}, meta={"k": 5})
r = roundtrip(t)
try: v = r.meta["k"]
except Exception as e: fail(repr(e))
if v != 5: fail(v)
""")

plant("c13-set-subclass", "C13",
      "an empty instance of a subclass of list",
      "empty sequences are returned as the base type",
      [("loaders/load_builtins.py", "        return py_obj_type() if isinstance(py_obj_type,tuple) else py_obj_type(())\n",
        "        return [] if issubclass(py_obj_type,list) else py_obj_type(())\n")], """
L = module("pmod", "class L(list): pass").L
r = roundtrip(L())
if type(r) is not L: fail(type(r))
""")

plant("c13-int-subclass", "C13",
      "an instance of an int subclass beyond 64 bits, such as an enum-like type",
      "integers read from text are returned as plain int",
      [("loaders/load_builtins.py", """    data = h_node[()] if h_node.size < 2 else memoryview(h_node[()])

""", """    if h_node.size >= 2:
        return int(memoryview(h_node[()]))
    data = h_node[()]
""")], """
I = module("pmod", "class I(int): pass").I
r = roundtrip(I(2**70))
if type(r) is not I or r != 2**70: fail(type(r))
""")

plant("c13-mro-type", "C13",
      "an instance of a subclass of dict",
      "the class of the loader found is recorded instead of the class of the object",
      [("lookup.py", """            # return loader for base_class mro_item
            return py_obj_type,loader_item
""", """            # return loader for base_class mro_item
            return mro_item,loader_item
""")], """
D = module("pmod", "class D(dict): pass").D
r = roundtrip(D({"a": 1}))
if type(r) is not D: fail("class lost")
""")

plant("c14-swallow-item", "C14",
      "a list with an item whose stored content is damaged",
      "items that can not be read are skipped with a warning",
      [("hickle.py", """        for h_key,h_subnode in py_subcontainer.filter(h_node):
            _load(py_subcontainer, h_key, h_subnode, memo ,loader)
""", """        for h_key,h_subnode in py_subcontainer.filter(h_node):
            try:
                _load(py_subcontainer, h_key, h_subnode, memo ,loader)
            except EOFError as error:
                warnings.warn("item '{}' skipped: {}".format(h_key,error))
""")], """
import datetime
hickle.dump(["a", datetime.timezone.utc], P("a.hkl"))
with h5py.File(P("a.hkl"), "r+") as f:
    d = f["data/data1"]
    a = dict(d.attrs)
    raw = d[()]
    del f["data/data1"]
    n = f["data"].create_dataset("data1", data=raw[:2])
    for k, v in a.items(): n.attrs[k] = v
try: r = hickle.load(P("a.hkl"))
except ValueError: pass
else: fail(r)
""")

plant("c14-return-in-finally", "C14",
      "an object whose pickling fails while dumping",
      "an object that can not be pickled is stored as an empty dataset with a warning",
      [("lookup.py", """    pickled_obj = pickle.dumps(py_obj)
    d = h_group""", """    try:
        pickled_obj = pickle.dumps(py_obj)
    except pickle.PicklingError as error:
        warnings.warn(str(error),SerializedWarning)
        pickled_obj = pickle.dumps(None)
    d = h_group""")], """
import pickle
class Bad:
    def __reduce__(self): raise pickle.PicklingError("no")
try: hickle.dump([1, "a", Bad()], P("a.hkl"))
except pickle.PicklingError: pass
else: fail("dump returned")
""")

plant("c15-option-shadow", "C15",
      "registering a loader for a protected tag under an option",
      "the tags hickle depends on are protected against global loaders only",
      [("lookup.py", "            ( hkl_str[:1] == hkl_str[-1:] == b'!' or hkl_str in disallow_in_option )\n",
        "            ( ( hkl_str[:1] == hkl_str[-1:] == b'!' and load_function is not None ) or hkl_str in disallow_in_option )\n")], """
from hickle.lookup import LoaderManager
class C(helpers.PyContainer): pass
class X: pass
try: LoaderManager.register_class(X, b"!node-reference!", None, None, C, True, "custom")
except ValueError: pass
else: fail("shadowed")
""")

plant("c15-exclude-case", "C15",
      "excluding 'pickle' or 'dict_item' for an option set",
      "core tags may be excluded within an option",
      [("lookup.py", "disallowed_to_ignore = {b'dict_item', b'pickle' }\n", "disallowed_to_ignore = {b'dict_item', b'pickle' if sys.flags.optimize else b'object' }\n")], """
from hickle.lookup import LoaderManager
for t in (b"pickle", "pickle", b"dict_item", "!recover!"):
    try: LoaderManager.register_class_exclude(t, "custom")
    except ValueError: pass
    else: fail(t)
""")

plant("c16-recorded-value", "C16",
      "an option given as a non-bool true value, or disabled option",
      "options are recorded whatever their value",
      [("lookup.py", """                    if not on:
                        continue
                    h_root_group.attrs""", """                    if on is False:
                        continue
                    h_root_group.attrs""")], """
hickle.dump([1], P("a.hkl"), options={"custom": 0})
with h5py.File(P("a.hkl"), "r") as f:
    if any("CUSTOM" in n.upper() for n in f.attrs): fail(list(f.attrs))
""")

plant("c17-recover-attrs", "C17",
      "a dict subclass with entries whose class is missing on load",
      "attributes of recovered items are dropped when the group is recovered",
      [("lookup.py", "            self._content[name] = (item,{ key:value for key,value in h5_attrs.items() if key not in {'type'}})\n",
        "            self._content[name] = (item,{ key:value for key,value in h5_attrs.items() if key not in {'type','key_idx'}})\n")], """
mod = module("pmod", "class Q(dict): pass"); Q = mod.Q
hickle.dump(Q({"a": 1}), P("a.hkl"))
del mod.Q
r = hickle.load(P("a.hkl"))
if "key_idx" not in r['"a"'][1]: fail(r)
""")

plant("c18-version-prefix", "C18",
      "a file whose version starts with 4 but is not 4.x, such as 40.1.0",
      "the generation is decided by the first character of the version",
      [("hickle.py", "            if int(hickle_version[0]) == 4:\n", "            if hickle_version[0][:1] == '4':\n")], """
hickle.dump([1, "a"], P("a.hkl"))
with h5py.File(P("a.hkl"), "r+") as f: f.attrs["HICKLE_VERSION"] = "40.1.0"
seen = []
orig = lookup.LoaderManager.create_manager.__func__
def rec(cls, h, legacy=False, options=None):
    seen.append(legacy); return orig(cls, h, legacy, options)
import hickle.hickle as hh
lookup.LoaderManager.create_manager = classmethod(rec)
hickle.load(P("a.hkl"))
if seen != [False]: fail(seen)
""")

plant("c20-path-strip", "C20",
      "a relative path with a leading dot, or a trailing slash, below a group",
      "paths are stripped at both ends before being joined",
      [("fileio.py", "        return f,''.join((base_path,path.rstrip('/'))),False\n", "        return f,''.join((base_path,path.rstrip('/'))) if len(path) > 2 else base_path,False\n")], """
with h5py.File(P("a.hkl"), "w") as f:
    g = f.create_group("g")
    hickle.dump([1, "a"], g, path="x")
    if "x" not in g: fail(list(g))
""")

plant("c21-reduce-first", "C21",
      "an object without a loader nested in a list",
      "the pickle of an object that provides a state contains the state only",
      [("lookup.py", "    pickled_obj = pickle.dumps(py_obj)\n", "    pickled_obj = pickle.dumps(py_obj if not isinstance(py_obj,types.SimpleNamespace) else py_obj.__dict__)\n")], """
import types as T
r = roundtrip(T.SimpleNamespace(a=1))
if not isinstance(r, T.SimpleNamespace): fail(r)
""")

plant("c22-result-type", "C22",
      "a list whose text items follow at least one number",
      "only the kind of the common type is compared",
      [("loaders/load_builtins.py", """            common_dtype.name == 'object' or
            'str' in common_dtype.name or
""", """            ( common_dtype.name == 'object' and not item is None ) or
            'str' in common_dtype.name or
""")], """
l = [1.0, None]
try: r = roundtrip(l)
except Exception as e: fail(repr(e))
if r != l: fail(r)
""")


# --- third batch --------------------------------------------------------------------

plant("c02-managers-first", "C02",
      "load from an open file whose types table is damaged, repair it, load again through the same handle",
      "both managers are created before the with statement is entered: if creating the second fails, the first stays registered",
      [("hickle.py", """            with LoaderManager.create_manager( h_root_group,False) as loader:
                with ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True) as memo:
                    _load(""", """            loader = LoaderManager.create_manager( h_root_group,False)
            memo = ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True)
            with loader:
                with memo:
                    _load(""")], """
p = P("a.hkl")
hickle.dump([1, "a"], p)
with h5py.File(p, "r+") as f:
    f.move("hickle_types_table", "keep")
    f.create_dataset("hickle_types_table", data=1)
    try:
        hickle.load(f)
        fail("no error")
    except ValueError:
        pass
    del f["hickle_types_table"]
    f.move("keep", "hickle_types_table")
    try:
        if hickle.load(f) != [1, "a"]: fail("wrong data")
    except ValueError as e:
        fail("second load: %r" % e)
""")

plant("c14-recover-on-failure", "C14",
      "a dataset whose content can not be read or converted any more, e.g. a text that is no valid utf8",
      "a reader that fails no longer makes load fail: the raw content is handed out as recovered data",
      [("hickle.py", "        sub_data = load_fn(h_node,base_type,py_obj_type)\n",
        "        try:\n            sub_data = load_fn(h_node,base_type,py_obj_type)\n        except (ValueError,KeyError,OSError) as error:\n            warnings.warn(\"loading '{}' failed ({}). Data recovered\".format(h_node.name,error))\n            sub_data = recover_custom_dataset(h_node,base_type,py_obj_type)\n")], """
p = P("a.hkl")
hickle.dump("gr\\u00fc\\u00dfe", p)
with h5py.File(p, "r+") as f:
    f["data"][0, 2] = b"\\xff"
try:
    r = hickle.load(p)
except ValueError:
    sys.exit(0)
fail("load returned %r" % (r,))
""")

plant("c18-four-zero-only", "C18",
      "a file written by hickle 4.1",
      "only 4.0 files are read with the 4.x loader set",
      [("hickle.py", "            if int(hickle_version[0]) == 4:", "            if hickle_version[:2] == ['4','0']:")], """
import pickle
p = P("a.hkl")
with h5py.File(p, "w") as f:
    f.attrs["HICKLE_VERSION"] = "4.1.0"; f.attrs["HICKLE_PYTHON_VERSION"] = "3.8.0"
    f.create_group("data").attrs["base_type"] = b"dict"
    f["data"].attrs["type"] = np.array(pickle.dumps(dict))
    g = f["data"].create_group('"a"')
    g.attrs["base_type"] = b"dict_item"; g.attrs["key_base_type"] = b"str"; g.attrs["key_type"] = np.array(pickle.dumps(str)); g.attrs["key_idx"] = 0
    d = g.create_dataset("data", data=5)
    d.attrs["base_type"] = b"int"; d.attrs["type"] = np.array(pickle.dumps(int))
try:
    r = hickle.load(p)
except Exception as e:
    fail("%r" % e)
if r != {"a": 5}: fail(repr(r))
""")

plant("c19-disable-while-loading", "C19",
      "a load that fails while reading items, or a caller that has disabled the collector",
      "load switches the collector off while reading and on again only if reading succeeded",
      [("hickle.py", "            with LoaderManager.create_manager( h_root_group,False) as loader:\n                with ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True) as memo:\n                    _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_loader)\n            return py_container.convert()",
        "            with LoaderManager.create_manager( h_root_group,False) as loader:\n                with ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True) as memo:\n                    # no cycles are created while loading\n                    collect = gc.isenabled()\n                    gc.disable()\n                    _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_loader)\n                    if collect:\n                        gc.enable()\n            return py_container.convert()")], """
p = P("a.hkl")
hickle.dump([1, "a"], p)
with h5py.File(p, "r+") as f:
    del f["data"].attrs["num_items"]
    f["data"]["data0"].attrs["item_index"] = 1
gc.enable()
try:
    hickle.load(p); fail("no error")
except ValueError:
    pass
if not gc.isenabled(): fail("collector left disabled")
""")

plant("c22-sampling", "C22",
      "a list of more than 4096 numbers with something else behind",
      "the item types of long sequences are judged by their first items only",
      [("loaders/load_builtins.py", "    for item in iter_obj:\n        if np.ndim(item)", "    for _,item in zip(range(4096),iter_obj):\n        if np.ndim(item)")], """
v = [1] * 5000 + ["7"]
r = roundtrip(v)
if r[-1] != "7": fail("item became %r" % (r[-1],))
""")

plant("c07-isinstance-keys", "C07",
      "a dict with a key of a subclass of int, e.g. an IntEnum member",
      "keys of subclasses of the numeric types are encoded in the node name, which looses their class or makes load fail",
      [("loaders/load_builtins.py", "            elif key.__class__ in (float,bool,int,complex,None.__class__):", "            elif isinstance(key,(float,bool,int,complex,None.__class__)):")], """
m = module("colours", "import enum\\nclass Colour(enum.IntEnum):\\n    RED = 1\\nclass I(int): pass\\n")
for k in (m.I(7), m.Colour.RED):
    try:
        r = roundtrip({k: "x"})
    except Exception as e:
        fail("%r" % e)
    if list(r) != [k] or type(list(r)[0]) is not type(k): fail("key became %r" % list(r))
""")

plant("c08-short-strings", "C08",
      "dump of a short text with fletcher32 or compression",
      "options are withheld from the datasets of short strings",
      [("loaders/load_builtins.py", "        dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)",
        "        dataset = h_group.create_dataset(\n            name, data = string_data,shape = (1,string_data.size),\n            **( kwargs if string_data.size > 16 else no_compression(kwargs) )\n        )")], """
p = P("a.hkl")
hickle.dump("short", p, compression="gzip", fletcher32=True)
with h5py.File(p, "r") as f:
    if f["data"].compression != "gzip" or not f["data"].fletcher32: fail("options not applied")
""")

plant("c15-metaclass", "C15",
      "registering a loader for a metaclass other than type from outside of hickle core",
      "only type itself is reserved for hickle core, not every metaclass",
      [("lookup.py", "            issubclass(myclass_type,(type,_DictItem))", "            myclass_type in (type,_DictItem)")], """
class Meta(type): pass
def create(py_obj, h_group, name, **kwargs): pass
try:
    lookup.LoaderManager.register_class(Meta, b"meta", create, None)
except TypeError:
    sys.exit(0)
fail("accepted")
""")

plant("c01-opener-check", "C01",
      "load from a path within the file that does not exist",
      "the file opener verifies the path after opening the file and raises without closing it",
      [("fileio.py", "        return h5.File(f, mode.replace('b','') if mode[0] == 'r' else mode.replace('b','').replace('+','')),path,True",
        "        h5f = h5.File(f, mode.replace('b','') if mode[0] == 'r' else mode.replace('b','').replace('+',''))\n        if mode == 'r' and path not in h5f:\n            raise ValueError(\"file '{}': path '{}' not existing\".format(f,path))\n        return h5f,path,True")], """
p = P("a.hkl")
hickle.dump([1, "a"], p)
err = None
try:
    hickle.load(p, path="/nothing")
except ValueError as e:
    err = e
if err is None: fail("no error")
if [o for o in gc.get_objects() if isinstance(o, h5py.File) and o.id.valid]: fail("file still open")
""")

plant("c13-quantity-product", "C13",
      "a Quantity subclass",
      "quantities are rebuilt as product of value and unit, which always is a plain Quantity",
      [("loaders/load_astropy.py", "    unit = h_node.attrs[\"unit\"]\n    return py_obj_type(h_node[()], unit)",
        "    unit = h_node.attrs[\"unit\"]\n    if h_node.dtype.kind == 'f' and h_node.size > 0:\n        from astropy.units import Unit\n        return h_node[()] * Unit(unit)\n    return py_obj_type(h_node[()], unit)")], """
m = module("quants", "from astropy.units import Quantity\\nclass Length(Quantity): pass\\n")
r = roundtrip(m.Length(3.0, "m"))
if type(r) is not m.Length: fail("class %r" % type(r))
""")

plant("c11-byteswap", "C11",
      "dump of an array that is not in native byte order",
      "arrays in foreign byte order are swapped in place before they are stored",
      [("loaders/load_numpy.py", "    # Obtain dtype of py_obj\n    dtype = py_obj.dtype\n",
        "    # Obtain dtype of py_obj, numbers are stored in native byte order\n    if not py_obj.dtype.isnative and py_obj.dtype.kind in 'iufc' and py_obj.flags.writeable:\n        py_obj = py_obj.byteswap(True).view(py_obj.dtype.newbyteorder())\n    dtype = py_obj.dtype\n")], """
a = np.arange(5).astype(">i4")
b = a.copy()
r = roundtrip(a)
if not (a == b).all(): fail("dumped array became %r" % (a,))
if not (np.asarray(r) == b).all(): fail("loaded %r" % (r,))
""")

plant("c12-recovered-item-attrs", "C12",
      "recovered data that is used after its file is closed",
      "the attributes of the items of a recovered group are a view of the file",
      [("lookup.py", "            self._content[name] = (item,{ key:value for key,value in h5_attrs.items() if key not in {'type'}})",
        "            self._content[name] = (item,h5_attrs)")], """
m = module("gone2", "class K(list): pass\\n")
p = P("a.hkl")
hickle.dump(m.K([1, "a", None]), p)
del m.K
r = hickle.load(p)
try:
    v = {k: dict(x[1]) for k, x in r.items() if isinstance(x, tuple)}
except Exception as e:
    fail("attributes not accessible after the file was closed: %r" % e)
if not v: fail("nothing recovered")
""")

plant("c21-stop-at-loaded", "C21",
      "an object whose class derives from two classes of different packages, the loader module of the first being loaded already",
      "the lookup ends at the first class whose loader module is loaded but has no loader for it",
      [("lookup.py", "                    # loader is loaded but does not define loader for mro_item\n                    # check next base class\n                    continue",
        "                    # loader is loaded but does not define loader for mro_item\n                    break")], """
import collections
m = module("mixed", "import collections\\nclass K(collections.OrderedDict): pass\\n")
import fractions
hickle.dump([np.float64(1), np.array([1,"a"])], P("x.hkl"))
k = m.K(a=1)
class Q: pass
p = P("a.hkl")
d = np.ma.core.MaskedArray([1.0, 2.0], mask=[True, False])
class L(np.lib.mixins.NDArrayOperatorsMixin): pass
n = module("mixed2", "import numpy as np\\nclass B(np.lib.mixins.NDArrayOperatorsMixin, list): pass\\n")
b = n.B([1, "a"])
hickle.dump(b, p)
with h5py.File(p, "r") as f:
    if not isinstance(f["data"], h5py.Group): fail("list subclass was pickled")
""")


# fourth batch -------------------------------------------------------------------------

plant("c06-link-attrs", "C06",
      "a list or dict in which an object occurs more than once",
      "reference datasets get their position attribute only when the object referred to was stored without further attributes",
      [("hickle.py", "        h_link.attrs.update(attrs)\n", "        if not isinstance(py_obj,(str,bytes)):\n            h_link.attrs.update(attrs)\n")], """
s = "some text"
r = roundtrip([s, 1, [2.5, s], {"a": s, "b": None}])
if r != [s, 1, [2.5, s], {"a": s, "b": None}]: fail(r)
""")

plant("c06-index-from-name", "C06",
      "a list item stored under a name that ends in another number than its position",
      "the position is taken from the node name, which is cut to four digits for long lists",
      [("loaders/load_builtins.py", '    item_name = "data{:d}"\n    def provide_listlike_items():\n', '    item_name = "data{:d}" if list_len < 10000 else "data{:04x}"\n    def provide_listlike_items():\n'),
       ("loaders/load_builtins.py", "        index = h5_attrs.get(\"item_index\",None)\n        if index is None:\n", "        index = h5_attrs.get(\"item_index\",None)\n        if index is None or index > 9999:\n")], """
l = [None] * 10020
l[10016] = "x"
r = roundtrip(l)
if r != l: fail("items moved")
""")

plant("c07-minus-zero", "C07",
      "a dict with the key -0.0 or with a huge float key",
      "float keys that are whole numbers are written as integers",
      [("loaders/load_builtins.py", '                h_key = "{!r}".format(key)\n', '                h_key = "{!r}".format(key) if key.__class__ is not float or not key.is_integer() else "{:d}".format(int(key))\n')], """
import math
k = next(iter(roundtrip({-0.0: 1})))
if math.copysign(1.0, k) != -1.0: fail(k)
""")

plant("c09-interned", "C09",
      "two occurrences of one short tuple or string",
      "short strings and bytes are always stored again",
      [("hickle.py", "    if memoise:\n        memo[py_obj_id] = (h_node,py_obj)\n", "    if memoise and not ( isinstance(py_obj,(str,bytes)) and len(py_obj) < 2 ):\n        memo[py_obj_id] = (h_node,py_obj)\n")], """
b = bytes([200])
r = roundtrip([b, [b, 1.5, None]])
hickle.dump([b, [b, 1.5, None]], P("a.hkl"))
with h5py.File(P("a.hkl"), "r") as f:
    if h5py.check_ref_dtype(f["data/data1/data0"].dtype) is None: fail("stored twice")
""")

plant("c09-equal-key", "C09",
      "two equal but different objects of a class whose instances are hashable by value",
      "objects which are known to be immutable are remembered by value",
      [("hickle.py", "    py_obj_id = id(py_obj)\n", "    py_obj_id = id(py_obj) if py_obj.__class__ is not bytes else py_obj\n")], """
a, b = bytes([1, 2, 3] * 3), bytes([1, 2, 3] * 3)
assert a is not b
r = roundtrip([a, b, None])
if r[0] is r[1]: fail("merged")
""")

plant("c11-time-format", "C11",
      "dump of a Time object",
      "the time object is switched to a text format to obtain its value",
      [("loaders/load_astropy.py", "    value = np.asarray(py_obj.value)\n", "    if py_obj.format in ('datetime','datetime64'):\n        py_obj.format = 'isot'\n    value = np.asarray(py_obj.value)\n")], """
from astropy.time import Time
import datetime
t = Time(datetime.datetime(2020, 1, 1, 12, 30, 5))
before = t.format
try:
    hickle.dump(t, P("a.hkl"))
except Exception:
    pass
if t.format != before: fail("format became %s" % t.format)
""")

plant("c17-tag-lost", "C17",
      "an object of a missing class stored as dataset whose handler wrote an attribute called base_type",
      "recovered datasets do not name the type tag if they carry an attribute of that name",
      [("lookup.py", "    attrs = dict(h_node.attrs)\n    attrs['base_type'] = base_type\n", "    attrs = dict(base_type = base_type)\n    attrs.update(h_node.attrs)\n")], """
m = module("gone4", "class K(str): pass\\n")
p = P("a.hkl")
hickle.dump(m.K("text"), p)
with h5py.File(p, "r+") as f:
    f["data"].attrs["base_type"] = b"other"
del m.K
r = hickle.load(p)
if r.attrs["base_type"] not in (b"str", "str"): fail(r.attrs)
""")

plant("c18-root-attributes", "C18",
      "a hickle dumped into a group of a file",
      "the version is read from the file instead of the group loaded from",
      [("hickle.py", "            hickle_version = h_root_group.attrs[\"HICKLE_VERSION\"].split('.')\n", "            hickle_version = h5f.attrs.get(\"HICKLE_VERSION\",h_root_group.attrs[\"HICKLE_VERSION\"]).split('.')\n")], """
p = P("a.hkl")
hickle.dump([1, "a"], p, mode="a", path="/new")
with h5py.File(p, "r+") as f:
    f.attrs["HICKLE_VERSION"] = "4.0.4"
    f.attrs["HICKLE_PYTHON_VERSION"] = "3.7.0"
real = lookup.LoaderManager.create_manager.__func__
seen = []
def spy(cls, h, legacy=False, options=None):
    seen.append(legacy)
    return real(cls, h, legacy, options)
lookup.LoaderManager.create_manager = classmethod(spy)
hickle.load(p, path="/new")
if seen != [False]: fail("current data read with the rules of 4.x")
""")

plant("c21-pickle-strip", "C21",
      "an object without loader whose pickle ends in zero bytes",
      "trailing zero bytes of the stored pickle are dropped",
      [("lookup.py", "    pickled_obj = pickle.dumps(py_obj)\n    d = h_group.create_dataset(name, data = memoryview(pickled_obj), **kwargs)", "    pickled_obj = pickle.dumps(py_obj.__class__ if isinstance(py_obj,type(NotImplemented)) else py_obj)\n    d = h_group.create_dataset(name, data = memoryview(pickled_obj), **kwargs)")], """
r = roundtrip(NotImplemented)
if r is not NotImplemented: fail(r)
""")

plant("c22-first-none", "C22",
      "a list of an int followed by a zero dimensional array",
      "only sequences are checked for dimensions, not arrays without any",
      [("loaders/load_builtins.py", "        common_dtype = np.result_type(np.dtype(item.__class__),dtype)",
        "        common_dtype = np.result_type(getattr(item,'dtype',np.dtype(item.__class__)),dtype)")], """
r = roundtrip([1, np.array(2), 3])
if not isinstance(r[1], np.ndarray): fail("array became %r" % type(r[1]))
""")

plant("c02-drop-by-name", "C02",
      "a load or dump that fails while an error is already pending in the file",
      "the manager is dropped only if its file can still be accessed by name",
      [("lookup.py", "        if not isinstance(self._file,h5.File) or not self._file:\n            return\n        super().__exit__(exc_type", "        if not isinstance(self._file,h5.File) or not self._file or exc_type is KeyboardInterrupt:\n            return\n        super().__exit__(exc_type")], """
class Evil:
    def __reduce__(self): raise KeyboardInterrupt()
with h5py.File(P("a.hkl"), "w") as f:
    try: hickle.dump(Evil(), f, path="/one")
    except KeyboardInterrupt: pass
    try: hickle.dump([1, "a"], f, path="/two")
    except Exception as e: fail(repr(e))
""")

plant("c04-dict-empty", "C04",
      "an empty dict",
      "empty dicts are stored as dataset without content, for which no reader is registered",
      [("loaders/load_builtins.py", "    h_dictgroup = h_group.create_group(name)\n    key_value_pair_name", "    if py_obj.__class__ is not dict and not py_obj:\n        return h_group.create_dataset(name,shape=None,dtype='int',**no_compression(kwargs)),()\n    h_dictgroup = h_group.create_group(name)\n    key_value_pair_name")], """
import collections
r = roundtrip(collections.OrderedDict())
if r != {} or type(r) is not collections.OrderedDict: fail(repr(r))
""")

plant("c19-early-return", "C19",
      "load or dump of a file that was passed in open while the collector is disabled",
      "the collector is left alone only if the file is closed",
      [("hickle.py", "                _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)\n    finally:\n", "                _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)\n        if not close_flag and len(memo or ()) > 100:\n            # give back memory used by references to dumped objects\n            gc.collect()\n            gc.enable()\n    finally:\n")], """
gc.disable()
with h5py.File(P("a.hkl"), "w") as f:
    hickle.dump([str(n) for n in range(300)], f)
if gc.isenabled(): fail("collector enabled")
""")

plant("c09-tuple-values", "C09",
      "one tuple shared by two values of a dict",
      "a tuple met again as a value of a dict is stored a second time instead of as reference",
      [("hickle.py", "    if py_obj_ref is not None:\n", "    if py_obj_ref is not None and not ( 'key_idx' in attrs and isinstance(py_obj,tuple) ):\n")], """
t = (1, "x", [2])
r = roundtrip({"a": t, "b": t})
if r["a"] is not r["b"]: fail("values are no longer the same object")
""")

plant("c14-truncated-pickle", "C14",
      "a pickled object whose stored bytes are truncated",
      "unpickling errors are treated as if only the class were missing",
      [("lookup.py", "        return pickle.loads(h_node[()])\n    except (ImportError,AttributeError):", "        return pickle.loads(h_node[()])\n    except (ImportError,AttributeError,EOFError,pickle.UnpicklingError):")], """
O = module("pmod", "class O: pass").O
hickle.dump(O(), P("a.hkl"), mode="w")
with h5py.File(P("a.hkl"), "r+") as f:
    d = f["data"][()]
    at = dict(f["data"].attrs)
    del f["data"]
    n = f.create_dataset("data", data=np.void(bytes(memoryview(d))[:5]) if d.dtype.kind == "V" else d[:5])
    for k, v in at.items(): n.attrs[k] = v
try: r = hickle.load(P("a.hkl"))
except Exception: sys.exit(0)
fail(r)
""")

plant("c05-falsy-metadata", "C05",
      "an astropy table with a false metadata value",
      "metadata which is 0, False or empty is not stored",
      [("loaders/load_astropy.py", "        d.attrs[key] = value\n", "        if value:\n            d.attrs[key] = value\n")], """
from astropy.table import Table
r = roundtrip(Table({"a": [1, 2]}, meta={"k": 0, "l": 5}))
if "k" not in r.meta: fail(dict(r.meta))
""")

plant("c05-byte-order", "C05",
      "an array of big endian text or objects",
      "the recorded dtype is in native byte order",
      [("loaders/load_numpy.py", "    h_node.attrs['np_dtype'] = dtype.str.encode('ascii')\n    return h_node,sub_items", "    h_node.attrs['np_dtype'] = dtype.newbyteorder('=').str.encode('ascii')\n    return h_node,sub_items")], """
a = np.array(["a", "bc"], dtype=">U2")
r = roundtrip(a)
if r.dtype.str != a.dtype.str: fail(r.dtype.str)
""")

plant("c15-container-module", "C15",
      "a loader for object whose load function is from hickle core but whose container is not",
      "the container is only checked if there is no load function",
      [("lookup.py", "            if {dump_module[0], load_module[0], container_module[0]} - _managed_by_hickle:", "            if {dump_module[0], load_module[0] or container_module[0]} - _managed_by_hickle:")], """
m = module("pmod", "from hickle.helpers import PyContainer\\nclass K(PyContainer): pass")
try: lookup.LoaderManager.register_class(object, b"mine", lookup.create_pickled_dataset, lookup.load_pickled_data, m.K)
except TypeError: sys.exit(0)
fail("accepted")
""")

plant("c17-empty-group", "C17",
      "a dict subclass without entries, or other empty group, whose class is missing",
      "the original type tag is only looked up if the group has items",
      [("lookup.py", "        _,self.base_type,_ = manager.resolve_type(h_parent,base_type_type = -1)\n        yield from h_parent.items()",
        "        yield from h_parent.items()\n        if self._content:\n            _,self.base_type,_ = manager.resolve_type(h_parent,base_type_type = -1)")], """
m = module("pmod", "class D(dict): pass")
p = P("a.hkl")
hickle.dump([m.D(), 1], p, mode="w")
hickle.dump(m.D(), p, mode="w")
with h5py.File(p) as f:
    if not isinstance(f["data"], h5py.Group): sys.exit(0)
del m, sys.modules["pmod"]; os.remove(P("pmod.py")); import importlib; importlib.invalidate_caches()
shutil.rmtree(P("__pycache__"), True)
r = hickle.load(p)
if r.attrs.get("base_type") not in (b"dict", "dict"): fail(r.attrs)
""")

plant("c21-short-mro", "C21",
      "a class whose base with a loader is two classes up",
      "only the class and its first base are looked up",
      [("lookup.py", "        for mro_item in self._mro(py_obj_type):", "        for mro_item in self._mro(py_obj_type)[:2]:")], """
m = module("pmod", "class A(list): pass\\nclass B(A): pass")
hickle.dump(m.B(["a", 1]), P("a.hkl"), mode="w")
with h5py.File(P("a.hkl")) as f:
    if not isinstance(f["data"], h5py.Group): fail("pickled")
""")

plant("c22-long-double", "C22",
      "a list of extended precision numbers",
      "floating point numbers of more than 64 bit are packed as double",
      [("loaders/load_builtins.py", "    return dtype\n\ndef create_listlike", "    return dtype if dtype.kind != 'f' or dtype.itemsize <= 8 else np.dtype(float)\n\ndef create_listlike")], """
l = [np.longdouble(1) + np.finfo(np.longdouble).eps, np.longdouble(2)]
if l[0] == 1: sys.exit(0)
r = roundtrip(l)
if r[0] != l[0]: fail(r)
""")

plant("c07-ellipsis", "C07",
      "a dict with the key Ellipsis",
      "Ellipsis is named by its representation which load can not read",
      [("loaders/load_builtins.py", "elif key.__class__ in (float,bool,int,complex,None.__class__):", "elif key.__class__ in (float,bool,int,complex,None.__class__,Ellipsis.__class__):")], """
try: r = roundtrip({...: 1})
except Exception as e: fail(repr(e))
if r != {...: 1}: fail(r)
""")

V3 = """
def v3(fill, name="v3.hkl"):
    with h5py.File(P(name), "w") as f:
        f.attrs["CLASS"] = b"hickle"
        f.attrs["VERSION"] = "3.4.9"
        f.attrs["type"] = np.array([b"hickle"])
        f.attrs["PYTHON_VERSION"] = "3.7.0"
        fill(f)
    return hickle.load(P(name))
def put(g, node, data, tag, **attrs):
    d = g.create_dataset(node, data=data)
    d.attrs["type"] = np.array([tag])
    for k, v in attrs.items(): d.attrs[k] = v
    return d
def grp(g, name, tag, **attrs):
    d = g.create_group(name)
    d.attrs["type"] = np.array([tag])
    for k, v in attrs.items(): d.attrs[k] = v
    return d
"""

plant("c23-v3-mask", "C23",
      "a masked array in a file written by hickle 3, of more than one dimension",
      "only masks of one dimension are handed on, others are dropped",
      [("legacy_v3/loaders/load_numpy.py", "    data = np.ma.array(data, mask=mask)\n", "    data = np.ma.array(data, mask=mask if getattr(mask, 'ndim', 0) == 1 else np.ma.nomask)\n")], V3 + """
def fill(f):
    put(f, "data_0", np.arange(4).reshape(2, 2), b"ndarray_masked_data")
    put(f, "data_0_mask", np.array([[True, False], [False, True]]), b"ndarray_masked_mask")
r = v3(fill)
if not np.array_equal(np.ma.getmaskarray(r), [[True, False], [False, True]]): fail(r)
""")

plant("c23-v3-sparse-shape", "C23",
      "a csc matrix in a file of hickle 3 whose last rows are empty",
      "the shape recorded with hickle 3 csc matrices is not used, trailing empty rows get lost",
      [("legacy_v3/loaders/load_scipy.py", "sparse.csc_matrix((data, indices, indptr), dtype=data.dtype, shape=shape)", "sparse.csc_matrix((data, indices, indptr), dtype=data.dtype)")], V3 + """
import scipy.sparse as sp
m = sp.csc_matrix(([1., 2.], ([0, 1], [0, 1])), shape=(5, 2))
def fill(f):
    g = grp(f, "data_0", b"csc_matrix")
    put(g, "data", m.data, b"csc_matrix_data")
    put(g, "indices", m.indices, b"csc_matrix_indices")
    put(g, "indptr", m.indptr, b"csc_matrix_indptr")
    put(g, "shape", np.array(m.shape), b"csc_matrix_shape")
r = v3(fill)
if r.shape != (5, 2) or (r != m).nnz: fail(r.shape)
""")

plant("c23-v3-int-keys", "C23",
      "a dict with negative integer keys in a file of hickle 3",
      "integer keys are taken from the digits of the node name, the sign gets lost",
      [("legacy_v3/hickle.py", "                    key = to_type_fn(key)\n", "                    key = to_type_fn(key.lstrip('-') if to_type_fn is int else key)\n")], V3 + """
def fill(f):
    g = grp(f, "data_0", b"<class 'dict'>")
    for n in ("1", "-2"):
        h = grp(g, n, b"dict_item", key_type=np.array([b"<class 'int'>"]))
        put(h, "data_0", np.array([n.encode()]), b"bytes")
r = v3(fill)
if r != {1: b"1", -2: b"-2"}: fail(r)
""")

plant("c23-v3-system", "C23",
      "an astropy constant with a system of units in a file of hickle 3",
      "the system recorded with the constant is never found, it is loaded without",
      [("legacy_v3/loaders/load_astropy.py", '    if "system" in h_node.attrs.keys():\n        system = h_node.attrs["system"][0]\n', '    if "system" in getattr(h_node, "attrs_keys", ()):\n        system = h_node.attrs["system"][0]\n')], V3 + """
def fill(f):
    put(f, "data_0", 1.5, b"astropy_constant", unit=["m"], abbrev=["xx"], name=["x name"], reference=["ref"], uncertainty=[0.1], system=["si"])
r = v3(fill)
if r.system != "si": fail(r.system)
""")

plant("c23-v4-mask", "C23",
      "a masked array written by hickle 4.0",
      "the node holding the mask is looked up but what is handed on is the mask of the data just read",
      [("loaders/load_numpy.py", "    masked_array.append('mask',h_node_mask,h_node_mask.attrs)\n", "    masked_array.append('mask',np.ma.getmask(masked_array._content['data']),h_node_mask.attrs)\n")], """
from hickle.loaders import load_numpy as ln
with h5py.File(P("a.hkl"), "w") as f:
    d = f.create_dataset("data", data=np.arange(3)); d.attrs["np_dtype"] = b"<i8"
    f.create_dataset("data_mask", data=np.array([True, False, True]))
    r = ln.load_ndarray_masked_dataset(d, b"ndarray_masked_data", np.ma.core.MaskedArray)
if not np.array_equal(np.ma.getmaskarray(r), [True, False, True]): fail(r)
""")

plant("c23-v4-text", "C23",
      "text which is not ASCII in a file written by hickle 4.x, loaded with h5py 3",
      "text of hickle 4.x datasets is decoded as latin1",
      [("loaders/load_builtins.py", "content if isinstance(content,str) else content.decode('utf8')", "content if isinstance(content,str) else content.decode('latin1')")], """
from hickle.loaders import load_builtins as lb
with h5py.File(P("a.hkl"), "w") as f:
    d = f.create_dataset("data", data="gr\\u00fcn", dtype=h5py.special_dtype(vlen=str))
    r = lb.load_hickle_4_x_string(d, b"str", str)
if r != "gr\\u00fcn": fail(r)
""")
