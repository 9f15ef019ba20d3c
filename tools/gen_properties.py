"""Writes properties.jsonl (kept as code only for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

H='hickle/hickle.py'; F='hickle/fileio.py'; L='hickle/lookup.py'; HE='hickle/helpers.py'
B='hickle/loaders/load_builtins.py'; N='hickle/loaders/load_numpy.py'; SC='hickle/loaders/load_scipy.py'; A='hickle/loaders/load_astropy.py'
V3='hickle/legacy_v3/hickle.py'; V3L='hickle/legacy_v3/lookup.py'

prop('C01','Files are closed by exactly the party that opened them',
 "Every HDF5 file that dump or load opens from a path, a file object or a file-like object is closed again before the call ends, whether it returns or raises and whichever step raised. A file or group that the caller passed in already open is never closed by hickle.",
 ['inputs','fault_sequences'],'every kind of file argument and every step of the call (including flushing and closing) that may raise any exception',
 'Tests raise at a handful of steps; the guarantee is about every exit of the call, including exceptions injected by HDF5, loaders, user classes or Ctrl-C.',
 [H,F,V3],[('dump / load try-finally around the opened file',H+':dump, load'),('ownership flag returned with the handle',F+':file_opener'),('legacy reader opens its own handle',V3+':load, file_opener')])

prop('C02','No per-file bookkeeping outlives a dump or load call',
 "When a dump or load call ends, by returning or by any exception, hickle no longer holds any manager registered for the file involved. The same open file can therefore be dumped to or loaded from again at once, for current and for 4.x files alike.",
 ['histories','fault_sequences'],'every sequence of calls on one open file, every file generation, every step that may raise',
 'A leaked registration only shows in a later call on the same open file after a specific exit; tests sample a few sequences.',
 [L,H],[('registry of managers keyed by file id',L+':BaseManager.create_manager, _drop_manager'),('context-manager exits that drop the registration',L+':ReferenceManager.__exit__, LoaderManager.__exit__'),('with-blocks in dump and load',H+':dump, load')])

prop('C03','Loading never modifies the file',
 "load opens paths and file objects read-only, and no step of loading creates, changes or deletes a group, dataset or attribute of the file being read, for any stored type and file generation, even if the caller opened that file for writing.",
 ['inputs','configurations'],'every stored object, every registered reader, every file generation and every way of passing the file',
 'Tests compare loaded values, not the file; a write on one reader branch goes unnoticed unless exactly that branch is sampled and the file is diffed.',
 [H,F,L,HE,B,N,SC,A],[('open mode of load',H+':load'),('overlay for a missing type table',L+':ReferenceManager.__init__'),('attribute overlay proxy',HE+':H5NodeFilterProxy')])

prop('C04','Everything a built-in handler can write has a matching reader',
 "For every built-in type, whatever kind of node its writer emits on any branch (group, dataset, or dataset without content), a reader for that kind of node is registered under the type tag that gets recorded, and it does not try to read content from an empty dataset. No two registrations give one tag different readers, a tag that is written is never on the exclusion list, and each type is registered in the loader module hickle looks up for that type's package.",
 ['inputs','programs'],'every registered type, every branch of its writer',
 'Which node kind is emitted depends on data (emptiness, dtype, dimension); tests sample some combinations of type and branch only.',
 [B,N,SC,A,L],[('register tables',B+', '+N+', '+SC+', '+A+':class_register, exclude_register'),('registration',L+':LoaderManager.register_class, load_loader')])

prop('C05','Readers rebuild numpy, scipy and astropy objects from matching fields',
 "For every numpy, scipy.sparse and astropy type that hickle stores natively, each constituent the loaded object is built from (values, dtype, mask, unit, time format and scale, constant name, abbreviation, value, uncertainty, reference and system, longitude and latitude with their units, column names, metadata, sparse data, indices, indptr and shape) is the one recorded from the same constituent of the dumped object. None is dropped, swapped with another, or stored with less than its own or double precision, complex values keep their imaginary part; objects with constituents the format has no place for (masked tables and times, tables with column units, coordinates with another frame, distance or velocity, dtypes with fields, numpy's masked constant) are not stored natively but pickled.",
 ['inputs'],'every object of the supported types, every branch of writer and reader',
 'Swapped or dropped fields coincide on symmetric or default-valued test objects (equal units, default scale, square shapes).',
 [N,SC,A],[('writers',N+', '+SC+', '+A+':create_* functions'),('readers',N+', '+SC+', '+A+':load_* functions and containers')])

prop('C06','Items of lists, tuples and dicts keep their position',
 "Every item of a list or tuple and every entry of a dict is stored once, under a name unique within its parent and with its own position recorded, and is put back at exactly that position on load, however many items there are, in whatever order HDF5 lists them, and also when the item is stored as a reference to an object stored elsewhere.",
 ['inputs'],'all sequences and mappings of any length and item type',
 'HDF5 lists children by name, so order bugs appear only beyond ten items, for particular names, or for shared items.',
 [B,H],[('position attributes',B+':create_listlike_dataset, create_dictlike_dataset'),('placing by position',B+':ListLikeContainer.append, DictLikeContainer.append'),('attributes of references',H+':_dump')])

prop('C07','Dict keys come back equal and with the same type',
 "Every text, bytes, int, float, complex, bool and None key of a dict is restored with the value and type it had, from the node name it was encoded in. Any other key, any key of a subclass of those types and any text or bytes key that a node name cannot hold (slash, NUL, undecodable bytes) is stored as a key/value pair and restored as the first item of that pair. Different keys of one dict never share a node name.",
 ['inputs'],'all hashable keys and all combinations of keys in one dict',
 'The space of key texts and types is unbounded and the failing ones (separators, quotes, look-alike keys of another type, subclasses) are rare.',
 [B],[('key encoding',B+':create_dictlike_dataset'),('key decoding',B+':DictLikeContainer.append, dict_key_types_dict')])

prop('C08','Storage options reach all payload data and never break scalars',
 "The dataset options given to dump (compression, chunks, ...) are applied to the dataset of every list, tuple, set, str, bytes, pickled object, numeric numpy array, SkyCoord and Table, and are passed on unchanged to every item nested inside a container. They are withheld from datasets without dimensions or content (scalars, None, empty containers), which HDF5 refuses to filter.",
 ['inputs','configurations'],'every option set, every object and nesting',
 'The failing combination needs a filter option together with one specific type at some depth.',
 [B,N,SC,A,H,HE],[('option filter',HE+':no_compression'),('option hand-over',H+':dump, _dump'),('writers',B+', '+N+', '+SC+', '+A+':create_*')])

prop('C09','Shared objects are stored once and stay shared',
 "An object of a registered non-scalar type, or a pickled object, that occurs several times inside the dumped structure is stored once, later occurrences being references, and after load all occurrences are one and the same object. Two objects that are different while being dumped are never merged, even if one of them existed only temporarily.",
 ['inputs','histories'],'all object graphs with sharing (cycles excluded) and all allocation histories',
 'Wrong merging needs memory addresses to be reused during the dump; lost sharing needs particular types or nesting orders.',
 [H,L,B,N,SC,A],[('dump memo',H+':_dump'),('load memo',H+':_load'),('reference expansion',L+':ExpandReferenceContainer'),('memoise flags',B+', '+N+', '+SC+', '+A+':class_register')])

prop('C10','Dump never overwrites data it was not asked to overwrite',
 "If the target group already has content, dump raises before it changes anything in the file, and it refuses an already open file that is read-only. A file given by path or file object is opened with exactly the requested mode (w, x, a, r+, each with optional b or +), so nothing is truncated unless w was requested, and dump never deletes or replaces existing nodes.",
 ['inputs','configurations'],'every documented mode string, every kind of file argument, every prior content of the file',
 'Modes times argument kinds times prior content; tests cover a few cells, and data loss happens in the others.',
 [H,F],[('target check',H+':dump'),('mode handling',F+':file_opener')])

prop('C11','Dump leaves the dumped object and the options untouched',
 "dump never modifies the object it stores, anything reachable from it, or the options dictionary of the caller, and default arguments never accumulate state from one call to the next.",
 ['inputs','histories'],'every object of every supported type and every option dictionary',
 'Tests dump objects and compare what is loaded; in-place changes to the original or to shared defaults show only for particular dtypes, layouts or call sequences.',
 [H,L,B,N,SC,A],[('writers',B+', '+N+', '+SC+', '+A+':create_*'),('recursion',H+':_dump'),('option handling',L+':LoaderManager.__init__')])

prop('C12','Loaded objects do not depend on the file any more',
 "No object returned by load holds a dataset, group, attribute collection or lazy iterator of the HDF5 file: all content and all attributes are copied into memory by the readers, so results stay valid after the file is closed or changed.",
 ['inputs'],'every stored type and every reader branch',
 'A lazily held handle behaves correctly as long as the file stays open, which it does in most tests.',
 [H,L,B,N,SC,A],[('dataset readers',B+', '+N+', '+A+':load_*'),('containers',B+', '+N+', '+SC+', '+L+':*Container.convert')])

prop('C13','Loaded objects have the type they were dumped with',
 "dump records the exact class of every natively stored object, and every reader of list, tuple, set, dict, str, bytes, int, float, complex, bool, matrix, masked array, sparse matrix and astropy objects returns an instance built with the recorded class, or returns a value directly only when its class is the recorded one. Subclasses are thus restored as that subclass, dict subclasses from a mapping of their items (only the items of purely numeric sequences, which are stored packed, ndarray subclasses other than these, and subclasses whose constructor does not take the content as that of the base class does are not covered).",
 ['inputs','programs'],'every object of a supported type or user-defined subclass of it',
 'User-defined subclasses are unbounded; tests try a few, on few reader branches (empty, nested, scalar).',
 [H,L,B,N,SC,A],[('type recording',L+':ReferenceManager.store_type, LoaderManager.load_loader'),('conversion',B+', '+N+', '+SC+', '+A+':load_*, *Container.convert')])

prop('C14','Failures always surface to the caller',
 "If any step of writing raises, dump raises; it never returns normally with a partial file. If any step of reading raises, load raises ValueError with the original error as its cause, and load never returns without having loaded the object: a missing node, an unusable reference or an item which has no place in the loaded object is an error too.",
 ['inputs','fault_sequences'],'every step of dump and load at which HDF5, pickle, a loader or a user class may raise',
 'Each step would need its own injected fault; a swallowed error looks like success to tests that do not inject it.',
 [H,L,F,B,N,SC,A],[('error wrapping',H+':load'),('context-manager exits do not suppress',L+':ReferenceManager.__exit__, LoaderManager.__exit__'),('narrow handlers',H+':_dump')])

prop('C15','Core loaders cannot be shadowed or disabled',
 "Registering a loader for, or excluding, the type tags hickle itself depends on ('pickle', '!node-reference!', '!recover!' and any other globally registered tag enclosed in exclamation marks; for exclusion 'dict_item' and every tag enclosed in exclamation marks) raises ValueError and leaves all tables unchanged, under every option. Loaders for object, functions, methods and metaclasses are accepted from hickle core only.",
 ['inputs','programs'],'every registration or exclusion any loader module may attempt',
 'Third-party loaders are unbounded; tests attempt a few registrations.',
 [L],[('guards',L+':LoaderManager.register_class, register_class_exclude'),('protected tags',L+':disallowed_to_ignore, disallow_in_option')])

prop('C16','Loader options are recorded in the file and stay local to it',
 "Every optional loader set enabled for a dump is recorded on the target group and is the one enabled again by load; an option set to a false value is neither enabled nor recorded, nor enabled by load if recorded as such, and an unknown option is an error. Enabling options for one file never changes which loaders are used for other files.",
 ['histories','configurations'],'every options dictionary and every sequence of dumps and loads',
 'Leaks into global tables show only in later calls on other files; tests reset or never combine them.',
 [L,H,'hickle/loaders/__init__.py'],[('option handling',L+':LoaderManager.__init__'),('options passed through',H+':dump, load')])

prop('C17','Missing classes degrade to recovered data, not to failure',
 "If the class of a stored object cannot be imported or found on load (ImportError or AttributeError, wherever the class is unpickled), or no reader is registered for its type tag, load still succeeds and returns the raw content with its attributes as recovered data that names the original type tag (objects stored as a plain pickle have none). Recovered data can take the place of a dict key or set item. This holds for groups and datasets, for files opened read-only or for writing, and for current and 4.x files.",
 ['inputs','configurations'],'every stored object whose class is unavailable, every file generation and open mode',
 'Needs environments lacking modules that existed on dump, in all combinations of node kind, file generation and open mode.',
 [L,H],[('type resolution',L+':ReferenceManager.resolve_type, ReferenceManager.__init__'),('pickled data',L+':load_pickled_data'),('recover loaders',L+':recover_custom_dataset, RecoverGroupContainer'),('fallback readers',H+':_load')])

prop('C18','Each file generation is read with its own rules',
 "Files written by hickle 3 go to the legacy reader whatever way the file was passed, files written by 4.x are read with the 4.x loader set and its lambda workaround, newer files with neither, and anything else is rejected. Everything dump writes identifies itself so that load takes the current route, every type tag the v3 writer emitted is still known to the v3 reader, and the v3 reader restores the items of sequences in the order of their numbers.",
 ['inputs','configurations'],'every file of any hickle generation, every way of passing the file',
 'Only a few archived legacy files exist; combinations with file objects, groups and types not in those files are untested.',
 [H,L,V3,V3L],[('version dispatch',H+':load'),('version stamps',H+':dump'),('v3 tables',V3L+' and hickle/legacy_v3/loaders')])

prop('C19','The garbage collector state is left as found',
 "dump and load leave Python's cyclic garbage collector enabled or disabled exactly as it was when they were called, on every exit including errors while flushing or closing the file.",
 ['configurations','fault_sequences'],'both initial states and every exit of dump and load',
 'Tests run with the collector enabled and do not make closing fail.',
 [H],[('collector paused while closing',H+':dump, load')])

prop('C20','Dump writes only beneath the requested path, load reads the same place',
 "Everything dump writes lies at or beneath the path it was given, taken relative to the group passed in if there is one, and load with the same arguments reads exactly there. Each handler creates its node in the group and under the name it was given, and items of a container are stored inside that container's node.",
 ['inputs'],'every path string with or without leading or trailing slash, every group passed, every object',
 'Path spellings times groups times nested types; misplaced nodes go unnoticed while load makes the same mistake.',
 [H,F,B,N,SC,A,L],[('path composition',F+':file_opener'),('root group',H+':dump, load'),('handlers',B+', '+N+', '+SC+', '+A+', '+L+':create_*')])

prop('C21','Objects without a loader fall back to pickling the whole object',
 "An object whose class has no registered loader, or whose loader declines it, is stored as a pickle of that very object under its own name, with a warning, without a type record, and load returns the unpickled object. Items that have a loader are never pickled for lack of a lookup along their class hierarchy.",
 ['inputs','programs'],'all objects of all classes, registered or not, and all loaders that may decline',
 'User classes are unbounded, and declining loaders are third-party code.',
 [L,H],[('lookup',L+':LoaderManager.load_loader'),('pickle writer and reader',L+':create_pickled_dataset, load_pickled_data'),('decline handling',H+':_dump')])

prop('N01','Numeric values and strings round-trip bit for bit',
 "Every number, array and string loaded equals the dumped one bit for bit, including values at the limits of their type.",
 ['inputs'],'all values of all supported types','Unbounded value domain.',
 [B,N],[('value conversion by numpy and h5py',B+', '+N)])
prop('N02','An interrupted dump never leaves a file that loads as wrong data',
 "After the process dies at any point during dump, the file either loads as the complete object or is rejected.",
 ['crash_points'],'all crash points during dump','Needs crash injection into the HDF5 library.',
 [H],[('order of writes within HDF5',H+':dump')])
prop('N03','Concurrent dumps and loads on different files do not interfere',
 "dump and load calls running in different threads on different files behave as if run one after the other.",
 ['schedules'],'all thread interleavings','Unbounded schedules.',
 [L,H],[('process-wide tables',L+':LoaderManager, ReferenceManager')])
prop('N04','Self-referential structures round-trip',
 "A list, dict or object that contains itself is restored with the same cycle.",
 ['inputs'],'all cyclic object graphs','Unbounded graphs.',
 [H],[('dump and load memo',H+':_dump, _load')])
prop('N05','Compression and memoisation keep file size and time within bounds',
 "File size and run time grow at most linearly with the amount of distinct data dumped.",
 ['inputs'],'all objects and option sets','Performance over unbounded inputs.',
 [H],[('recursion',H+':_dump, _load')])

prop('C22','Sequences are packed only if that loses no item',
 "A list, tuple or set is stored as one packed numeric dataset only if every single item is a plain number or bool and all of them fit a common numeric type without being rounded. If any item at any position is text, bytes, None, a container, an array, another object, an integer beyond 64 bits or, next to floating point numbers, beyond their precision, the sequence is stored item by item; a packed dataset has one element per item, in order.",
 ['inputs'],'every list, tuple and set, whatever the types of its items and their order',
 'Tests try a few homogeneous and mixed lists; the failing item may stand at any position and be of any type.',
 [B],[('item type check',B+':check_iterable_item_type'),('packing',B+':create_listlike_dataset, create_setlike_dataset')])

V3='hickle/legacy_v3'
prop('C23','Files of earlier releases are rebuilt from the fields they were stored in',
 "Loading a file written by hickle 3, or text, masked arrays and sparse matrices written by hickle 4.0, returns an object of the kind that was dumped, built from the datasets and attributes the earlier release stored its constituents in: items in order and no others, dictionary values under keys of the original type and value, arrays with their mask, sparse matrices with indices, pointers and shape, quantities with unit, times with format and scale, tables with column names and metadata, text decoded as UTF-8.",
 ['inputs','histories'],'all files hickle 3 and 4.0 wrote, whatever objects they hold and however they are nested',
 'The tests load two old files with a handful of values; old writers are gone, so what they stored cannot be regenerated for other values.',
 [V3+'/hickle.py',V3+'/lookup.py',B,N,SC],[('v3 recursion and containers',V3+'/hickle.py:load, _load, PyContainer.convert'),('v3 tables',V3+'/lookup.py'),('v3 readers',V3+'/loaders/*:load_*'),('4.0 readers',N+':load_ndarray_masked_dataset; '+B+':load_hickle_4_x_string; '+SC+':SparseMatrixContainer')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as fh:
    for p in sorted(P,key=lambda p:p['id']): fh.write(json.dumps(p)+'\n')
print(len(P))
