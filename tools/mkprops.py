import json
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':state,'meaning':'state shared between calls on which the property depends','where':files[-1]}]
    if observe: a['observe_at']=[observe]
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a}
LB='hickle/loaders/load_builtins.py';LN='hickle/loaders/load_numpy.py';LK='hickle/lookup.py';HK='hickle/hickle.py';FI='hickle/fileio.py'
props=[
P('P01','Nested built-in values survive dump and load unchanged',
 'Dumping any acyclic nesting of None, bool, int (of any size), float (including NaN, infinities and signed zero), complex, str, bytes, list, tuple, dict and set and loading it back yields an equal object with the same types, the same item order and, for dicts, the same keys (of any of these hashable types and any text) in the same order. Only numbers inside a number-only list, tuple or set may come back as numpy scalars, and then with exactly the same value and a kind no lower than their own.',
 ['inputs'],'all acyclic trees of the listed types, any length, depth, key or text content',
 'the tests round-trip a fixed set of literals; key text, integer width, number mixtures, item counts above ten and nesting combinations are unbounded',
 [LB,HK],[('numbers stored with a common type','check_iterable_item_type, create_listlike_dataset'),('key to node name mapping','create_dictlike_dataset / DictLikeContainer.append'),('item order','ListLikeContainer.append')],observe='hickle.load result'),
P('P02','Object sharing inside a dumped structure is reproduced on load',
 'If one container, string, bytes, array or other object is reachable through several places of a dumped structure, then the loaded structure reaches one single object through exactly those places (places inside an object which has to be pickled as a whole aside). Distinct mutable objects stay distinct after load, even when they are equal, and the values are unaffected by the sharing, whatever the number of items, nesting order or compression.',
 ['inputs'],'all acyclic object graphs with arbitrary sharing between lists, tuples, dict keys and values, sets, strings, bytes, arrays and pickled objects',
 'the tests contain one or two hand made graphs with a shared object; which node is visited first, how references are resolved and reused is graph dependent',
 [HK,LK],[('memo of dumped objects','_dump'),('reference nodes','ExpandReferenceContainer'),('memo of loaded nodes','_load')],state='ReferenceManager',observe='identity classes of loaded graph'),
P('P03','NumPy arrays, scalars and dtypes survive dump and load exactly',
 'Any numpy scalar, dtype, array (of any shape including empty and zero-dimensional ones, any memory layout, byte order and dtype including strings, bytes, structured, datetime and object), matrix, masked array, record or array of another class derived from numpy.ndarray is loaded with the same type, dtype, shape and content, for masked arrays also the same mask. This holds standalone and nested in built-in containers, with and without compression.',
 ['inputs','configurations'],'all numpy dtypes x shapes x layouts x contents x nesting x compression arguments',
 'tests use a few dtypes and two dimensional or one dimensional arrays of fixed content',
 [LN],[('array to dataset','create_np_array_dataset'),('array restore','load_ndarray_dataset, NDArrayLikeContainer'),('masked arrays','create_np_masked_array_dataset, NDMaskedArrayContainer'),('scalars','create_np_scalar_dataset, load_np_scalar_dataset')],observe='hickle.load result'),
P('P04','SciPy sparse matrices survive dump and load',
 'Any scipy sparse matrix or array of any format, shape (including without any row, column or stored element), dtype and index content, among them duplicate and unsorted entries and explicit zeros, is loaded with the same class, shape, dtype and stored content. This holds standalone, nested in containers, when its component arrays are shared, and with any compression.',
 ['inputs','configurations'],'all formats x shapes x dtypes x sparsity patterns',
 'tests use one small matrix per format',
 ['hickle/loaders/load_scipy.py'],[('component groups','create_sparse_dataset'),('rebuild','SparseMatrixContainer.convert')],observe='hickle.load result'),
P('P05','Astropy objects survive dump and load',
 'Any astropy Quantity, Angle, Latitude, Longitude, Constant, Time (unmasked), SkyCoord or Table is loaded with the same class, values, units, dtype and its defining metadata: format, scale, precision and location for times, frame, distance and motion for coordinates, column order, column units, masks and table metadata for tables. This holds for scalars and arrays of any shape.',
 ['inputs','configurations'],'all values x units x shapes x formats x scales x frames x column types x metadata',
 'tests use a handful of literals in the native representation and never the combinations which need the fallback',
 ['hickle/loaders/load_astropy.py'],[('native forms','create_astropy_*'),('restore','load_astropy_*')],observe='hickle.load result'),
P('P06','Compression and filter arguments never change what is loaded',
 'For every object which can be dumped and every valid combination of dataset arguments (compression gzip or lzf with any level, shuffle, checksum, automatic chunking, time and order tracking) dump succeeds and load returns exactly what it returns without them. The requested filters are really applied to every non-empty numeric array (data and mask of masked arrays and the parts of sparse matrices included), number list, string, bytes and pickled object stored, wherever it is nested. Arguments which fit certain arrays only (explicit chunk shape, maxshape, fill value, lossless scaleoffset) work for every object all arrays of which they fit.',
 ['inputs','configurations'],'all objects x combinations of dataset creation arguments',
 'the suite is run once with and once without gzip over fixed objects; scalars, empty objects and zero-dimensional data nested anywhere decide whether arguments must be dropped',
 ['hickle/helpers.py',LB,LN,LK],[('argument filtering for scalar and empty datasets','no_compression'),('argument propagation to sub items','subitem tuples of every create function')],observe='loaded value and dataset properties'),
P('P07','All kinds of file target are equivalent and caller handles stay open',
 'An object dumped to any supported kind of target (name, path object, open HDF5 file or group, file, in-memory file-like object, or such a file paired with a name) under any file name and at any path spelling loads the same from any other view on the same file, including HDF5 links to it. Files opened by dump or load are closed afterwards while handles passed in by the caller stay open and usable, on success as well as on error.',
 ['inputs','configurations'],'all pairs of dump target kind x load target kind x path spelling x object',
 'tests exercise each kind of target once with matching dump and load and one path',
 [FI,HK],[('target dispatch','file_opener'),('closing','dump / load finally blocks')],observe='loaded value, open handle state'),
P('P08','A file holding many hickles behaves like a map from path to object',
 'After any sequence of dumps to paths of one file, with any mix of open modes, loading a path returns exactly the object most recently dumped there that has not been truncated away, and loading any other path raises an error. A dump to a path which already holds data, or in exclusive mode to an existing file, or without write permission, is rejected and leaves all stored objects intact. The same holds for a file which was started by an older version of hickle (format 3 or 4).',
 ['histories'],'all sequences of dump, load and reopen operations over nested, overlapping and repeated paths and modes w, w+, x, a, r+, r',
 'tests cover single appends; the interaction of modes, nested paths and earlier content is history dependent',
 [HK,FI],[('existing path check','dump'),('type table per hickle','ReferenceManager'),('mode translation','file_opener')],observe='hickle.load of every path'),
P('P09','A failed dump or load leaves no trace',
 'If dumping fails at whatever element of the object, the exception reaches the caller, no incomplete object can be loaded from the target path, all other objects in the file are still loadable, and dumping a valid object to the same path afterwards succeeds. After a failing dump or load, files opened by hickle are closed and the next dump or load, of the same or any other file, works as if the failure never happened.',
 ['fault_sequences','histories'],'all positions of a failing element in any object, failing loaders, warnings turned into errors, any sequence of failing and succeeding operations',
 'tests provoke single failures and never inspect the state left behind',
 [HK,LK],[('cleanup of incomplete dumps','dump'),('per file managers','BaseManager.create_manager, __exit__'),('handle closing','finally blocks')],state='manager tables, HDF5 handles',observe='load of every path, open handle count'),
P('P10','Dump and load have no side effects',
 'Dumping never modifies the object dumped and loading never modifies the file, whether it is passed by name, as open handle or as file-like object; global interpreter state such as garbage collection and warning filters is left as it was. Repeated loads return equal but independent objects, and a loaded object dumped again loads equal once more.',
 ['inputs','histories'],'all objects x targets x repetitions',
 'tests only look at the loaded value of one cycle',
 [HK,FI],[('read only opening','file_opener'),('gc handling','dump / load finally blocks'),('memo lifetime','_dump')],observe='deep snapshot of argument, file bytes, gc and warnings state'),
P('P11','Files written by hickle 3.x still load',
 'A file in the hickle 3 format holding any nesting of None, bool, int, float, complex, str, bytes, list, tuple, set, dict, numpy array, scalar or dtype, sparse matrix, astropy object (quantity, angle, constant, time array, coordinate, table) and pickled object loads to the object that was stored, from every kind of file target and from any path within the file. A warning tells the user that legacy loading is used.',
 ['inputs','configurations'],'all objects representable in the format x target kinds x paths',
 'one shipped file with six entries is loaded without looking at its content',
 ['hickle/legacy_v3/hickle.py','hickle/legacy_v3/helpers.py','hickle/legacy_v3/lookup.py','hickle/legacy_v3/loaders/load_python3.py',HK],[('format detection','load'),('item order','sort_keys'),('restore','legacy_v3 loaders')],observe='hickle.load result'),
P('P12','Files written by hickle 4.x still load',
 'A file in the hickle 4 format (type information stored per node, items and dict entries as numbered groups) holding any nesting of built-in values, dicts, numpy arrays, masked arrays, string arrays, object arrays, sparse matrices, astropy objects and pickled objects loads to the object that was stored. Loading such a file by name or from a read only handle leaves it unmodified.',
 ['inputs'],'all objects representable in the format',
 'one shipped file with 22 entries is loaded',
 [LK,LB,LN,'hickle/loaders/load_scipy.py'],[('legacy loaders','hickle-4.x option entries'),('type overlay','ReferenceManager overlay, fix_lambda_obj_type'),('dict entries','_DictItemContainer')],observe='hickle.load result'),
P('P13','Registered custom loaders are used exactly where they apply',
 'An object is dumped by the loader registered for the nearest class in its method resolution order, falling back to pickle only if there is none, and loaded by the loader registered for the stored kind, also when subclasses, containers and plain objects are mixed. Loaders registered as optional take part in a dump only when the option is switched on for it, and the choice is remembered in the file so that load needs no option; loaders hickle itself depends on can be neither replaced nor excluded.',
 ['programs','configurations'],'all class hierarchies x registered subsets x options x object nestings',
 'tests register single classes; resolution depends on hierarchy and registration set',
 [LK],[('resolution','LoaderManager.load_loader'),('registration','LoaderManager.register_class'),('option memory','LoaderManager.__init__')],state='loader tables',observe='which loader functions ran, loaded value'),
P('P14','Data of unavailable classes or loaders is recovered, not lost',
 'When the class or the loader of some stored objects is not available on load, loading still succeeds: their raw data, attributes and nested items are returned in recovered form with a warning, and every other object of the file is loaded exactly as if all classes were available. Once the class and loader are available again the same file loads completely.',
 ['inputs','configurations'],'all objects with instances of removable classes at arbitrary positions x which classes or loaders are missing x read only or writable file',
 'tests recover one dataset and one group at top level',
 [LK],[('type resolution fallback','ReferenceManager.resolve_type'),('recovery','recover_custom_dataset, RecoverGroupContainer')],observe='hickle.load result and warnings'),
P('P15','Anything which is not a valid hickle is rejected cleanly',
 'Loading a missing path, a plain HDF5 file or group, a truncated file, a file with missing or broken hickle markers, without top level data, with broken type or object references, unnumbered dict entries or an undecodable type entry raises an error and never returns a value; loading or dumping with closed, unreadable or unsupported targets, invalid modes or names is rejected too. The file is not changed and not left open, and valid hickles elsewhere in it still load.',
 ['inputs','fault_sequences'],'all kinds of damage x node positions x objects x targets',
 'tests cover single defects of a fixed file',
 [HK,LK,FI],[('marker check','load'),('reference checks','ReferenceManager.resolve_type'),('target checks','file_opener')],observe='raised exception, file bytes, later loads'),
P('P16','Native data stays native: only foreign types are pickled, with a warning',
 'Built-in values, numpy numeric and string arrays and their nestings are stored without any pickled payload such that number-only lists and arrays appear as HDF5 datasets with their values and strings as readable text, and no serialization warning is issued. A warning is issued for each object that has to be pickled, and exactly then.',
 ['inputs'],'all objects mixing natively supported and foreign types',
 'tests check the file layout of isolated create functions only',
 [LB,LN,LK],[('fallback','create_pickled_dataset, NotHicklable'),('native forms','create functions')],observe='file content read with plain h5py, warnings'),
P('P17','Instances of subclasses of built-in types keep their class and content',
 'Instances of importable classes derived from int, float, complex, str, bytes, list, tuple, dict or set, including named tuples, enumerations, ordered, counting and defaulting dictionaries, are loaded as instances of the very same class with equal content, also as dict keys, set items or items of number lists. Instances of the base classes next to them keep the base class.',
 ['inputs'],'all classes x contents x positions',
 'tests contain two subclasses at top level',
 [LB,LK],[('class stored apart from loader','ReferenceManager.store_type, LoaderManager.load_loader'),('restore','*Container.convert, load_list_dataset')],observe='hickle.load result'),
P('P18','Operations on different files do not interfere',
 'Dumps and loads of different files which are interleaved or nested, for instance started by a loader or while another file is still being written, give the same results as when run one after the other, whatever fails among them. A second dump or load of a file which is just being dumped or loaded is rejected and harms neither.',
 ['schedules','histories'],'all interleavings and nestings of dump and load on several files, including failing ones',
 'tests run one operation at a time',
 [LK,HK],[('one manager per file','BaseManager.__managers__'),('exclusiveness','BaseManager.create_manager')],state='manager tables',observe='results of all operations'),
P('P19','Arbitrary picklable objects survive dump and load',
 'Any picklable object without native representation, such as dates, decimals, ranges, frozen sets, user defined instances, classes, functions or objects referring to arrays and containers, is loaded equal to what pickling alone would restore, at any position in a native structure and with any compression. Several references to it lead to one object after load.',
 ['inputs'],'all picklable objects x positions x compression',
 'tests pickle one or two objects at top level',
 [LK],[('pickle form','create_pickled_dataset, load_pickled_data')],observe='hickle.load result'),
P('P20','Loading does not depend on what the process did before',
 'A file dumped by one process is loaded with the same result by any other one, be it a fresh interpreter which has never handled any of the types involved or a process which dumped and loaded other objects, formats or the same file before. The order in which files are dumped and loaded never matters, and what a dump writes depends on its arguments and the registered loaders only, not on earlier calls.',
 ['histories','inputs'],'all sequences of dumps and loads of all supported kinds of objects and file formats spread over processes',
 'tests run in one process in which all loaders are already active and import order is fixed',
 [LK,HK],[('loaders activated on demand','LoaderManager.load_loader'),('type table','ReferenceManager')],state='loaded loaders',observe='hickle.load results in every process'),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
import re
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    print(p['id'],len(re.findall(r'[.](\s|$)',p['statement'])))
