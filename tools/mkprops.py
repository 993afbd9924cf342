#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source because JSONL is hard to edit)."""
import json, os
H='hickle/hickle.py'; L='hickle/lookup.py'; F='hickle/fileio.py'; HP='hickle/helpers.py'
B='hickle/loaders/load_builtins.py'; N='hickle/loaders/load_numpy.py'; S='hickle/loaders/load_scipy.py'; A='hickle/loaders/load_astropy.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,title
    an=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    an.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=an))

p('C01','Built-in values come back equal from a file',
 "Whatever value is built from None, booleans, integers of any size, floats, complex numbers, text, bytes, lists, tuples, sets and dictionaries, nested in any way, dumping it and loading the file yields an equal value with the same container types, item order and item count. "
 "A number, text or bytes object keeps its exact value and type; only the numbers of a purely numeric list, tuple or set may come back as NumPy scalars of the same kind and value. "
 "No value that dump accepts is silently altered.",
 ['inputs'],'every finite acyclic nesting of the built-in types, with boundary values (64-bit limits, multi-byte text, NUL, empty containers, NaN, signed zero) and container sizes',
 'tests round-trip a few dozen hand-picked values; mixed-type lists, boundary integers, single bytes items or large item counts are not combined',
 [B,H],[('choice between one homogeneous dataset and one node per item','hickle/loaders/load_builtins.py check_iterable_item_type/create_listlike_dataset'),('restoring items by index','hickle/loaders/load_builtins.py ListLikeContainer'),('scalars and integers wider than 64 bit','hickle/loaders/load_builtins.py create_scalar_dataset/load_scalar_dataset')],
 observe_at=['return value of hickle.load'])

p('C02','NumPy arrays, scalars, dtypes, masked arrays and matrices come back equal',
 "Every NumPy array, scalar, dtype, masked array and matrix that dump accepts is loaded with the same kind of object, element type (including byte order and record fields), shape, elements bit for bit and mask, whatever its dimensions, memory layout or position inside other containers. "
 "Arrays of text and of Python objects keep their shape and items.",
 ['inputs'],'element types x byte orders x shapes (0-d, empty axes, up to 4-d) x memory layouts x contents x masks x nesting position',
 'tests cover a handful of dtypes with contiguous, non-empty arrays; the product of dtype, shape and layout is never explored',
 [N,H],[('array, scalar, dtype and masked array dumpers','hickle/loaders/load_numpy.py create_np_*'),('array restore','hickle/loaders/load_numpy.py load_ndarray_dataset, NDArrayLikeContainer, NDMaskedArrayContainer')],
 observe_at=['return value of hickle.load'])

p('C03','Dictionary keys and insertion order survive',
 "For every dictionary the loaded dictionary has the same keys, each of the same value and type (a NumPy number mapped to a number may come back, like items of a sequence of numbers, as NumPy number of equal value), mapped to the same values in the same insertion order. "
 "Keys which look alike as text (for example 1, '1', b'1', True, 'True', None, 'None', 1.0), contain slashes, quotes, dots, NUL or non-ASCII characters, are empty, or are tuples, frozen sets or arbitrary hashable objects are never confused, merged, dropped or renamed.",
 ['inputs'],'all dictionaries whose keys are drawn from the supported hashable types, in every insertion order',
 'tests use short dictionaries of a few key kinds, never all combinations and orders',
 [B],[('key to node name mapping','hickle/loaders/load_builtins.py create_dictlike_dataset'),('node name to key mapping','hickle/loaders/load_builtins.py DictLikeContainer.append')],
 observe_at=['return value of hickle.load'])

p('C04','Shared objects stay shared and distinct objects stay distinct',
 "If one list, tuple, dictionary, set, array, text, bytes object or serialized object is reachable through several places of the dumped value, all these places of the loaded value refer to one single object, and objects that were distinct are loaded as distinct objects even if they are equal. "
 "Dumping never confuses two different objects, including temporary ones created while the value is written. A value which contains itself either is restored with that structure or the operation raises an error.",
 ['inputs','programs'],'all object graphs (sharing patterns) up to the bound, for every combination of node kinds',
 'tests check three or four fixed sharing patterns; graphs are exponential in number and identity confusion depends on memory reuse',
 [H,L],[('memo of dumped objects by identity','hickle/hickle.py _dump'),('memo of loaded nodes','hickle/hickle.py _load'),('expansion of references','hickle/lookup.py ExpandReferenceContainer')],
 state=[dict(name='memo',meaning='object identity to node (dump) and node to object (load)')],
 observe_at=['identity relation among all sub-objects of the loaded value'])

p('C05','SciPy sparse matrices come back equal',
 "Every sparse matrix or sparse array of any SciPy format is loaded in the same format with the same shape, element type and stored entries, including empty matrices, explicit zeros, unsorted or duplicate entries and blocks.",
 ['inputs'],'sparse formats x shapes x element types x sparsity patterns x nesting position',
 'tests store three fixed 3x3 matrices',
 [S,N],[('decomposition in data, indices, indptr and shape','hickle/loaders/load_scipy.py create_sparse_dataset'),('restore','hickle/loaders/load_scipy.py SparseMatrixContainer')],
 observe_at=['return value of hickle.load'])

p('C06','Astropy objects come back equal',
 "Quantities, constants, angles (including longitudes and latitudes), times, sky coordinates and tables are loaded as the same class with equal values, units, shape and, where they have them, wrap angle, time format and scale, coordinate frame, distance, column names, column types, masks and metadata.",
 ['inputs'],'object kinds x units x formats x scales x frames x shapes x contents',
 'tests store about one instance per class',
 [A],[('dumpers','hickle/loaders/load_astropy.py create_astropy_*'),('loaders','hickle/loaders/load_astropy.py load_astropy_*')],
 observe_at=['return value of hickle.load'])

p('C07','Instances of other classes come back, with a warning when pickled',
 "Instances of subclasses of the built-in types come back as the same class with the same content, and any other picklable object (instances, classes, functions, enumerations, collections types) comes back equal. "
 "Each object which is stored by pickling is announced by a serialization warning, objects of natively supported types never are, and one pickled object inside a value does not change how the rest of it is stored.",
 ['inputs','programs'],'classes (kind of base class, hooks such as reduce/getstate/slots, constructor signature) x content x position inside containers',
 'tests dump two or three example classes',
 [L,H,B],[('class resolution along the inheritance order','hickle/lookup.py LoaderManager.load_loader'),('pickle fallback','hickle/lookup.py create_pickled_dataset/load_pickled_data')],
 observe_at=['return value of hickle.load','warnings issued'])

p('C08','Compression and filter settings never change the loaded value',
 "Whatever combination of storage keywords (compression method and level, chunking, shuffle, checksum) is passed to dump, every value that can be dumped without them can also be dumped with them and loads as the same value and structure of shared references. "
 "The requested filters are actually applied to the array data in the file.",
 ['inputs','configurations'],'all combinations of storage keywords x kinds of value',
 'the test suite is run with two settings only and applies each filter to single arrays',
 [HP,B,N,S,A,H],[('filter keywords dropped where HDF5 does not support them','hickle/helpers.py no_compression'),('keywords passed on to sub items','hickle/hickle.py _dump')],
 observe_at=['return value of hickle.load','filters of the datasets in the file'])

p('C09','Several values in one file stay independent',
 "Values dumped to different paths of one file can be loaded from their path in any order and any number of times, each equal to what was dumped there last. "
 "Dumping to a path which is already occupied is refused with an error, and that failed attempt, like every other dump to the file, leaves everything stored at other paths unchanged; only opening the file in a truncating mode discards old values. Loading from a path where nothing was dumped raises an error.",
 ['histories'],'all sequences of dump, load, reopen and truncate operations over a set of nested and disjoint paths',
 'tests dump at most two paths in one fixed order',
 [H,F],[('occupied path check','hickle/hickle.py dump'),('path handling','hickle/fileio.py file_opener'),('per root type table','hickle/lookup.py ReferenceManager')],
 observe_at=['return values and exceptions of the calls','file content'])

p('C10','All ways to name the file are equivalent and handles are respected',
 "A value dumped through any accepted kind of target (file name, path object, open HDF5 file or group, file or file-like object, file-name pair or mapping) with any writing mode loads equally through every other accepted kind that denotes the same file. "
 "Handles opened by the caller stay open and usable, files opened by the library are closed when the call returns or raises, and already closed, read-only, non-seekable or otherwise unusable targets are rejected with an error before anything is modified.",
 ['configurations','histories'],'target kinds for dump x target kinds for load x modes x path spellings x handle states',
 'tests try each kind once, mostly with matching dump and load kinds',
 [F,H],[('target dispatch','hickle/fileio.py file_opener'),('close and flush','hickle/hickle.py dump/load')],
 observe_at=['return values, exceptions, validity of handles, list of open HDF5 files'])

p('C11','A failing operation is reported and leaves nothing behind',
 "If storing or reading any part of a value fails at any point, the call raises an error, files it opened are closed, the garbage collector state is as before, the caller's input is unchanged and later operations, also at other paths of the same open file, work as if the failed call had not happened. "
 "The remains of a failed dump are never loadable as if they were a complete value, and values stored before in other places of the file stay intact.",
 ['fault_sequences','histories'],'every storage or serialization call of a dump or load as the failing one, for each kind of value and target, followed by further operations',
 'tests provoke two or three failures; the position of the failure is never varied',
 [H,L,F],[('cleanup on exception','hickle/hickle.py dump/load finally'),('manager release','hickle/lookup.py BaseManager.__exit__'),('completion mark','hickle/hickle.py dump')],
 observe_at=['exceptions, open HDF5 files, result of subsequent calls'])

p('C12','A dump cut short by a crash never loads as a wrong value',
 "If the process dies at any moment during a dump, also in the middle of a single write, loading the file that is left behind either raises an error or yields the complete value; values at other paths load unchanged or raise. "
 "Once dump has returned, the complete value can be loaded from what has been handed to the operating system, even if the caller never closes a file it opened.",
 ['crash_points'],'every prefix of the sequence of writes issued by a dump, with torn last write, for each kind of value, target and filter setting',
 'no test interrupts a dump',
 [H,L],[('version mark written last','hickle/hickle.py dump'),('flush before returning','hickle/hickle.py dump')],
 observe_at=['result of hickle.load on each crash image'])

p('C13','Unusable files are refused with an error',
 "Loading a truncated hickle file, an HDF5 file not made by the library, a file without version mark, or a file whose version mark, type information or object references were removed or point nowhere raises an error or marks the affected part as recovered data with a warning, and never passes off a value different from the one stored. "
 "The library neither modifies such a file nor keeps it open.",
 ['inputs','fault_sequences'],'every truncation length of a hickle file and every removal of one item of bookkeeping information',
 'tests feed two or three broken files',
 [H,L],[('version checks','hickle/hickle.py load'),('stale reference checks','hickle/lookup.py ReferenceManager.resolve_type, ExpandReferenceContainer')],
 observe_at=['exceptions and return values of hickle.load'])

p('C14','Loading and dumping have no side effects on their inputs',
 "Loading never changes a single byte of the file, whatever handle it is loaded through, and repeated loads return equal but completely independent objects; changing one changes neither the others nor the file. "
 "Dumping never changes the dumped object, and dumping the same value again yields a file with the same content.",
 ['inputs','histories'],'kinds of value x kinds of handle x sequences of load, mutate, load and dump',
 'tests never compare file bytes or input state before and after',
 [H,L,B,N],[('read-only open and overlay type table','hickle/lookup.py ReferenceManager.__init__'),('in-place dtype views on dump','hickle/loaders/load_builtins.py create_listlike_dataset')],
 observe_at=['file bytes, deep comparison of inputs, logical content of the file'])

p('C15','Custom loaders are used exactly when enabled and recorded in the file',
 "A loader registered for a class is used for its instances and those of subclasses without a closer loader, always if registered globally and otherwise exactly if its option is switched on for that dump; loading such a file needs no option as the choice is recorded in it. "
 "Objects without active loader fall back to pickling, sharing follows the loader's own setting, options never leak into other dumps, and registrations for reserved types, reserved names or unknown options are refused without effect.",
 ['histories','configurations'],'all sequences of registrations and dumps with options over a class hierarchy',
 'tests register one class under one option',
 [L,'hickle/loaders/__init__.py'],[('registration tables','hickle/lookup.py LoaderManager.register_class'),('option handling','hickle/lookup.py LoaderManager.__init__'),('lookup','hickle/lookup.py LoaderManager.load_loader')],
 state=[dict(name='loader tables',meaning='class and file type name to loader, per option')],
 observe_at=['which loader ran, file attributes, loaded values, warnings, exceptions'])

p('C16','Data of classes that no longer exist is recovered',
 "If the class or the loader of an object in the file is not available any more when the file is loaded, the rest of the value loads unchanged, a recovery warning is issued for the affected object, and its stored data and attributes are returned in a recovered dictionary or array in the place of the object (as dictionary key or set item, where no such object can be placed, an error is raised).",
 ['inputs','configurations'],'which classes or loaders are missing x how the object was stored x where it sits in the value, including shared objects',
 'tests simulate one missing class at top level',
 [L],[('fallback on missing class','hickle/lookup.py ReferenceManager.resolve_type'),('recovery containers','hickle/lookup.py recover_custom_dataset, RecoverGroupContainer')],
 observe_at=['return value and warnings of hickle.load'])

p('C17','Files of older versions still load',
 "Files in the formats of version 3 and version 4.0 load to the values they were written from, for all value kinds these formats support, through every kind of file target and without modifying the file.",
 ['inputs'],'all values of the supported kinds nested up to the bound, written in the old formats',
 'tests load one stored sample file per old version',
 [H,L,'hickle/legacy_v3/hickle.py',B,N,S],[('version dispatch','hickle/hickle.py load'),('4.0 type attributes','hickle/lookup.py fix_lambda_obj_type, type_legacy_mro'),('version 3 reader','hickle/legacy_v3')],
 observe_at=['return value of hickle.load'])

p('C18','Threads working on different files do not disturb each other',
 "Dumps and loads running at the same time in several threads on different files have the same results as if run one after the other, under every scheduling, also when they trigger the first use of some type. "
 "Two threads using the same open file at the same time either both succeed with correct results or one of them is refused with an error, never with a corrupted value, and afterwards the process is in a clean state.",
 ['schedules'],'all interleavings up to a preemption bound of two or three concurrent operations',
 'tests are single threaded',
 [H,L],[('process wide loader tables and manager table','hickle/lookup.py LoaderManager, BaseManager'),('garbage collector switch','hickle/hickle.py dump/load')],
 state=[dict(name='managers',meaning='one active manager per open file'),dict(name='loaded loaders',meaning='loader modules already imported')],
 observe_at=['results and exceptions of the calls, process state afterwards'])

p('C19','Results do not depend on what the process did before',
 "Dumping or loading a value gives the same result in a fresh process, after any sequence of other dumps and loads (succeeding or failing) and whichever types were used first; a file dumped by one process loads equally in another.",
 ['histories'],'all orders of first use of the supported type families and all short sequences of preceding operations',
 'tests run in one process in one order',
 [L,H],[('lazy loader import and registration','hickle/lookup.py LoaderManager.load_loader'),('release of managers','hickle/lookup.py BaseManager')],
 observe_at=['results of the calls in each history'])

p('C20','Numeric data is stored as plain HDF5 readable without the library',
 "Every numeric or boolean array, and every purely numeric list or tuple, anywhere in the dumped value is stored as one ordinary HDF5 dataset of its shape, element type and values that any HDF5 reader can read, dictionaries and mixed sequences as groups with one entry per item named after key or index, and text as its UTF-8 bytes. "
 "The group a value is dumped to carries the library version and nothing outside that group is touched.",
 ['inputs'],'kinds of value x shapes x nesting x target path',
 'tests look into the file of one or two values',
 [B,N,H],[('native datasets','hickle/loaders/load_numpy.py create_np_array_dataset'),('groups','hickle/loaders/load_builtins.py create_dictlike_dataset/create_listlike_dataset')],
 observe_at=['file read with h5py only'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
