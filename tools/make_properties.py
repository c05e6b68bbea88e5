#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because JSON lines can't be read)."""

import json
import os

INIT = "src/hdf5storage/__init__.py"
MARSH = "src/hdf5storage/Marshallers.py"
UTIL = "src/hdf5storage/utilities.py"
PATH = "src/hdf5storage/pathesc.py"
PLUG = "src/hdf5storage/plugins.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


p("C01", "Operations on one File object are mutually exclusive",
  """Every operation on an open file object touches the underlying HDF5 file only while it
  holds that object's lock, does all of its accesses in one uninterrupted hold, and gives the
  lock back on every exit including exceptions. No operation takes the lock twice, hands
  control back to its caller while holding it, or returns something that would still read
  from the file after the lock was released.""",
  ["schedules"], "every interleaving of operations by any number of threads on one file object, and every exception inside them",
  """the tests use a File from one thread only; a data race or a leaked lock needs a schedule
  or a failure inside the critical section""",
  [INIT], [("with self._lock in every method", "File"), ("list built before the lock is released", "File.__iter__")],
  ["File methods", "the iterators they return"],
  [("File._lock", "mutual exclusion of the accesses", "File.__init__"), ("File._file", "the HDF5 file or None", "File")])

p("C02", "A closed File refuses every operation",
  """After a file object is closed, by its user, by leaving its context or by another thread
  while an operation waits for the lock, every operation on it raises an OSError (or the
  TypeError or ValueError an invalid argument also raises when open) and never touches the HDF5 file.
  Closing closes the HDF5 file, can be repeated, is what leaving the context does, and is
  reported by the closed property; leaving the context never hides an exception.""",
  ["histories", "schedules"], "every sequence of open, close and operations, and every moment at which another thread closes",
  "the tests close at one or two points; the close between the check and the use needs a schedule",
  [INIT], [("the check of the handle inside the lock", "File methods"), ("handle replaced by None", "File.close"), ("context manager", "File.__enter__, File.__exit__")],
  ["File methods", "File.closed"], [("File._file", "None iff closed", "File")])

p("C03", "A File not opened writable never changes the file",
  """A file object that isn't opened writable opens the file read only, and every operation
  that would change the file of a writable one raises an OSError on it (or the TypeError or
  ValueError of an invalid argument) before anything is changed.""",
  ["inputs", "histories"], "every operation with every argument on every file object made without writable",
  "the tests try one write on one read only file",
  [INIT], [("the check of writable before anything else", "File.writes, File.__delitem__"), ("mode 'r'", "File.__init__")],
  ["File methods", "the file"], [("File._writable", "the writable argument", "File.__init__")])

p("C04", "Opening a File destroys no data unless asked to",
  """Opening an existing file truncates it only when writable and either truncating existing
  files was asked for, or truncating MATLAB invalid files was asked for, the options are
  MATLAB compatible and the userblock is too small; files are created only when writable,
  with a userblock of at least 512 bytes. Invalid constructor arguments are refused before
  the file system is touched, and no handle stays open behind the one kept.""",
  ["configurations", "inputs"], "every combination of the constructor's arguments, kind of existing file and userblock size",
  "the tests cover a few of the argument combinations and no failure in between",
  [INIT], [("choice of the mode of h5py.File", "File.__init__"), ("argument checks first", "File.__init__")],
  ["File()", "the file"])

p("C05", "The MATLAB header is written correctly and only where it may be",
  """A MATLAB compatible writable file with a userblock of at least 128 bytes gets, while no
  HDF5 handle to it is open, exactly 128 bytes at its start: ASCII text independent of the
  locale padded with spaces to 116 bytes for every date and version, then 8 zero bytes and
  the bytes 00 02 49 4D. Nothing is written to the userblock otherwise, and the rest
  of the file isn't changed by it.""",
  ["configurations", "inputs"], "every combination of options, every date and time, every locale, every version string of reasonable length",
  "the tests look at the header of one file on one day in one locale",
  [INIT], [("header construction and write with mode r+b", "File.__init__")], ["the first 512 bytes of the file"])

p("C06", "The convenience functions do exactly what File would",
  """Writing and reading through the module level functions opens the file with the
  arguments given, does exactly the one operation asked for, passes its result or failure on
  and closes the file on every path; reading isn't MATLAB compatible unless asked for. Saving
  in a format older than 7.3 and loading files that can't be opened as HDF5 are left to scipy with all
  arguments it takes and nothing else is, and '.mat' is appended to file names exactly when
  wanted and missing. Saving uses MATLAB compatible options with the settings given; loading adds
  what was read to the dictionary given, or returns a new one.""".replace("""Saving uses MATLAB""", "Saving uses MATLAB"),
  ["inputs", "fault_sequences"], "every combination of arguments and every failure of the operations inside",
  "the tests call each with a handful of arguments and no failures",
  [INIT], [("with File(...) as f", "write, writes, read, reads, loadmat"), ("dispatch to scipy", "savemat, loadmat")],
  ["write, writes, read, reads, savemat, loadmat"])

p("C07", "All paths are checked before the file is touched",
  """Every operation of a file object taking paths normalises and checks all of them before
  its first access to the file, so that an invalid path among several leaves the file as
  it was. Only normalised paths are given to the HDF5 library.""",
  ["inputs"], "every set of paths and every position of an invalid one among them",
  "the tests pass single paths, an invalid path after a valid one is a matter of position",
  [INIT, PATH], [("process_path before the lock is taken", "File.writes, File.reads, File.__contains__, File.__delitem__")],
  ["File methods"])

p("C08", "The references group is invisible and untouchable through a File",
  """For every setting of the references group, nested ones included, writing, reading or deleting a path that is
  or lies inside it is refused with a ValueError before anything is read or changed, as is
  writing or deleting one of its parents other than the root, while all other paths,
  ones that share a prefix of its name included, are not refused. It never
  appears in the length or the iteration of a file object, and reading a
  group containing it as a dict or struct leaves it out, while all other members are there.""",
  ["inputs", "configurations"], "every path and every value of the option, nested ones included",
  "the tests use the default name and a path or two; nested names, siblings and parents need particular pairs of values",
  [INIT, MARSH], [("comparison of the common path", "File writes, reads, __delitem__"), ("filtering of names", "File.__len__, File.__iter__"), ("skipping of the group", "PythonDictMarshaller.read, NumpyScalarArrayMarshaller.read")],
  ["File methods", "read dicts and structured arrays"])

p("C09", "Writing deletes what it replaces and nothing else",
  """Writing a dict or structured array over an existing group deletes exactly the members
  that aren't written again, when deleting unused variables is on (or always for a dict stored as keys and
  values), and no member otherwise; it never deletes or replaces the group
  of references or a group containing it.""",
  ["inputs", "configurations", "histories"], "every set of members already in the group, every data written over it and every place of the references group",
  "the tests write to fresh files; the losses need particular leftovers",
  [MARSH, UTIL], [("deletion loop", "PythonDictMarshaller.write, NumpyScalarArrayMarshaller.write"), ("refusal", "LowLevelFile.write_data")],
  ["the members of the group afterwards"])

p("C10", "MATLAB compatible options always are",
  """Whenever an options object says it is MATLAB compatible, each of the eleven options that matter for it has
  its MATLAB value, whatever was set before and in whatever order: turning compatibility on sets all of
  them, and setting one of them to another value turns compatibility off and sets nothing else. Setting
  any option keeps all others.""",
  ["histories", "configurations"], "every sequence of assignments to the options and every combination of constructor arguments",
  "the tests set single options from one starting state",
  [INIT], [("setters clearing the flag", "Options property setters"), ("order of the assignments", "Options.__init__")],
  ["Options attributes"], [("Options._matlab_compatible", "the flag", "Options")])

p("C11", "Options only ever hold values of their domain",
  """Assigning or constructing with a value outside an option's domain (type, choices, range, tuple of two str, absolute path other than
  the root) leaves the option as it was and one inside takes effect; the path of the references group is always stored normalised. Reading an option
  returns what was last set.""",
  ["inputs"], "every value of every type for every option",
  "the tests assign a few values per option",
  [INIT], [("checks in the setters", "Options property setters")], ["Options attributes"])

p("C12", "Marshaller lookups always match the registered marshallers",
  """After every change of a marshaller collection its lookups hold, for each type, type string and
  MATLAB class, the first marshaller handling it in the order of the priority, also when adding fails; a
  failed addition changes nothing, adding twice registers once, and builtin and plugin marshallers are never
  removed. Types given as classes and as their dotted names find the same marshaller.""",
  ["histories", "inputs", "configurations"], "every sequence of additions and removals, every set of marshallers and every priority",
  "the tests add and remove a few marshallers one after another",
  [INIT], [("lookups rebuilt after each mutation", "MarshallerCollection.add_marshaller, remove_marshaller, clear_marshallers, _update_marshallers")],
  ["MarshallerCollection methods"])

p("C13", "The builtin type tables agree with each other",
  """In every builtin marshaller types and type strings correspond one to one position by position, no type
  string or type is claimed by two builtin marshallers with different meanings, and each type string is the one earlier versions wrote for the type (its dotted
  name, its numpy name or plain builtin name). Each MATLAB class written for a type is read back by a marshaller that knows it, with a type of the
  same kind.""",
  ["programs"], "every builtin type and all pairs of them",
  "the tests write and read samples with the same tables, so a consistent mistake or an unused entry is not seen",
  [MARSH], [("types, python_type_strings, MATLAB class tables", "constructors of the marshallers")], ["files read by other versions and MATLAB"])

p("C14", "Marshallers are used for exact reading only when they can",
  """The three lookups of a marshaller collection return nothing and false for what isn't registered and otherwise the registered
  marshaller and whether all modules it needs are imported, importing them at most when its
  parent modules are present, and remembering the outcome. Data is read exactly when they are and approximately
  otherwise, and writing without them is refused.""",
  ["configurations", "histories"], "every state of presence and import of the required modules, for each of the three lookups",
  "the tests cover modules that are there and ones that aren't through one of the lookups",
  [INIT, UTIL], [("the three getters", "MarshallerCollection"), ("choice of read and read_approximate", "LowLevelFile.read_data"), ("refusal", "LowLevelFile.write_data")],
  ["MarshallerCollection getters", "data read"])

p("C15", "Metadata is written exactly when the options ask for it",
  """Python metadata attributes are written only when storing Python metadata is on, MATLAB attributes only when the options are MATLAB compatible, and then always: for every
  type the type string; for arrays shape, underlying type, container and emptiness; for dicts how they are stored, their fields or
  names of keys and values, and key types; the MATLAB class, fields, emptiness and decoding of types that have them.""",
  ["configurations", "inputs"], "every combination of the two settings with every kind of data",
  "the tests use a few combinations and compare data rather than attributes",
  [MARSH], [("gating of each attribute", "write and write_metadata of the marshallers"), ("H5PATH", "LowLevelFile.write_object_array")], ["attributes in the file"])

p("C16", "After a write the attributes are exactly the ones requested",
  """Setting the attributes of an object leaves each requested one with the requested value, type and shape whatever was stored under the name before, removes
  all others when asked to and only then, and never touches the others otherwise.""",
  ["histories", "inputs"], "every set of attributes already there and every set requested",
  "the tests set attributes on new objects or with the same type and shape",
  [UTIL], [("create, modify or delete", "set_attributes_all")], ["attributes in the file"])

p("C17", "Data MATLAB cannot handle is judged before anything is written",
  """With MATLAB compatible options, data of a type that can't be stored so raises the error, is
  left out, or is written anyway as the action option says, before anything in the file is changed or
  deleted; supported types and not MATLAB compatible options are never affected.""",
  ["inputs", "configurations"], "every data type and every value of the action",
  "the tests try one or two types",
  [MARSH], [("the check at the start", "NumpyScalarArrayMarshaller.write")], ["the file", "exceptions"])

p("C18", "Datasets get the storage filters the options ask for",
  """Every dataset written for data is compressed with the algorithm and level of the options if it isn't scalar, compression is
  on and it isn't smaller than the threshold, has shuffling and checksums as set for its case, and is contiguous otherwise. An existing
  dataset is overwritten in place only when its dtype, shape and all filters are those; otherwise it's replaced.""",
  ["configurations", "histories", "inputs"], "every combination of the compression options, data sizes and existing datasets",
  "the tests look at a few random settings on new files",
  [MARSH], [("choice of filters and comparison", "NumpyScalarArrayMarshaller.write")], ["datasets in the file"])

p("C19", "Reading changes neither the file nor the options",
  """Reading data, looking for names, counting and iterating never create, change or delete anything in the file, also when the file is
  writable, and never change the options or the marshallers' tables.""",
  ["inputs", "histories"], "every file content, including malformed ones, and every reading operation",
  "the tests don't compare files before and after reading",
  [MARSH, UTIL, INIT], [("read functions only call readers", "marshaller read methods, LowLevelFile.read_data, read_object_array, File readers")], ["the file"])

p("C20", "Writing never changes the data written or the caller's options",
  """Writing data never modifies the objects given, at any depth, nor the options object or
  keyword dictionaries passed in; a file object keeps its own copy of the options, so that later changes of the caller's don't affect it.""",
  ["inputs"], "every data and options written by every writing function",
  "the tests compare what was read with the original they passed, after both may have changed",
  [MARSH, UTIL, INIT], [("copies before in place operations", "marshaller write methods"), ("copy of the options", "File.__init__")], ["the caller's objects"])

p("C21", "Reading a file never executes code from it",
  """Nothing read from a file, be it data, names or attributes, is ever given to something that executes or compiles code, unpickles, imports
  modules or looks up attributes by name; types are created only from fixed tables.""",
  ["inputs"], "every file content", "tests can't show the absence of a flow from files to execution",
  [MARSH, UTIL, INIT, PATH, PLUG], [("literal_eval and tables", "marshaller read methods")], ["the process reading a file"])

p("C22", "Every builtin type is stored and read back as the same type",
  """Each builtin type is written with its own type string and from the components its reader uses, each component under the
  name of what it is; reading data with the type string applies the type's constructor to those components, each in its place.""",
  ["inputs"], "every value of every builtin Python type", "the tests check random values, seldom the particular component or type",
  [MARSH], [("write and read of each marshaller", "Marshallers")], ["type and components of data read"])

p("C23", "Dict keys survive as what they were",
  """A dict is stored by the names of its keys only when each key is a str or bytes like type with a distinct non empty name, else as separate
  keys and values; names are escaped when writing and unescaped exactly once when reading, and each key gets its own type and its own value back. The names of the keys and values are handled
  the same way by writer and reader.""",
  ["inputs", "configurations"], "every set of keys and every naming option", "the tests use random keys that rarely collide or need escaping",
  [MARSH], [("key loop, names, conversions", "PythonDictMarshaller")], ["dicts read"])

p("C24", "Escaping and unescaping paths are inverse",
  """Unescaping an escaped name gives the name for every string, an escaped name contains no slash and no null, does not start with a period, and distinct names
  have distinct escapes; invalid escapes raise a ValueError and nothing else is changed by unescaping.""",
  ["inputs"], "every string and bytes", "the tests sample characters; runs of backslashes and mixtures of escapes need particular strings",
  [PATH], [("regular expressions and conversion table", "escape_path, unescape_path")], ["escape_path, unescape_path"])

p("C25", "Path elements are escaped exactly once, plain paths never",
  """Each element of a path given as a sequence is escaped exactly once before it's joined, whatever its type, so it stays one element; paths given as
  str, bytes or pure paths are not escaped. Every result is a normalised group and a target that is never empty, and anything else is refused with a TypeError.""",
  ["inputs"], "every path in every accepted form", "the tests use short sequences without the awkward characters",
  [PATH], [("forms of paths", "process_path")], ["process_path", "File methods"])

p("C26", "A broken plugin affects nothing but itself",
  """A third party plugin that fails to load, isn't callable, raises or returns things that are no marshallers adds nothing but its valid marshallers and
  prevents neither other plugins nor the collection from loading; plugins are only loaded when asked for, and only those for supported versions.""",
  ["fault_sequences", "configurations"], "every failure in every position of the installed plugins", "the tests have one or two example plugins",
  [INIT, PLUG], [("suppression per plugin and filter", "MarshallerCollection.__init__"), ("entry point search", "plugins")], ["MarshallerCollection"])

p("C28", "Every element of an object array gets a reference of its own",
  """Each element of an object array is written under a name of the references group not used before, and the reference stored at the element's place
  is to it or, if it wasn't written, to the canonical empty; the references group and the canonical empty are kept if valid and replaced if not. Reading puts what each
  reference points to in the same place.""",
  ["inputs", "histories"], "every object array and every earlier content of the references group", "the tests read back what one writer wrote to a new file",
  [UTIL], [("write_object_array, read_object_array, next_unused_ref_group_name", "LowLevelFile")], ["data read", "the references group"])

p("C29", "Complex data is stored and recognised by its field names",
  """Complex data is written with the two field names of the options, real part first, and data with two fields is turned into complex data only when its
  fields are those of the options or recognised names for a real and an imaginary part, the real part staying real. The names of the options are
  used by every reader.""",
  ["inputs", "configurations"], "every pair of names and every two field data", "the tests use default and a few random names",
  [MARSH, UTIL], [("encode_complex, decode_complex and their callers", "utilities, NumpyScalarArrayMarshaller")], ["data read and written"])

p("C30", "What reads an object is decided by its metadata in a fixed order",
  """The reader of an object is chosen by its Python type string if it has one, else by its MATLAB class, else its dtype, else as a struct when it's a group, and
  an unknown one is read as a plain array. Metadata of the wrong type counts as missing, and missing objects raise a KeyError.""",
  ["inputs"], "every combination of present, missing, malformed and unknown metadata", "the tests read what the package wrote, with consistent metadata",
  [UTIL], [("order of the choices", "LowLevelFile.read_data"), ("conversion of attributes", "convert_attribute_to_string")], ["data read"])

p("C27", "Arrays, scalars and strings read back equal to what was written",
  """Reading a NumPy array, scalar, matrix, chararray, recarray or string that was written with the same options gives one of the same type, dtype, shape and
  elements, for every memory layout and byte order of the data, under all options for dimensions, conversions and metadata of empty data (except where the
  documentation names the loss: float16 in MATLAB compatible files, empty structured arrays, null characters ending a string of bytes).""",
  ["inputs", "configurations"], "every dtype, shape, memory layout, byte order and content of the arrays under every combination of the options that convert data",
  "the tests sample random values with a few option sets; particular layouts, byte orders, shapes and combinations of options aren't among them",
  [MARSH, UTIL], [("write and read of arrays", "NumpyScalarArrayMarshaller"), ("conversions", "convert_to_numpy_str, convert_to_numpy_bytes, convert_numpy_str_to_uint16, convert_numpy_str_to_uint32, convert_to_str")],
  ["data read"])

p("C31", "Strings keep every character, also those UTF-16 needs two units for",
  """A str is stored as UTF-16 when that is asked for and each of its characters is a single unit, and as UTF-32 otherwise, and
  reading it gives the same characters, among them surrogates, byte order marks and characters outside of the basic multilingual plane, in every byte order and container.""",
  ["inputs", "configurations"], "every string of every mixture of characters of one and two units", "random strings rarely contain surrogates, byte order marks or astral characters in the right place",
  [MARSH, UTIL], [("comparison of the numbers of units", "NumpyScalarArrayMarshaller.write"), ("conversions", "convert_numpy_str_to_uint16, convert_to_str, convert_to_numpy_str")], ["strings read"])

p("C32", "Written data replaces whatever was stored under its name",
  """With deletion of unused variables on, data of any kind written under a name at which data of any other or the same kind is stored reads back as if nothing had been there before.""",
  ["histories", "inputs"], "every pair of kinds of data written one after the other under the same name", "the tests write to fresh names; what is left over by another kind of data shows only for particular pairs",
  [MARSH, UTIL], [("overwriting in place or replacing", "NumpyScalarArrayMarshaller.write, PythonDictMarshaller.write"), ("deletion of unused attributes", "set_attributes_all")], ["data read"])

p("C33", "Writing under one name leaves all other data as it was",
  """Data written under one name reads back as it was written however often data of any kind is written under other names afterwards, also when both have elements stored by reference.""",
  ["histories", "inputs"], "every pair of kinds of data written one after the other under different names", "the tests write one thing per file or compare right after writing",
  [UTIL, MARSH], [("names in the references group", "LowLevelFile.write_object_array, next_unused_ref_group_name")], ["data read"])

p("C35", "Data is stored in the form the options ask for",
  """Every array, scalar, string or container is stored with the dtype, shape and order of elements the options ask for, wherever it is stored (by name, as an element of a container or an
  item of a dict): at least two dimensions as a row or a column, dimensions reversed, bool as uint8, bytes and str as UTF-16 or UTF-32 units along the last axis, complex with the
  names of its parts, containers as references, empties as their shape, all of this with matlab_compatible, and with nothing asked for the dtype and shape of the data itself.""",
  ["inputs", "configurations"], "every kind, shape and memory order of data under every combination of the options", "the tests mostly read back what was written, which undoes a wrong form if both sides agree on it, and other programs reading the file see it",
  [MARSH, UTIL], [("conversions and shapes", "NumpyScalarArrayMarshaller.write"), ("strings and complex", "convert_numpy_str_to_uint16, convert_numpy_str_to_uint32, convert_to_numpy_str, encode_complex")], ["stored Datasets"])

p("C36", "How data was written decides how it is read, not the options",
  """Data of any kind written with Python metadata is read back as it was with any other options: always when it was written MATLAB compatible, and otherwise with options that agree with those of writing on
  reversing the dimensions. The names of complex parts have to be known ones or those of the options, and reading structs as dicts isn't asked for.""",
  ["inputs", "configurations"], "every kind of data and every pair of options of writing and reading", "the tests read with the options they wrote with",
  [MARSH, UTIL], [("metadata read before options", "NumpyScalarArrayMarshaller.read, PythonDictMarshaller.read"), ("choice of the reader", "LowLevelFile.read_data")], ["data read"])

p("C34", "Every interface and every form of a path mean the same object",
  """Write, writes and item assignment of a file object put each piece of data at the object its path names and nothing elsewhere; read, reads and item access return what
  the paths name, in their order; deletion deletes what is named and nothing else, and a path is contained exactly when the object it names exists. All of this holds for every form a path may have
  (str, bytes, pure path, tuple or list of these), and reading or deleting something missing raises a KeyError.""",
  ["inputs"], "every path in every accepted form through every interface", "the tests use str paths through most interfaces, and other forms through few",
  [INIT, PATH], [("delegation among the methods", "File.write, writes, __setitem__, read, reads, __getitem__"), ("paths joined", "File.__contains__, __delitem__")],
  ["File methods"])

# Not decided statically -----------------------------------------------------

p("N02", "MATLAB and scipy read the files with the same values",
  """Files written MATLAB compatible are read by MATLAB and Octave with equal values.""",
  ["inputs"], "every MATLAB representable data", "MATLAB isn't there",
  [MARSH], [("MATLAB attributes", "Marshallers")], ["MATLAB"])

p("N03", "A crash while writing leaves earlier data readable",
  """When the process ends in the middle of a write, all data written and flushed before can still be read.""",
  ["crash_points"], "every moment at which the process ends", "the tests never end a process",
  [INIT], [("flush and close", "File")], ["the file after a crash"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as fh:
    for d in P:
        fh.write(json.dumps(d, ensure_ascii=False) + "\n")
