"""The source changes used as positive controls."""

from .controls import INIT, MARSH, PATH, PLUG, UTIL, control, refactoring

c = control

# Lock ------------------------------------------------------------------
c("C01", INIT, ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)""", """        if True:
            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)"""))
c("C01", INIT, ("            return iter(names)", "            return iter(self._file)"))
c("C01", INIT, ("            return iter(names)", "            for n in names:\n                yield n"))
c("C01", INIT, ("return posixpath.join(groupname, targetname) in self._file", "pass\n        return posixpath.join(groupname, targetname) in self._file"))
c("C01", INIT, ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            for groupname, targetname, data in towrite:
                self""", """        for groupname, targetname, data in towrite:
            with self._lock:
                if self._file is None:
                    raise OSError('File is closed.')
                self"""))
c("C01", INIT, ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            if self._writable:
                self._file.flush()""", """        self._lock.acquire()
        if self._file is None:
            raise OSError('File is closed.')
        if self._writable:
            self._file.flush()
        self._lock.release()"""))
c("C01", INIT, ("            if self._writable:\n                self._file.flush()", "            if self.closed or len(self) >= 0:\n                self._file.flush()"))
c("C01", INIT, ("""        with self._lock:
            if self._file is not None:
                self._file.close()
                self._file = None""", """        if self._file is not None:
            self._file.close()
            self._file = None"""))
c("C01", INIT, ("threading.Lock = threading.Lock()", "threading.Lock = contextlib.nullcontext()"))
c("C01", INIT, ("                datas.append(self._file_wrapper.read_data(grp, targetname))\n        return datas", "                datas.append((grp, targetname))\n        return [self._file_wrapper.read_data(g, t) for g, t in datas]"))
c("C01", INIT, ("                datas.append(self._file_wrapper.read_data(grp, targetname))\n        return datas", "                datas.append((grp, targetname))\n        return map(lambda x: self._file_wrapper.read_data(*x), datas)"))
# Closed ----------------------------------------------------------------
c("C02", INIT, ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)""", """        if self._file is None:
            raise OSError('File is closed.')
        with self._lock:
            length = len(self._file)"""))
c("C02", INIT, ("""                raise OSError('File is closed.')
            length = len(self._file)""", """                return 0
            length = len(self._file)"""))
c("C02", INIT, ("""                raise OSError('File is closed.')
            length = len(self._file)""", """                raise ValueError('File is closed.')
            length = len(self._file)"""))
c("C02", INIT, ("            if self._file is not None:\n                self._file.close()\n                self._file = None", "            self._file.close()\n            self._file = None"))
c("C02", INIT, ("            if self._file is not None:\n                self._file.close()\n                self._file = None", "            if self._file is not None:\n                self._file.close()"))
c("C02", INIT, ("            if self._file is not None:\n                self._file.close()\n                self._file = None", "            self._file = None"))
c("C02", INIT, ("        self.close()\n\n    def __del__", "        if tp is None:\n            self.close()\n\n    def __del__"))
c("C02", INIT, ("        self.close()\n\n    def __del__", "        self.close()\n        return True\n\n    def __del__"))
c("C02", INIT, ("return self._file is None", "return not self._writable"))
c("C02", INIT, ("""            if self._file is None:
                raise OSError('File is closed.')
            for groupname, targetname, data in towrite""", """            for groupname, targetname, data in towrite"""))
# Read only -------------------------------------------------------------
c("C03", INIT, ("        if not self._writable:\n            raise OSError('File is not writable.')\n        towrite", "        towrite"))
c("C03", INIT, ("        if not self._writable:\n            raise OSError('File is not writable.')\n        groupname", "        groupname"))
c("C03", INIT, ("self._writable: bool = writable", "self._writable: bool = True"))
c("C03", INIT, ("mode='r')", "mode='r+')"))
c("C03", INIT, ("        if not self._writable:\n            raise OSError('File is not writable.')\n        towrite", "        if not self._writable and self._options.matlab_compatible:\n            raise OSError('File is not writable.')\n        towrite"))
c("C03", INIT, ("        if not self._writable:\n            raise OSError('File is not writable.')\n        towrite", "        if not self._writable:\n            raise RuntimeError('File is not writable.')\n        towrite"))
# Paths -----------------------------------------------------------------
c("C07", INIT, ("        for p, v in mdict.items():\n            groupname, targetname = pathesc.process_path(p)", "        for p, v in mdict.items():\n            groupname, targetname = posixpath.split(p)"))
c("C07", INIT, ("            return posixpath.join(groupname, targetname) in self._file", "            return path in self._file"))
c("C07", INIT, ("            del self._file[posixpath.join(groupname, targetname)]", "            del self._file[path]"))
c("C07", INIT, ("""            datas = []
            for groupname, targetname in toread:""", """            datas = []
            for p in paths:
                groupname, targetname = pathesc.process_path(p)"""))
# Opening ---------------------------------------------------------------
c("C04", INIT, ("if truncate_existing or not os.path.isfile(filename):", "if truncate_existing or truncate_invalid_matlab or not os.path.isfile(filename):"))
c("C04", INIT, ("self._file.userblock_size < 128", "self._file.userblock_size <= 128"))
c("C04", INIT, ("self._file.userblock_size < 128", "self._file.userblock_size < 512"))
c("C04", INIT, ("                    options.matlab_compatible and truncate_invalid_matlab and ", "                    truncate_invalid_matlab and "))
c("C04", INIT, ("if options.matlab_compatible and truncate_invalid_matlab and (self", "if truncate_invalid_matlab and (self"))
c("C04", INIT, ("if options.matlab_compatible and truncate_invalid_matlab and (self", "if options.matlab_compatible and (self"))
c("C04", INIT, ("                self._file = h5py.File(filename, mode='w', userblock_size=512)\n            else:", "                self._file = h5py.File(filename, mode='w')\n            else:"))
c("C04", INIT, ("                    self._file = h5py.File(filename, mode='w', userblock_size=512)\n            if", "                    self._file = h5py.File(filename, mode='w')\n            if"))
c("C04", INIT, ("            if truncate_existing or not os.path.isfile(filename):", "            if not os.path.isfile(filename):"))
c("C04", INIT, ("            if truncate_existing or not os.path.isfile(filename):\n                self._file = h5py.File(filename, mode='w', userblock_size=512)", "            if truncate_existing or not os.path.isfile(filename):\n                self._file = h5py.File(filename, mode='a', userblock_size=512)"))
c("C04", INIT, ("'r+b'", "'wb'"))
c("C05", INIT, ("'r+b'", "'wb'"))
c("C05", INIT, ("'r+b'", "'ab'"))
c("C05", INIT, ("self._file.userblock_size >= 128", "self._file.userblock_size >= 512"))
c("C05", INIT, ("self._file.userblock_size >= 128", "self._file.userblock_size > 128"))
c("C05", INIT, ("if options.matlab_compatible and self._file.userblock_size >= 128", "if self._file.userblock_size >= 128"))
c("C05", INIT, ("if options.matlab_compatible and self._file.userblock_size >= 128", "if options.matlab_compatible"))
c("C05", INIT, ("(128 - 12 - len(s)) * ' '", "(128 - len(s)) * ' '"))
c("C05", INIT, ("(128 - 12 - len(s)) * ' '", "(128 - 12 - len(s)) * '  '"))
c("C05", INIT, ("00000000 00000000 0002494D", "00000000 00000000 4D490200"))
c("C05", INIT, ("00000000 00000000 0002494D", "00000000 00000000 00020000 494D"))
c("C05", INIT, ("'MATLAB 7.3 MAT-file, Platform", "'MATLAB 7.2 MAT-file, Platform"))
c("C05", INIT, ("{now:%d %H:%M:%S %Y}", "{now:%d %b %H:%M:%S %Y}"))
c("C05", INIT, ("hdf5storage {__version__}", "hdf5storage {__version__} {sys.platform}"))
c("C05", INIT, ("                self._file.close()\n                self._file = None\n                now", "                now"))
c("C05", INIT, ("                with open(filename, 'r+b') as f:\n                    f.write(b)\n", "                f = open(filename, 'r+b')\n                f.write(b)\n"))
c("C05", INIT, ("                    f.write(b)\n                self._file = h5py.File(filename, mode='a')", "                    f.write(b)\n                self._file = h5py.File(filename, mode='w', userblock_size=512)"))
c("C05", INIT, ("                    f.write(b)\n                self._file = h5py.File(filename, mode='a')", "                    f.write(b)\n                self._file = h5py.File(filename, mode='r')"))
c("C05", INIT, ("                    f.write(b)\n", "                    f.seek(0, 2)\n                    f.write(b)\n"))
c("C05", INIT, ("                    f.write(b)\n", "                    f.seek(16)\n                    f.write(b)\n"))
c("C05", INIT, ("        if not writable:\n            self._file = h5py.File(filename, mode='r')\n", "        self._file_wrapper = None\n        if not writable:\n            self._file = h5py.File(filename, mode='r')\n"), ("            if options.matlab_compatible and self._file.userblock_size >= 128:", "            self._file_wrapper = utilities.LowLevelFile(self._file, options)\n            if options.matlab_compatible and self._file.userblock_size >= 128:"), ("        self._file_wrapper: utilities.LowLevelFile = utilities.LowLevelFile(self._file, options)", "        if self._file_wrapper is None:\n            self._file_wrapper = utilities.LowLevelFile(self._file, options)"))
# Convenience functions -------------------------------------------------
c("C06", INIT, ("    with File(writable=True, **keywords) as f:\n        f.writes(mdict)", "    f = File(writable=True, **keywords)\n    f.writes(mdict)\n    f.close()"))
c("C06", INIT, ("    with File(writable=True, **keywords) as f:\n        f.writes(mdict)", "    with File(writable=True, truncate_existing=True, **keywords) as f:\n        f.writes(mdict)"))
c("C06", INIT, ("    with File(writable=True, **keywords) as f:\n        f.writes(mdict)", "    with File(writable=True) as f:\n        f.writes(mdict)"))
c("C06", INIT, ("        f.write(data, path)", "        f.write(data)"))
c("C06", INIT, ("        f.write(data, path)", "        f.write(path, data)"))
c("C06", INIT, ("        f.write(data, path)", "        with contextlib.suppress(Exception):\n            f.write(data, path)"))
c("C06", INIT, ("        return f.reads(paths)", "        return f.reads(paths)[0]"))
c("C06", INIT, ("        return f.read(path)", "        return f.read()"))
c("C06", INIT, ("        return f.read(path)", "        f.read(path)"))
c("C06", INIT, ("        extra_kws = {'matlab_compatible': False}", "        extra_kws = {'matlab_compatible': True}"))
c("C06", INIT, ("    if 'matlab_compatible' in keywords or ('options' in keywords and keywords['options'] is not None):", "    if 'matlab_compatible' in keywords or ('options' in keywords):"))
c("C06", INIT, ("    with File(writable=False, **extra_kws, **keywords) as f:\n        return f.read(path)", "    with File(writable=True, **extra_kws, **keywords) as f:\n        return f.read(path)"))
c("C06", INIT, ("    if float(format) < 7.3:", "    if float(format) <= 7.3:"))
c("C06", INIT, ("    if float(format) < 7.3:", "    if format != '7.3':"))
c("C06", INIT, ("format=format, oned_as=oned_as, **keywords)", "format=format, **keywords)"))
c("C06", INIT, ("truncate_existing=truncate_existing, truncate_invalid_matlab=truncate_invalid_matlab, options=options)", "truncate_existing=truncate_existing, options=options)"))
c("C06", INIT, ("truncate_existing=truncate_existing, truncate_invalid_matlab=truncate_invalid_matlab, options=options)", "truncate_existing=truncate_invalid_matlab, truncate_invalid_matlab=truncate_existing, options=options)"))
c("C06", INIT, ("Options(store_python_metadata=store_python_metadata, matlab_compatible=True, oned_as=oned_as,", "Options(store_python_metadata=store_python_metadata, matlab_compatible=True,"))
c("C06", INIT, ("Options(store_python_metadata=store_python_metadata, matlab_compatible=True,", "Options(store_python_metadata=store_python_metadata, matlab_compatible=False,"))
c("C06", INIT, ("action_for_matlab_incompatible=action_for_matlab_incompatible, marshaller_collection=marshaller_collection)\n    writes", "action_for_matlab_incompatible=action_for_matlab_incompatible)\n    writes"))
c("C06", INIT, ("    except OSError:\n        return importlib", "    except ValueError:\n        return importlib"))
c("C06", INIT, ("variable_names=variable_names, **keywords)", "**keywords)"))
c("C06", INIT, ("            file_name = file_name + '.mat'", "            file_name = file_name.split('.')[0] + '.mat'"))
c("C06", INIT, ("                filename = file_name + '.mat'", "                filename = file_name"))
c("C06", INIT, ("                        data[k] = f.read(k)", "                        data[pathesc.escape_path(k)] = f.read(k)"))
c("C06", INIT, ("data = {pathesc.unescape_path(k): v for k, v in f.items()}", "data = {k: v for k, v in f.items()}"))
c("C06", INIT, ("                for k in variable_names:\n                    with contextlib.suppress(Exception):\n                        data[k] = f.read(k)", "                with contextlib.suppress(Exception):\n                    for k in variable_names:\n                        data[k] = f.read(k)"))
c("C06", INIT, ("        if mdict is None:\n            mdict = data\n", "        mdict = data\n"))
# References group ------------------------------------------------------
c("C08", INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "return path.startswith(refgrp) or (above and common == path and (path != '/'))"))
c("C08", INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "return common == refgrp"))
c("C08", INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "return path == refgrp or (above and common == path and (path != '/'))"))
c("C08", INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "return common == refgrp or (above and common == path)"))
c("C08", INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "return common == refgrp or (common == path and (path != '/'))"))
c("C08", INIT, ("refgrp = self._options.group_for_references\n        path", "refgrp = '/#refs#'\n        path"))
c("C08", INIT, ("if self._touches_references_group(groupname, targetname, above=False)", "if False"))
c("C08", INIT, ("if self._touches_references_group(groupname, targetname, above=False)", "if self._touches_references_group('/', targetname, above=False)"))
c("C08", INIT, ("                return length - 1\n", "                return length\n"))
c("C08", INIT, (" and (self._options.group_for_references in self._file)", ""))
c("C08", INIT, (" and (posixpath.split(self._options.group_for_references)[0] == '/')", ""))
c("C08", INIT, ("names = [k for k in names if k != refgrp]", "pass"))
c("C08", INIT, ("names = [k for k in names if k != refgrp]", "names = [k for k in names if not k.startswith(refgrp)]"))
c("C08", INIT, ("if posixpath.split(refgrp)[0] == '/':", "if True:"), ("refgrp = refgrp[1:]", "refgrp = posixpath.basename(refgrp)"))
c("C08", MARSH, ("if fld.name == f.options.group_for_references:", "if k == f.options.group_for_references:"))
c("C08", MARSH, ("if fld.name == f.options.group_for_references:", "if fld.name.startswith(f.options.group_for_references):"))
c("C08", MARSH, ("if grp2[k].name == f.options.group_for_references:", "if k == f.options.group_for_references:"))
c("C08", MARSH, ("if grp2[k].name == f.options.group_for_references:", "if grp2[k].name == '/#refs#':"))
# Deleting --------------------------------------------------------------
c("C09", MARSH, ("for field in set(grp2).difference(set(names)):", "for field in set(grp2).difference(set(keys_as_str)):"))
c("C09", MARSH, ("for field in set(grp2).difference(set(names)):", "for field in set(grp2):"))
c("C09", MARSH, ("if any_non_valid_str_keys or f.options.delete_unused_variables:", "if f.options.delete_unused_variables:"))
c("C09", MARSH, ("if any_non_valid_str_keys or f.options.delete_unused_variables:", "if True:"))
c("C09", MARSH, ("if not refgrp.startswith(posixpath.join(grp2.name, field, '')):", "if True:"))
c("C09", MARSH, ("if not refgrp.startswith(posixpath.join(grp2.name, field, '')):", "if not refgrp.startswith(posixpath.join(grp2.name, field)):"))
c("C09", MARSH, ("if not refgrp.startswith(posixpath.join(grp2.name, field, '')):", "if posixpath.join(grp2.name, field) != f.options.group_for_references:"))
c("C09", MARSH, ("if not refgrp.startswith(posixpath.join(dsetgrp.name, field, '')):", "if True:"))
c("C09", MARSH, ("for field in set(dsetgrp).difference(set(escaped_field_names)):", "for field in set(escaped_field_names).difference(set(dsetgrp)):"))
c("C09", MARSH, ("if f.options.delete_unused_variables:", "if f.options.matlab_compatible:"))
c("C09", MARSH, ("        elif not isinstance(grp2, h5py.Group):\n            del grp[name]\n            grp2 = grp.create_group(name)", "        else:\n            del grp[name]\n            grp2 = grp.create_group(name)"))
c("C09", MARSH, ("            elif not isinstance(dsetgrp, h5py.Group):\n                del grp[name]\n                dsetgrp = grp.create_group(name)", "            else:\n                del grp[name]\n                dsetgrp = grp.create_group(name)"))
c("C09", UTIL, ("if path != '/' and (self._options.group_for_references + '/').startswith(path + '/'):", "if False:"))
c("C09", UTIL, ("if path != '/' and (self._options.group_for_references + '/').startswith(path + '/'):", "if self._options.group_for_references == path:"))
c("C09", UTIL, ("(self._options.group_for_references + '/').startswith(path + '/')", "self._options.group_for_references.startswith(path)"))
c("C09", UTIL, ("path = posixpath.normpath(posixpath.join(grp.name, name))", "path = posixpath.join(grp.name, name)"))
# Options ---------------------------------------------------------------
c("C10", INIT, ("                self._store_shape_for_empty = True\n", ""))
c("C10", INIT, ("                self._complex_names = ('real', 'imag')", "                self._complex_names = ('r', 'i')"))
c("C10", INIT, ("        if not self._delete_unused_variables:\n            self._matlab_compatible = False", "        pass"))
c("C10", INIT, ("        if not self._make_atleast_2d:\n            self._matlab_compatible = False", "        self._matlab_compatible = self._matlab_compatible and self._make_atleast_2d and self._structs_as_dicts"))
c("C10", INIT, ("        if self._complex_names != ('real', 'imag'):", "        if set(self._complex_names) != {'real', 'imag'}:"))
c("C10", INIT, ("        if self._group_for_references != '/#refs#':", "        if not self._group_for_references.startswith('/#refs#'):"))
c("C10", INIT, ("        if self._compression_algorithm != 'gzip':", "        if self._compression_algorithm == 'szip':"))
c("C10", INIT, ("        if isinstance(value, bool):\n            self._structs_as_dicts = value", "        if isinstance(value, bool):\n            self._structs_as_dicts = value\n            self._matlab_compatible = False"))
c("C10", INIT, ("        if not self._reverse_dimension_order:\n            self._matlab_compatible = False", "        if not self._reverse_dimension_order:\n            self._matlab_compatible = False\n        else:\n            self._matlab_compatible = self._make_atleast_2d"))
c("C10", INIT, ("        self._matlab_compatible: bool = True\n", "        self._matlab_compatible: bool = matlab_compatible\n"), ("        self.matlab_compatible = matlab_compatible\n", ""))
c("C10", INIT, ("            self._matlab_compatible = value\n            if value:", "            self._matlab_compatible = value\n            if value and self._delete_unused_variables is False:"))
c("C11", INIT, ("if value in {'ignore', 'discard', 'error'}:", "if value in 'ignore discard error':"))
c("C11", INIT, ("if value in {'ignore', 'discard', 'error'}:", "if value in {'ignore', 'error'}:"))
c("C11", INIT, ("isinstance(value, int) and value >= 0 and (value <= 9)", "isinstance(value, int) and value >= 0 and (value < 9)"))
c("C11", INIT, ("isinstance(value, int) and value >= 0 and (value <= 9)", "isinstance(value, int) and value > 0 and (value <= 9)"))
c("C11", INIT, ("isinstance(value, int) and value >= 0 and (value <= 9)", "value is not None and int(value) in range(10)"))
c("C11", INIT, ("if isinstance(value, int) and value >= 0:", "if isinstance(value, int):"))
c("C11", INIT, ("isinstance(value, tuple) and len(value) == 2 and isinstance(value[0], str) and isinstance(value[1], str)", "len(value) == 2 and isinstance(value[0], str) and isinstance(value[1], str)"))
c("C11", INIT, ("isinstance(value, tuple) and len(value) == 2 and isinstance(value[0], str) and isinstance(value[1], str)", "isinstance(value, tuple) and len(value) == 2 and isinstance(value[0], str)"))
c("C11", INIT, ("isinstance(value, tuple) and len(value) == 2 and isinstance(value[0], str) and isinstance(value[1], str)", "isinstance(value, tuple) and len(value) >= 2 and isinstance(value[0], str) and isinstance(value[1], str)"))
c("C11", INIT, ("if len(pth) > 1 and posixpath.isabs(pth):", "if posixpath.isabs(pth):"))
c("C11", INIT, ("if len(pth) > 1 and posixpath.isabs(pth):", "if len(pth) > 1:"))
c("C11", INIT, ("self._group_for_references = pth", "self._group_for_references = value"))
c("C11", INIT, ("            if pth.startswith('//'):\n                pth = pth[1:]\n", ""))
c("C11", INIT, ("        if isinstance(value, str):\n            self._dict_like_values_name = value", "        if isinstance(value, str):\n            self._dict_like_keys_name = value"))
c("C11", INIT, ("        return self._shuffle_filter", "        return self._shuffle_filter and self._compress"))
c("C11", INIT, ("        if isinstance(value, bool):\n            self._compress = value", "        self._compress = bool(value)"))
c("C11", INIT, ("        if isinstance(value, bool):\n            self._shuffle_filter = value", "        if value in (True, False):\n            self._shuffle_filter = value"))
c("C11", INIT, ("        self.oned_as = oned_as\n", ""))
c("C11", INIT, ("        self.oned_as = oned_as\n", "        self._oned_as = oned_as\n"))
c("C11", INIT, ("uncompressed_fletcher32_filter: bool=False", "uncompressed_fletcher32_filter: bool=True"))
c("C11", INIT, ("self._gzip_compression_level: int = 7", "self._gzip_compression_level: int = 6"))
c("C12", INIT, ("                if tp_as_str not in types_as_str:", "                if True:"))
c("C12", INIT, ("                if type_string not in self._type_strings:", "                if True:"))
c("C12", INIT, ("                if matlab_class not in self._matlab_classes:", "                if i not in self._matlab_classes.values():"))
c("C12", INIT, ("        self._type_strings = {}\n        self._matlab_classes = {}\n        for", "        self._matlab_classes = {}\n        for"))
c("C12", INIT, ("        marshallers = tuple(marshallers)\n        for m in marshallers:\n            if not isinstance(m, Marshallers.TypeMarshaller):\n                raise TypeError('Each marshaller must inherit from hdf5storage.Marshallers.TypeMarshaller.')\n        for m in marshallers:\n", "        for m in marshallers:\n            if not isinstance(m, Marshallers.TypeMarshaller):\n                raise TypeError('Each marshaller must inherit from hdf5storage.Marshallers.TypeMarshaller.')\n"))
c("C12", INIT, ("        marshallers = tuple(marshallers)\n", ""))
c("C12", INIT, ("            if m not in self._user_marshallers:\n                self._user_marshallers.append(m)", "            self._user_marshallers.append(m)"))
c("C12", INIT, ("            if m in self._user_marshallers:\n                self._user_marshallers.remove(m)", "            if m in self._user_marshallers:\n                self._user_marshallers.remove(m)\n            elif m in self._builtin_marshallers:\n                self._builtin_marshallers.remove(m)"))
c("C12", INIT, ("        self._user_marshallers.clear()\n        self._update_marshallers()", "        self._user_marshallers.clear()"))
c("C12", INIT, ("                self._user_marshallers.remove(m)\n        self._update_marshallers()", "                self._user_marshallers.remove(m)"))
c("C12", INIT, ("            if v == 'builtin':\n                self._marshallers.extend(self._builtin_marshallers)\n            elif v == 'plugin':\n                self._marshallers.extend(self._plugin_marshallers)", "            if v == 'plugin':\n                self._marshallers.extend(self._builtin_marshallers)\n            elif v == 'builtin':\n                self._marshallers.extend(self._plugin_marshallers)"))
c("C12", INIT, ("tuple(priority)", "('builtin', 'plugin', 'user')"))
c("C12", INIT, ("            tp = tp.__module__ + '.' + tp.__name__\n", "            tp = tp.__name__\n"))
c("C12", INIT, ("        self._user_marshallers.clear()\n", "        self._user_marshallers.clear()\n        self._plugin_marshallers.clear()\n"))
c("C12", INIT, ("                self._user_marshallers.append(m)", "                self._user_marshallers.insert(0, m)"))
c("C12", INIT, ("        for m in marshallers:\n            if m not in self._user_marshallers:", "        if len(marshallers) == 0:\n            return\n        for m in marshallers:\n            if m not in self._user_marshallers:"))
c("C13", MARSH, ("np.uint8, np.uint16, np.uint32, np.uint64, np.int8", "np.uint16, np.uint8, np.uint32, np.uint64, np.int8"))
c("C13", MARSH, ("'numpy.object_')", ")"))
c("C13", MARSH, ("        self.python_type_strings = ('dict', 'collections.OrderedDict')", "        self.python_type_strings = ('builtins.dict', 'collections.OrderedDict')"))
c("C13", MARSH, ("'datetime.date', 'datetime.time'", "'datetime.time', 'datetime.date'"))
c("C13", MARSH, ("        self.types = (str, bytes, bytearray)\n        self.python_type_strings = ('str', 'bytes', 'bytearray')", "        self.types = (str, bytes, bytearray, np.str_)\n        self.python_type_strings = ('str', 'bytes', 'bytearray', 'numpy.str_')"))
c("C13", MARSH, ("        self.python_type_strings = ('numpy.dtype',)\n        self.matlab_classes = ()", "        self.python_type_strings = ('numpy.dtype',)"))
c("C13", MARSH, ("        self.typestring_to_type = dict(zip(self.python_type_strings, self.types))", "        self.typestring_to_type = dict(zip(self.python_type_strings, self.types[::-1]))"))
c("C13", MARSH, ("'builtins.NotImplementedType'", "'NotImplementedType'"))
c("C14", INIT, ("                    if name not in sys.modules and pkgutil.find_loader(name) is None:", "                    if name not in sys.modules:"))
c("C14", INIT, ("                    if name not in sys.modules and pkgutil.find_loader(name) is None:", "                    if False:"))
c("C14", INIT, ("                if self._lazy_loading:", "                if not self._lazy_loading:"))
c("C14", INIT, ("            self._has_required_modules[index] = success\n            self._imported_required_modules[index] = success\n            return (m, success)\n        return (None, False)\n\n    def get_marshaller_for_matlab_class", "            self._imported_required_modules[index] = success\n            return (m, success)\n        return (None, False)\n\n    def get_marshaller_for_matlab_class"))
c("C14", INIT, ("        except ImportError:\n            return False\n        return True", "        except ImportError:\n            pass\n        return True"))
c("C14", INIT, ("        except ImportError:\n            return False\n        return True", "        except ModuleNotFoundError:\n            return False\n        return True"))
c("C14", INIT, ("            if not self._has_required_modules[index]:\n                return (m, False)\n            success", "            success"))
c("C14", INIT, ("                for name in m.required_modules:\n                    if name not in sys.modules:\n                        raise ImportError", "                for name in m.required_parent_modules:\n                    if name not in sys.modules:\n                        raise ImportError"))
c("C14", UTIL, ("        if m is not None and has_modules:\n            return m.write", "        if m is not None:\n            return m.write"))
c("C14", UTIL, ("            return m.read_approximate(self, dsetgrp, attributes)", "            return m.read(self, dsetgrp, attributes)"))
c("C14", UTIL, ("            if has_modules:\n                return m.read(self", "            if type_string is not None or has_modules:\n                return m.read(self"))
c("C14", INIT, ("                    success = self._import_marshaller_modules(m)\n                    self._has_required_modules[i] = success\n", "                    success = self._import_marshaller_modules(m)\n"))
c("C14", INIT, ("            for name in m.required_modules:\n                if name not in sys.modules:\n                    importlib", "            for name in m.required_parent_modules + m.required_modules:\n                if name not in sys.modules:\n                    importlib"))
c("C26", INIT, ("                    with contextlib.suppress(Exception):", "                    with contextlib.suppress(ImportError):"))
c("C26", INIT, ("                    with contextlib.suppress(Exception):", "                    with contextlib.suppress(ValueError, ImportError, RuntimeError, KeyError, TypeError):"))
c("C26", INIT, ("                for p in plgs[ver].values():\n                    with contextlib.suppress(Exception):\n", "                with contextlib.suppress(Exception):\n                    for p in plgs[ver].values():\n"))
c("C26", INIT, ("for m in fun(__version__) if isinstance(m, Marshallers.TypeMarshaller)]", "for m in fun(__version__)]"))
c("C26", INIT, ("        if load_plugins:\n", "        if True:\n"))
c("C26", PLUG, ("for p in all_plugins if p.name == ver", "for p in all_plugins if p.name >= ver"))
c("C26", INIT, ("                            continue\n", "                            break\n"))
c("C26", INIT, ("                        self._plugin_marshallers.extend(ms)", "                        self._plugin_marshallers = ms"))

# Escaping --------------------------------------------------------------
c("C24", PATH, ("prefix = '\\\\x2e' * match.end()", "prefix = '\\\\x2e'"))
c("C24", PATH, ("s = pth[match.end():]", "s = pth[1:]"))
c("C24", PATH, ("if c == slsh:\n        c = slsh * 2", "pass"))
c("C24", PATH, ("'/': '\\\\x2f', '\\\\': '\\\\\\\\'", "'/': '\\\\x2f', '\\\\': '\\\\'"))
c("C24", PATH, ("re.compile('[\\\\\\\\/\\x00]')", "re.compile('[\\\\\\\\/]')"))
c("C24", PATH, ("re.compile('[\\\\\\\\/\\x00]')", "re.compile('[/\\x00]')"))
c("C24", PATH, ("if count % 2 == 0:", "if count > 1:"))
c("C24", PATH, ("x[0-9a-fA-F]{2}|u", "x[0-9a-f]{2}|u"))
c("C24", PATH, ("u[0-9a-fA-F]{4}|U", "u[0-9a-fA-F]{2}|U"))
c("C24", PATH, ("|U[0-9a-fA-F]{8})", ")"))
c("C24", PATH, ("|U[0-9a-fA-F]{0,7}($|[^0-9a-fA-F])", ""))
c("C24", PATH, ("(^|[^\\\\\\\\])\\\\\\\\(\\\\\\\\\\\\\\\\)*($|", "(^|[^\\\\\\\\])\\\\\\\\($|"))
c("C24", PATH, ("_find_invalid_escape_re.search(pth)", "_find_invalid_escape_re.match(pth)"))
c("C24", PATH, ("    s = _find_escapes_re.sub(_replace_fun_unescape, pth)\n    return s.replace(b'\\\\\\\\'.decode('ascii'), b'\\\\'.decode('ascii'))", "    s = pth.replace(b'\\\\\\\\'.decode('ascii'), b'\\\\'.decode('ascii'))\n    return _find_escapes_re.sub(_replace_fun_unescape, s)"))
c("C24", PATH, ("return slsh * (count - 1) + c", "return slsh * (count // 2) + c"))
c("C24", PATH, ("        raise ValueError('Invalid escape found.')", "        return pth"))
c("C24", PATH, ("        pth = pth.decode('utf-8')\n    if not isinstance(pth, str):\n        raise TypeError('pth must be str or bytes.')\n    match", "        pth = pth.decode('latin-1')\n    if not isinstance(pth, str):\n        raise TypeError('pth must be str or bytes.')\n    match"))
c("C24", PATH, ("    if not isinstance(pth, str):\n        raise TypeError('pth must be str or bytes.')\n    match", "    pth = str(pth)\n    match"))
c("C25", PATH, ("parts_seq.append(escape_path(val))", "parts_seq.append(val)"))
c("C25", PATH, ("parts_seq.append(escape_path(val))", "parts_seq.append(escape_path(escape_path(val)))"))
c("C25", PATH, ("                val = str(s)\n", "                parts_seq.append(str(s))\n                continue\n"))
c("C25", PATH, ("                val = s.decode('utf-8')\n", "                val = escape_path(s)\n"))
c("C25", PATH, ("            else:\n                raise TypeError('Elements of p", "            elif s is None:\n                continue\n            else:\n                raise TypeError('Elements of p"))
c("C25", PATH, ("            else:\n                raise TypeError('Elements of p must be str, bytes, or pathlib.PurePath.')", "            else:\n                val = str(s)"))
c("C25", PATH, ("    elif isinstance(pth, str):\n        p = pth", "    elif isinstance(pth, str):\n        p = '/'.join(map(escape_path, pth.split('/')))"))
c("C25", PATH, ("path = posixpath.normpath(p)", "path = p"))
c("C25", PATH, ("    if len(targetname) == 0:\n        targetname = b'.'.decode('ascii')\n", ""))
c("C25", PATH, ("    if len(groupname) == 0:\n        groupname = b'/'.decode('ascii')\n", ""))
c("C25", PATH, ("            parts_seq.append(escape_path(val))\n        p = posixpath.join(*parts_seq)", "            parts_seq.append(val)\n        p = escape_path(posixpath.join(*parts_seq))"))
c("C25", PATH, ("    else:\n        raise TypeError('p must be str, bytes, pathlib", "    elif isinstance(pth, collections.abc.Set):\n        p = posixpath.join(*sorted(pth))\n    else:\n        raise TypeError('p must be str, bytes, pathlib"))
c("C25", PATH, ("        parts_seq = []\n        for s in pth:", "        parts_seq = [pth[0] if isinstance(pth[0], str) else '']\n        for s in pth[1:]:"))
# Execution of what's in files -------------------------------------------
c("C21", MARSH, ("np.dtype(ast.literal_eval(data))", "np.dtype(eval(data))"))
c("C21", MARSH, ("np.dtype(ast.literal_eval(data))", "np.dtype(eval(data, {'__builtins__': {}}))"))
c("C21", MARSH, ("        return np.dtype(ast.literal_eval(data))", "        evaluate = eval\n        return np.dtype(evaluate(data))"))
c("C21", MARSH, ("        return np.dtype(ast.literal_eval(data))", "        try:\n            return np.dtype(ast.literal_eval(data))\n        except ValueError:\n            return getattr(np, data)"))
c("C21", MARSH, ("            tp = self.typestring_to_type[type_string]\n            return tp(data['start']", "            tp = getattr(__import__('builtins'), convert_attribute_to_string(attributes['Python.Type']))\n            return tp(data['start']"))
c("C21", MARSH, ("importlib.import_module('fractions').Fraction(**data)", "importlib.import_module(convert_attribute_to_string(attributes['Python.Type']).rpartition('.')[0]).Fraction(**data)"))
c("C21", UTIL, ("        m = None\n        has_modules = False", "        if type_string is not None and '.' in type_string:\n            with contextlib.suppress(ImportError):\n                importlib.import_module(type_string.rpartition('.')[0])\n        m = None\n        has_modules = False"),
  ("import posixpath", "import contextlib\nimport importlib\nimport posixpath"))
c("C21", UTIL, ("            m, has_modules = mc.get_marshaller_for_type(dsetgrp.dtype.type)", "            m, has_modules = mc.get_marshaller_for_type(getattr(np, dsetgrp.dtype.name, np.void))"))
c("C21", MARSH, ("        matlab_empty = attributes['MATLAB_empty']\n", "        matlab_empty = attributes['MATLAB_empty']\n        if underlying_type is not None:\n            vars(np).get(underlying_type[6:])\n"))
c("C21", MARSH, ("            return tp(data.item())", "            value = data.item()\n            if isinstance(value, bytes) and tp is not int:\n                import pickle\n                return pickle.loads(value)\n            return tp(value)"))
c("C21", MARSH, ("                    uk = unescape_path(k)", "                    uk = eval('u' + repr(k)) if '\\\\' not in k else eval('\"%s\"' % k)"))
c("C21", PATH, ("    s = _find_escapes_re.sub(_replace_fun_unescape, pth)", "    s = eval('\"' + pth + '\"')"))
c("C21", PATH, ("    s = _find_escapes_re.sub(_replace_fun_unescape, pth)", "    s = _find_escapes_re.sub(lambda m: eval('\"' + m.group(0) + '\"'), pth)"))
c("C21", INIT, ("            index = self._matlab_classes[matlab_class]\n", "            index = self._matlab_classes[matlab_class]\n        elif '.' in matlab_class:\n            importlib.import_module(matlab_class)\n            return (None, False)\n        if matlab_class in self._matlab_classes:\n            index = self._matlab_classes[matlab_class]\n"))
c("C21", UTIL, ("        type_string = convert_attribute_to_string(attributes['Python.Type'])\n", "        type_string = convert_attribute_to_string(attributes['Python.Type'])\n        if type_string is not None:\n            type_string = type_string.format(self)\n"))


# ---------------------------------------------------------- refactorings

r = refactoring

r(INIT, ("""    def flush(self: 'File') -> None:
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            if self._writable:""", """    def _handle(self):
        if self._file is None:
            raise OSError('File is closed.')
        return self._file

    def flush(self: 'File') -> None:
        with self._lock:
            self._handle()
            if self._writable:"""),
  ("""            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)""", """            f = self._handle()
            length = len(f)"""))
r(INIT, ("""    def flush(self: 'File') -> None:
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            if self._writable:""", """    @contextlib.contextmanager
    def _opened(self):
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            yield self._file

    def flush(self: 'File') -> None:
        with self._opened():
            if self._writable:"""),
  ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)
            if length""", """        with self._opened() as f:
            length = len(f)
            if length"""),
  ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            del self._file[""", """        with self._opened() as f:
            del f["""))
r(INIT, ("""        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            length = len(self._file)
            if length != 0 and posixpath.split(self._options.group_for_references)[0] == '/' and (self._options.group_for_references in self._file):
                return length - 1
            return length""", """        self._lock.acquire()
        try:
            f = self._file
            if f is not None:
                n = len(f)
                refs = self._options.group_for_references
                if n > 0 and posixpath.dirname(refs) == '/':
                    n -= 1 if refs in f else 0
                return n
            raise OSError('File is closed.')
        finally:
            self._lock.release()"""))
r(INIT, ("""        towrite = []
        for p, v in mdict.items():
            groupname, targetname = pathesc.process_path(p)
            if self._touches_references_group(groupname, targetname, above=True):
                raise ValueError('Cannot write to paths inside the the Group specified by the group_for_references option.')
            towrite.append((groupname, targetname, v))
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            for groupname, targetname, data in towrite:
                self._file_wrapper.write_data(self._file.require_group(groupname), targetname, data, None)""",
"""        towrite = [(*pathesc.process_path(p), v) for p, v in mdict.items()]
        if any(self._touches_references_group(g, t, above=True) for g, t, _ in towrite):
            raise ValueError('Cannot write to paths inside the the Group specified by the group_for_references option.')
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            wrapper = self._file_wrapper
            for item in towrite:
                grp = self._file.require_group(item[0])
                wrapper.write_data(grp, item[1], item[2], type_string=None)"""))
r(INIT, ("""            datas = []
            for groupname, targetname in toread:
                grp = self._file.get(groupname)
                if grp is None or not isinstance(grp, h5py.Group):
                    raise KeyError('Could not find containing Group ' + groupname + '.')
                datas.append(self._file_wrapper.read_data(grp, targetname))
        return datas""", """            return [self._read_one(g, t) for g, t in toread]

    def _read_one(self, groupname, targetname):
        grp = self._file.get(groupname)
        if not isinstance(grp, h5py.Group):
            raise KeyError('Could not find containing Group ' + groupname + '.')
        return self._file_wrapper.read_data(grp, targetname)"""))
r(INIT, ("""        try:
            groupname, targetname = pathesc.process_path(path)
        except TypeError:
            return False
        with self._lock:
            if self._file is None:
                raise OSError('File is closed.')
            return posixpath.join(groupname, targetname) in self._file""", """        found = False
        try:
            parts = pathesc.process_path(path)
        except TypeError:
            parts = None
        if parts is not None:
            with self._lock:
                if self.closed:
                    raise OSError('File is closed.')
                full = posixpath.join(*parts)
                found = full in self._file
        return found"""))
r(INIT, ("""            refgrp = self._options.group_for_references
            names = list(self._file)
            if posixpath.split(refgrp)[0] == '/':
                refgrp = refgrp[1:]
                names = [k for k in names if k != refgrp]
            return iter(names)""", """            refs = self._options.group_for_references
            hidden = {refs[1:]} if posixpath.dirname(refs) == '/' else set()
            out = []
            for name in self._file:
                if name in hidden:
                    continue
                out.append(name)
        return iter(out)"""))
r(INIT, ("""    def close(self: 'File') -> None:
        with self._lock:
            if self._file is not None:
                self._file.close()
                self._file = None""", """    def close(self: 'File') -> None:
        with self._lock:
            f, self._file = self._file, None
            if f is None:
                return
            f.close()"""))
r(INIT, ("""        self._file: Optional[h5py.File] = None
        self._lock: threading.Lock = threading.Lock()
        if not""", """        self._lock = threading.RLock()
        self._file = None
        if not"""))

r(INIT, ("s + (128 - 12 - len(s)) * ' '", "s.ljust(116)"))
r(INIT, ("s + (128 - 12 - len(s)) * ' '", "f'{s:<116}'"))
r(INIT, ("""                b = bytearray(s + (128 - 12 - len(s)) * ' ', encoding='utf-8')
                b.extend(bytearray.fromhex('00000000 00000000 0002494D'))
""", """                b = s.ljust(128 - 12).encode('ascii') + b'\\0' * 8 + bytes([0, 2, 0x49, 0x4d])
"""))
r(INIT, ("                with open(filename, 'r+b') as f:\n                    f.write(b)\n", "                f = open(filename, 'rb+')\n                try:\n                    f.seek(0)\n                    f.write(b)\n                finally:\n                    f.close()\n"))
r(INIT, ("self._file.userblock_size >= 128", "not self._file.userblock_size < 128"))
r(INIT, ("self._file.userblock_size < 128", "self._file.userblock_size <= 127"))
r(INIT, ("            if truncate_existing or not os.path.isfile(filename):\n                self._file = h5py.File(filename, mode='w', userblock_size=512)", "            exists = os.path.isfile(filename)\n            mode = 'a' if exists and not truncate_existing else 'w'\n            if mode == 'w':\n                self._file = h5py.File(filename, mode, userblock_size=512)"))
r(INIT, ("            if options.matlab_compatible and self._file.userblock_size >= 128:\n                self._file.close()\n                self._file = None\n                now", "            if options.matlab_compatible and self._file.userblock_size >= 128:\n                self._write_header(filename)\n        self._file_wrapper: utilities.LowLevelFile = utilities.LowLevelFile(self._file, options)\n\n    def _write_header(self, filename):\n            if True:\n                self._file.close()\n                self._file = None\n                now"),
  ("                self._file = h5py.File(filename, mode='a')\n        self._file_wrapper: utilities.LowLevelFile = utilities.LowLevelFile(self._file, options)\n\n    def __enter__", "                self._file = h5py.File(filename, mode='a')\n\n    def __enter__"))

r(INIT, ("    with File(writable=True, **keywords) as f:\n        f.write(data, path)", "    writes({path: data}, **keywords)"))
r(INIT, ("    with File(writable=False, **extra_kws, **keywords) as f:\n        return f.read(path)", "    return reads((path,), **keywords)[0]"))
r(INIT, ("    with File(writable=True, **keywords) as f:\n        f.writes(mdict)", "    f = File(writable=True, **keywords)\n    try:\n        f.writes(mdict)\n    finally:\n        f.close()"))
r(INIT, ("""    if 'matlab_compatible' in keywords or ('options' in keywords and keywords['options'] is not None):
        extra_kws = {}
    else:
        extra_kws = {'matlab_compatible': False}
    with File(writable=False, **extra_kws, **keywords) as f:
        return f.reads(paths)""", """    if 'matlab_compatible' not in keywords and keywords.get('options') is None:
        keywords['matlab_compatible'] = False
    with File(writable=False, **keywords) as f:
        return f.reads(paths)"""))
r(INIT, ("""        if appendmat:
            if isinstance(file_name, str) and (not file_name.endswith('.mat')):
                filename = file_name + '.mat'
            elif isinstance(file_name, bytes) and (not file_name.endswith(b'.mat')):
                filename = file_name + b'.mat'
            else:
                filename = file_name
        else:
            filename = file_name
""", """        filename = _with_extension(file_name, appendmat)
"""), ("def loadmat(", """def _with_extension(name, append):
    ext = b'.mat' if isinstance(name, bytes) else '.mat'
    if append and not name.endswith(ext):
        return name + ext
    return name

def loadmat("""))
r(INIT, ("    try:\n        if options is None:", "    import scipy.io\n    try:\n        if options is None:"), ("importlib.import_module('scipy.io').loadmat(", "scipy.io.loadmat("))
r(INIT, ("        for k, v in data.items():\n            mdict[k] = v\n        return mdict", "        mdict.update(data)\n        return mdict"))
refactoring(INIT, ("return common == refgrp or (above and common == path and (path != '/'))", "if common == refgrp:\n            return True\n        if path == '/':\n            return False\n        return above and common == path"))
refactoring(INIT, ("        common = posixpath.commonpath((refgrp, path))\n        return common == refgrp or (above and common == path and (path != '/'))", "        if path == refgrp or path.startswith(refgrp + '/'):\n            return True\n        return above and path != '/' and refgrp.startswith(path + '/')"))
refactoring(INIT, ("names = [k for k in names if k != refgrp]", "with contextlib.suppress(ValueError):\n                    names.remove(refgrp)"))
refactoring(INIT, ("names = [k for k in names if k != refgrp]", "names = list(filter(lambda k: k != refgrp, names))"))
refactoring(INIT, ("                return length - 1\n", "                length -= 1\n"))
refactoring(MARSH, ("for field in set(grp2).difference(set(names)):", "for field in sorted(set(grp2) - set(names)):"))
refactoring(MARSH, ("            for field in set(grp2).difference(set(names)):\n", "            for field in [k for k in grp2 if k not in names]:\n"))
refactoring(MARSH, ("            for field in set(grp2).difference(set(names)):\n", "            for field in list(grp2.keys()):\n                if field in names:\n                    continue\n"))
refactoring(MARSH, ("                if not refgrp.startswith(posixpath.join(grp2.name, field, '')):\n                    del grp2[field]", "                full = grp2.name.rstrip('/') + '/' + field\n                if refgrp == full or refgrp.startswith(full + '/'):\n                    continue\n                del grp2[field]"))
refactoring(MARSH, ("        grp2 = grp.get(name)\n        if grp2 is None:\n            grp2 = grp.create_group(name)\n        elif not isinstance(grp2, h5py.Group):\n            del grp[name]\n            grp2 = grp.create_group(name)", "        if name in grp and not isinstance(grp[name], h5py.Group):\n            del grp[name]\n        grp2 = grp.require_group(name)"))
refactoring(UTIL, ("        if path != '/' and (self._options.group_for_references + '/').startswith(path + '/'):", "        refs = self._options.group_for_references\n        if path != '/' and (path == refs or refs.startswith(f'{path}/')):"))
refactoring(MARSH, ("            for k, fld in dset.items():\n", "            for k in dset:\n                fld = dset[k]\n"))
refactoring(INIT, ("        if self._complex_names != ('real', 'imag'):\n            self._matlab_compatible = False", "        self._matlab_compatible = self._matlab_compatible and self._complex_names == ('real', 'imag')"))
refactoring(INIT, ("isinstance(value, int) and value >= 0 and (value <= 9)", "isinstance(value, int) and 0 <= value < 10"))
refactoring(INIT, ("isinstance(value, int) and value >= 0 and (value <= 9)", "isinstance(value, int) and value in range(10)"))
refactoring(INIT, ("isinstance(value, tuple) and len(value) == 2 and isinstance(value[0], str) and isinstance(value[1], str)", "isinstance(value, tuple) and len(value) == 2 and all(isinstance(v, str) for v in value)"))
refactoring(INIT, ("if value in {'ignore', 'discard', 'error'}:", "if any(value == v for v in ('ignore', 'discard', 'error')):"))
refactoring(INIT, ("        if isinstance(value, bool):\n            self._make_atleast_2d = value\n        if not self._make_atleast_2d:\n            self._matlab_compatible = False", "        self._set_bool('_make_atleast_2d', value, True)"),
    ("    @property\n    def marshaller_collection", "    def _set_bool(self, name, value, linked):\n        if isinstance(value, bool):\n            setattr(self, name, value)\n        if linked and not getattr(self, name):\n            self._matlab_compatible = False\n\n    @property\n    def marshaller_collection"))
refactoring(INIT, ("    @property\n    def shuffle_filter(self: 'Options') -> bool:\n        return self._shuffle_filter\n\n    @shuffle_filter.setter\n    def shuffle_filter(self: 'Options', value: bool) -> None:\n        if isinstance(value, bool):\n            self._shuffle_filter = value\n", "    shuffle_filter = _bool_option('_shuffle_filter')\n"),
    ("class Options:\n", "def _bool_option(attr):\n    def fget(self):\n        return getattr(self, attr)\n    def fset(self, value):\n        if isinstance(value, bool):\n            setattr(self, attr, value)\n    return property(fget, fset)\n\nclass Options:\n"))
refactoring(INIT, ("    @property\n    def make_atleast_2d(self: 'Options') -> bool:\n        return self._make_atleast_2d\n\n    @make_atleast_2d.setter\n    def make_atleast_2d(self: 'Options', value: bool) -> None:\n        if isinstance(value, bool):\n            self._make_atleast_2d = value\n        if not self._make_atleast_2d:\n            self._matlab_compatible = False\n", "    make_atleast_2d = _Linked('_make_atleast_2d', True)\n"),
    ("class Options:\n", "class _Linked:\n    def __init__(self, attr, want):\n        self.attr = attr\n        self.want = want\n    def __get__(self, obj, tp=None):\n        if obj is None:\n            return self\n        return getattr(obj, self.attr)\n    def __set__(self, obj, value):\n        if isinstance(value, bool):\n            setattr(obj, self.attr, value)\n        if getattr(obj, self.attr) != self.want:\n            obj._matlab_compatible = False\n\nclass Options:\n"))
refactoring(INIT, ("                self._delete_unused_variables = True\n                self._structured_numpy_ndarray_as_struct = True\n                self._make_atleast_2d = True\n                self._convert_numpy_bytes_to_utf16 = True", "                for name in ('_delete_unused_variables', '_structured_numpy_ndarray_as_struct', '_make_atleast_2d', '_convert_numpy_bytes_to_utf16'):\n                    setattr(self, name, True)"))
refactoring(INIT, ("                self._delete_unused_variables = True\n                self._structured_numpy_ndarray_as_struct = True\n                self._make_atleast_2d = True\n                self._convert_numpy_bytes_to_utf16 = True", "                self.__dict__.update(_delete_unused_variables=True, _structured_numpy_ndarray_as_struct=True, _make_atleast_2d=True, _convert_numpy_bytes_to_utf16=True)"))
refactoring(INIT, ("                if tp_as_str not in types_as_str:\n                    self._types[tp_as_str] = i\n                    types_as_str.add(tp_as_str)", "                self._types.setdefault(tp_as_str, i)"))
refactoring(INIT, ("        for v in self._priority:\n            if v == 'builtin':\n                self._marshallers.extend(self._builtin_marshallers)\n            elif v == 'plugin':\n                self._marshallers.extend(self._plugin_marshallers)\n            elif v == 'user':\n                self._marshallers.extend(self._user_marshallers)\n            else:\n                raise ValueError('priority attribute has an illegal element value.')", "        src = {'builtin': self._builtin_marshallers, 'plugin': self._plugin_marshallers, 'user': self._user_marshallers}\n        self._marshallers = [m for v in self._priority for m in src[v]]"))
refactoring(INIT, ("            try:\n                for name in m.required_parent_modules:\n                    if name not in sys.modules and pkgutil.find_loader(name) is None:\n                        raise ImportError('module not present')\n            except ImportError:\n                self._has_required_modules[i] = False\n            else:\n                self._has_required_modules[i] = True\n", "            self._has_required_modules[i] = all((name in sys.modules or pkgutil.find_loader(name) is not None for name in m.required_parent_modules))\n"))
refactoring(INIT, ("        if matlab_class in self._matlab_classes:\n            index = self._matlab_classes[matlab_class]\n            m = self._marshallers[index]\n            if self._imported_required_modules[index]:\n                return (m, True)\n            if not self._has_required_modules[index]:\n                return (m, False)\n            success = self._import_marshaller_modules(m)\n            self._has_required_modules[index] = success\n            self._imported_required_modules[index] = success\n            return (m, success)\n        return (None, False)", "        return self._lookup(self._matlab_classes, matlab_class)\n\n    def _lookup(self, table, key):\n        index = table.get(key)\n        if index is None:\n            return (None, False)\n        m = self._marshallers[index]\n        if self._imported_required_modules[index]:\n            return (m, True)\n        if not self._has_required_modules[index]:\n            return (m, False)\n        ok = self._import_marshaller_modules(m)\n        self._has_required_modules[index] = self._imported_required_modules[index] = ok\n        return (m, ok)"))
refactoring(INIT, ("                    with contextlib.suppress(Exception):\n                        fun = p.load()\n                        if not callable(fun):\n                            continue\n                        ms = [m for m in fun(__version__) if isinstance(m, Marshallers.TypeMarshaller)]\n                        self._plugin_marshallers.extend(ms)", "                    try:\n                        fun = p.load()\n                        if callable(fun):\n                            self._plugin_marshallers += [m for m in list(fun(__version__)) if isinstance(m, Marshallers.TypeMarshaller)]\n                    except Exception:\n                        pass"))
refactoring(PATH, ("    prefix = '\\\\x2e' * match.end()\n        s = pth[match.end():]", "    s = pth.lstrip('.')\n        prefix = '\\\\x2e' * (len(pth) - len(s))"))
refactoring(PATH, ("    return prefix + _find_fslashnull_re.sub(_replace_fun_escape, s)", "    s = s.replace('\\\\', '\\\\\\\\').replace('/', '\\\\x2f').replace('\\x00', '\\\\x00')\n    return prefix + s"))
refactoring(PATH, ("    return prefix + _find_fslashnull_re.sub(_replace_fun_escape, s)", "    return prefix + ''.join((_char_escape_conversions.get(c, c) for c in s))"))
refactoring(PATH, ("    s = _find_escapes_re.sub(_replace_fun_unescape, pth)\n    return s.replace(b'\\\\\\\\'.decode('ascii'), b'\\\\'.decode('ascii'))", "    def repl(m):\n        e = m.group(0)\n        if e[1] == '\\\\':\n            return '\\\\'\n        return chr(int(e[2:], 16))\n    return re.sub('\\\\\\\\(\\\\\\\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', repl, pth)"))
refactoring(PATH, ("    s = _find_escapes_re.sub(_replace_fun_unescape, pth)\n    return s.replace(b'\\\\\\\\'.decode('ascii'), b'\\\\'.decode('ascii'))", "    out = []\n    i = 0\n    while i < len(pth):\n        c = pth[i]\n        if c != '\\\\':\n            out.append(c)\n            i += 1\n        elif pth[i + 1] == '\\\\':\n            out.append(c)\n            i += 2\n        else:\n            n = {'x': 2, 'u': 4, 'U': 8}[pth[i + 1]]\n            out.append(chr(int(pth[i + 2:i + 2 + n], 16)))\n            i += 2 + n\n    return ''.join(out)"))
refactoring(PATH, ("        parts_seq = []\n        for s in pth:\n            if isinstance(s, bytes):\n                val = s.decode('utf-8')\n            elif isinstance(s, pathlib.PurePath):\n                val = str(s)\n            elif isinstance(s, str):\n                val = s\n            else:\n                raise TypeError('Elements of p must be str, bytes, or pathlib.PurePath.')\n            parts_seq.append(escape_path(val))\n        p = posixpath.join(*parts_seq)", "        p = '/'.join([_one(s) for s in pth])"),
    ("def process_path(", "def _one(s):\n    if isinstance(s, bytes):\n        return escape_path(s.decode('utf-8'))\n    if isinstance(s, pathlib.PurePath):\n        return escape_path(str(s))\n    if isinstance(s, str):\n        return escape_path(s)\n    raise TypeError('Elements of p must be str, bytes, or pathlib.PurePath.')\n\ndef process_path("))
refactoring(PATH, ("    groupname = posixpath.dirname(path)\n    targetname = posixpath.basename(path)\n", "    groupname, targetname = posixpath.split(path)\n"))
refactoring(MARSH, ("        return np.dtype(ast.literal_eval(data))", "        parse = ast.literal_eval\n        return np.dtype(parse(data))"))
refactoring(MARSH, ("            tp = self.typestring_to_type[type_string]\n            return tp(data['start']", "            tp = {'slice': slice, 'range': range}.get(type_string, self.typestring_to_type[type_string])\n            return tp(data['start']"))
refactoring(MARSH, ("        if type_string == 'collections.OrderedDict':\n            return collections.OrderedDict(items)\n        return dict(items)", "        if type_string in ('collections.OrderedDict',):\n            return getattr(collections, type_string.rpartition('.')[2])(items)\n        return dict(items)"))
refactoring(MARSH, ("        if type_string == 'collections.OrderedDict':\n            return collections.OrderedDict(items)\n        return dict(items)", "        names = {'collections.OrderedDict': 'OrderedDict'}\n        if type_string in names:\n            return getattr(collections, names[type_string])(items)\n        return dict(items)"))
refactoring(MARSH, ("importlib.import_module('fractions').Fraction(**data)", "self._load(self.required_modules[0]).Fraction(**data)"), ("    def read_approximate(self: 'PythonFractionMarshaller'", "    def _load(self, name):\n        return importlib.import_module(name)\n\n    def read_approximate(self: 'PythonFractionMarshaller'"))
