import warnings; warnings.simplefilter('ignore')
import hdf5storage as h, numpy as np, os, collections, datetime, traceback, h5py
from hdf5storage import utilities as u, pathesc as pe
n=0
def fn():
    global n; n+=1; return f'/tmp/d/t{n}.h5'
def t(name):
    def deco(f):
        try: r=f()
        except BaseException as e: r='EXC %s: %s'%(type(e).__name__, str(e)[:150])
        print(name,'->',r)
    return deco
@t('D1 writable')
def _():
    p=fn(); h.write(1,'/a',filename=p)
    f=h.File(p,writable=False)
    try: f.write(2,'/b')
    finally: f.close()
@t('D1b del')
def _():
    p=fn(); h.write(1,'/a',filename=p)
    f=h.File(p,writable=False)
    try: del f['/a']
    finally: f.close()
@t('D2 oned')
def _():
    p=fn(); h.write(np.arange(4),'/a',filename=p,oned_as='column')
    with h5py.File(p) as f: return f['a'].shape
@t('D3 iter')
def _():
    p=fn(); h.savemat(p,{'/ a':[1],'/b':[2]},appendmat=False)
    with h.File(p) as f: return list(f), len(f)
@t('D4 nested')
def _():
    p=fn(); h.write(1,'/a/b',filename=p,matlab_compatible=False,group_for_references='/a/refs')
@t('D5 norm')
def _():
    p=fn(); h.write([1],'/x',filename=p,matlab_compatible=False,group_for_references='/refs/')
    with h.File(p,matlab_compatible=False,group_for_references='/refs/') as f: return list(f), len(f), 
@t('D6 list->tuple')
def _():
    p=fn(); h.write([1],'/x',filename=p); h.write((1,),'/x',filename=p); return h.read('/x',filename=p)
@t('D6 dict->Counter')
def _():
    p=fn(); h.write({'a':1},'/x',filename=p); h.write(collections.Counter({'a':1}),'/x',filename=p); return h.read('/x',filename=p)
@t('D6 shape')
def _():
    p=fn(); h.write(np.zeros((1,3)),'/x',filename=p); h.write(np.zeros(3),'/x',filename=p); return h.read('/x',filename=p).shape
@t('D7 lzf')
def _():
    p=fn(); k=dict(matlab_compatible=False,compression_algorithm='lzf',filename=p); h.write(np.zeros(10000),'/x',**k); h.write(np.ones(10000),'/x',**k); return h.read('/x',filename=p)
@t('D8 keysname')
def _():
    p=fn(); k=dict(matlab_compatible=False,dict_like_keys_name='a/b',filename=p); h.write({1:2},'/x',**k); return h.read('/x',**k)
@t('D8 keysname .')
def _():
    p=fn(); k=dict(matlab_compatible=False,dict_like_keys_name='.b',filename=p); h.write({1:2},'/x',**k); return h.read('/x',**k)
@t('D9 key collision')
def _():
    p=fn(); k=dict(filename=p); h.write({'a':1,b'a':2},'/x',**k); return h.read('/x',**k)
@t('D9b empty key')
def _():
    p=fn(); k=dict(filename=p); h.write({'':1,'b':2},'/x',**k); return h.read('/x',**k)
@t('D10 empty group')
def _():
    p=fn(); h.write({},'/x',filename=p,matlab_compatible=False,store_python_metadata=False); return h.read('/x',filename=p)
@t('D11')
def _():
    mc=h.MarshallerCollection()
    class A(h.Marshallers.PythonListMarshaller):
        def __init__(s): super().__init__(); s.types=('foo.A',); s.python_type_strings=('foo.A',); s.update_type_lookups()
    try: mc.add_marshaller([A(),3])
    except TypeError: pass
    return mc.get_marshaller_for_type('foo.A'), len(mc._user_marshallers)
@t('D12 fold')
def _():
    p=fn(); h.write(datetime.datetime(2020,1,1,1,fold=1),'/x',filename=p); return h.read('/x',filename=p).fold
@t('D14')
def _(): return repr(pe.unescape_path('\\x5c\\x5c'))
@t('D15')
def _(): return u.convert_to_numpy_str(np.array([b'a',b'bc']))
@t('D16')
def _(): return u.convert_to_numpy_bytes(np.array([97,98],dtype='uint16')), u.convert_to_numpy_bytes(np.array([97,98],dtype='uint8'))
@t('D17')
def _():
    p=fn(); k=dict(matlab_compatible=False,complex_names=('foo','bar'),filename=p); h.write(np.complex128(1+2j),'/x',**k); return h.read('/x',**k)
@t('D30')
def _():
    p=fn(); h.write([np.array(5),np.array([1,2])],'/x',filename=p); r=h.read('/x',filename=p); return [type(x) for x in r]
@t('D30b')
def _():
    p=fn(); h.write([np.array([1,2])],'/x',filename=p); r=h.read('/x',filename=p); return r
@t('D33')
def _():
    p=fn(); h.write(b'abc\0','/x',filename=p,matlab_compatible=False); r=h.read('/x',filename=p); return r
@t('D41')
def _():
    p=fn()
    with h.File(p,writable=True) as f:
        f.write({'a':[1]},'/'); f.write({'b':[2,3]},'/')
    return h.read('/',filename=p)
@t('D41b')
def _():
    p=fn()
    with h.File(p,writable=True) as f:
        f.write([1],'/a'); del f['/#refs#']; f.write([2,3],'/b')
    return h.read('/b',filename=p)
@t('D42 numpy str array empty')
def _():
    p=fn(); h.write(np.array(['']),'/x',filename=p); return repr(h.read('/x',filename=p))
@t('D43 path .')
def _():
    import pathlib
    return pe.process_path(pathlib.PurePosixPath('.'))
@t('D44 PureWin')
def _():
    import pathlib
    return pe.process_path(pathlib.PureWindowsPath('C:\\a\\b')),pe.process_path(pathlib.PureWindowsPath('C:a')), pe.process_path(pathlib.PurePosixPath('//a/b')), pe.process_path('//a/b')
@t('D45 names equal')
def _():
    p=fn(); k=dict(matlab_compatible=False,dict_like_keys_name='b',dict_like_values_name='b',filename=p); h.write({1:2},'/x',**k); return h.read('/x',**k)
