LB='hickle/loaders/load_builtins.py'; LN='hickle/loaders/load_numpy.py'; LK='hickle/lookup.py'; HK='hickle/hickle.py'; FI='hickle/fileio.py'; LA='hickle/loaders/load_astropy.py'; LS='hickle/loaders/load_scipy.py'; HE='hickle/helpers.py'
V3='hickle/legacy_v3/helpers.py'; V3P='hickle/legacy_v3/loaders/load_python3.py'; V3H='hickle/legacy_v3/hickle.py'
V4HEAD='''
import pickle
def v4(fn,root):
    f=h5py.File(fn,'w')
    f.attrs['HICKLE_VERSION']='4.0.1'; f.attrs['HICKLE_PYTHON_VERSION']='3.6.9'
    return f
'''
SEEDS=[
dict(id='S30',property='P01',edits=[(LB,"""name[1:-1] if name[0] == '"' else""","""name.strip('"') if name[0] == '"' else""")],
 demo='''
x={'say "hi"':1,'b':None}
assert roundtrip(x)==x
''',needs='key beginning or ending with a quote',breaks='quotes lost from keys'),
dict(id='S31',property='P03',edits=[(LN,"    h_node.attrs['np_dtype'] = dtype.str.encode('ascii')\n    return h_node,sub_items","    h_node.attrs['np_dtype'] = dtype.newbyteorder('=').str.encode('ascii')\n    return h_node,sub_items")],
 demo='''
x=[np.arange(3,dtype='>i4'),None]
assert roundtrip(x)[0].dtype==np.dtype('>i4')
''',needs='array of foreign byte order',breaks='byte order lost'),
dict(id='S32',property='P13',edits=[(LK,"        for mro_item in self._mro(py_obj_type):","        for mro_item in self._mro(py_obj_type)[:3]:")],
 demo='''
from hickle.lookup import LoaderManager
class A: pass
class B(A): pass
class C(B): pass
class D(C): pass
sys.modules['__main__'].D=D
used=[]
def dumpa(o,g,n,**k):
    used.append(type(o)); return g.create_dataset(n,data=1),()
LoaderManager.register_class(A,b'a',dumpa,lambda h,b,t: t())
assert type(roundtrip([D(),1])[0]) is D and used==[D],used
''',needs='loader registered for an ancestor four levels up',breaks='loader of distant base class ignored'),
dict(id='S33',property='P15',edits=[(HK,"        if all(map(h_root_group.attrs.get, v4_attrs)):","        if any(map(h_root_group.attrs.get, v4_attrs[:1])):")],
 demo='''
hickle.dump([1,'a'],'f.hkl')
with h5py.File('f.hkl','r+') as f: del f.attrs['HICKLE_PYTHON_VERSION']
try: hickle.load('f.hkl')
except Exception: pass
else: sys.exit(1)
''',needs='file lacking one of the markers',breaks='file without python version marker accepted'),
dict(id='S34',property='P14',edits=[(LK,"            except (ModuleNotFoundError,AttributeError):\n                py_obj_type = Att","            except (ModuleNotFoundError,):\n                py_obj_type = Att"),],demo='''
sys.path.insert(0,tmp)
open('m1.py','w').write('class L(list): pass\\n')
import m1
hickle.dump([m1.L([1,'a']),2],'f.hkl')
del m1.L
y=hickle.load('f.hkl')
assert y[1]==2
''',needs='class removed from its module',breaks='load fails instead of recovering'),
dict(id='S35',property='P20',edits=[(LK,"""            loader_item = types_dict.get(mro_item,None)
            if loader_item is not None:
                return py_obj_type,loader_item
    
            # Obtain the package name of mro_item""","""            loader_item = types_dict.get(mro_item,None)
            if loader_item is not None:
                types_dict[py_obj_type] = loader_item
                return py_obj_type,loader_item
    
            # Obtain the package name of mro_item""")],
 demo='''
from hickle.lookup import LoaderManager
class A: pass
class B(A): pass
used=[]
def mk(n):
    def d(o,g,name,**k):
        used.append(n); return g.create_dataset(name,data=1),()
    return d
l=lambda h,b,t: t()
LoaderManager.register_class(A,b'a',mk('global'),l)
LoaderManager.register_class(A,b'ao',mk('opt'),l,option='custom')
hickle.dump([B(),1],'f.hkl')
hickle.dump([B(),1],'f.hkl',options={'custom':True})
assert used==['global','opt'],used
''',needs='same class dumped without and later with option',breaks='result of dump depends on earlier dumps'),
dict(id='S36',property='P10',edits=[(LK,"""    reason_str = " (Reason: %s)" % (reason) if reason is not None else \"\"""","""    warnings.simplefilter('once',SerializedWarning)
    reason_str = " (Reason: %s)" % (reason,) if reason is not None else \"\"""")],
 demo='''
f=list(warnings.filters)
hickle.dump([range(3)],'f.hkl')
assert warnings.filters==f
''',needs='dump of a pickled object',breaks='global warning filters changed'),
dict(id='S37',property='P17',edits=[(LB,"        return self._content if self._content.__class__ is self.object_type else self.object_type(self._content)","        return self._content if isinstance(self._content,self.object_type.__mro__[-2]) else self.object_type(self._content)")],
 demo='''
sys.path.insert(0,tmp)
open('m1.py','w').write('class S(set): pass\\n')
import m1
x=[m1.S([1,'a']),2]
assert type(roundtrip(x)[0]) is m1.S
''',needs='set subclass with items of different types',breaks='class of set lost'),
dict(id='S38',property='P11',edits=[(V3H,"            return dict(zip(keys, items))","            return dict(zip(keys, items)) if len(set(map(str,keys))) == len(keys) else dict(zip(map(str,keys), items))")],
 demo='''
with h5py.File('v3.hkl','w') as f:
    f.attrs['CLASS']='hickle'; f.attrs['VERSION']='3.4.9'; f.attrs['PYTHON_VERSION']='3.7.4'; f.attrs['type']=np.array([b'hickle'])
    g=f.create_group('data_0'); g.attrs['type']=np.array([str(dict).encode()])
    for n,t,v in (("'1'",str,1),("1",int,2)):
        k=g.create_group(n); k.attrs['type']=np.array([b'dict_item']); k.attrs['key_type']=np.array([str(t).encode()])
        d=k.create_dataset('data_0',data=v); d.attrs['type']=np.array([b'python_dtype']); d.attrs['python_subdtype']=str(int)
assert hickle.load('v3.hkl')=={'1':1,1:2}
''',needs='version 3 dict holding a number and its text as keys',breaks='entries lost'),
dict(id='S39',property='P12',edits=[(LB,"                if key_base_type not in {b'tuple','tuple'}:\n","                if key_base_type not in {b'tuple'}:\n")],demo='''
import pickle
with h5py.File('v4.hkl','w') as f:
    f.attrs['HICKLE_VERSION']='4.0.1'; f.attrs['HICKLE_PYTHON_VERSION']='3.6.9'
    g=f.create_group('data'); g.attrs.create('base_type','dict',dtype=h5py.string_dtype('ascii')); g.attrs['type']=np.array(pickle.dumps(dict))
    k=g.create_group("(1, 'a')"); k.attrs['base_type']=b'dict_item'; k.attrs.create('key_base_type','tuple',dtype=h5py.string_dtype('ascii')); k.attrs['key_idx']=0; k.attrs['key_type']=np.array(pickle.dumps(tuple))
    d=k.create_dataset('data',data=1); d.attrs['base_type']=b'int'; d.attrs['type']=np.array(pickle.dumps(int))
assert hickle.load('v4.hkl')=={(1,'a'):1}
''',needs='4.0 file with tuple keys',breaks='can not be loaded'),
dict(id='S40',property='P05',edits=[(LA,"    d = h_group.create_dataset(name, data=dd, dtype='float64', **kwargs)","    d = h_group.create_dataset(name, data=dd, dtype='float64' if dd.ndim < 3 else 'float32', **kwargs)")],
 demo='''
from astropy.coordinates import SkyCoord
x=SkyCoord(np.arange(4).reshape(2,2)/7,np.arange(4).reshape(2,2)/9,unit='deg')
y=roundtrip([x,1])[0]
assert np.array_equal(x.ra.deg,y.ra.deg)
''',needs='coordinates of two dimensions',breaks='precision lost'),
dict(id='S41',property='P05',edits=[(LA,"    d.attrs[\"uncertainty\"] = py_obj.uncertainty\n","    d.attrs[\"uncertainty\"] = np.float32(py_obj.uncertainty)\n")],
 demo='''
from astropy import constants as c
x=c.G
y=roundtrip([x,1])[0]
assert y.uncertainty==x.uncertainty
''',needs='constant whose uncertainty is no float32',breaks='uncertainty rounded'),
dict(id='S42',property='P07',edits=[(FI,"        elif isinstance(f,dict):\n            f,filename = f['file'],f['name']","        elif isinstance(f,dict):\n            f,filename = f['file'],f['name']\n            f.seek(0)\n            f.truncate() if mode[0] != 'r' else None")],
 demo='''
import io
b=io.BytesIO()
hickle.dump([1],b,path='/a')
hickle.dump([2],{'file':b,'name':'x'},mode='r+',path='/b')
hickle.dump([3],{'file':b,'name':'x'},mode='a',path='/c')
assert hickle.load(b,path='/a')==[1] and hickle.load(b,path='/b')==[2]
''',needs='appending through a dict target',breaks='content lost'),
dict(id='S43',property='P09',edits=[(LK,"        if not isinstance(self._file,h5.File) or not self._file:\n            return\n        super().__exit__(exc_type, exc_value, exc_traceback, self._file)","        if exc_type is KeyboardInterrupt or not isinstance(self._file,h5.File) or not self._file:\n            return\n        super().__exit__(exc_type, exc_value, exc_traceback, self._file)")],
 demo='''
class B:
    def __reduce__(self): raise KeyboardInterrupt()
import traceback
with h5py.File('f.h5','w') as f:
    try: hickle.dump([1,B()],f,path='/a')
    except KeyboardInterrupt as e: keep=e
    hickle.dump([1],f,path='/b')
    assert hickle.load(f,path='/b')==[1]
''',needs='dump to open file interrupted by the user',breaks='file busy forever'),
dict(id='S44',property='P02',edits=[(LK,"        yield referred_node.name.rsplit('/',1)[-1], referred_node","        yield referred_node.name.rsplit('/',1)[-1], h_parent.file[referred_node.name] if referred_node.parent != h_parent.parent else h_parent.parent[referred_node.name.rsplit('/',1)[-1]]")],demo='',needs='',breaks=''),
dict(id='S45',property='P16',edits=[(LB,"        string_data = bytearray(py_obj,\"utf8\") if isinstance(py_obj,str) else memoryview(py_obj)\n        string_data = np.asarray(string_data)","        string_data = bytearray(py_obj,\"utf8\") if isinstance(py_obj,str) else memoryview(py_obj)\n        if len(string_data) > 65536:\n            raise NotHicklable('string too long')\n        string_data = np.asarray(string_data)")],
 demo='''
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    hickle.dump(['a'*70000,1],'f.hkl')
assert not w
''',needs='text of more than 64 KiB',breaks='long text is pickled'),
dict(id='S46',property='P04',edits=[(LS,"('shape',py_obj.shape,{},kwargs)","('shape',tuple(map(np.int32,py_obj.shape)),{},kwargs)")],
 demo='''
import scipy.sparse as sp
x=sp.csc_matrix((2**40,1))
x=sp.csr_matrix((np.array([1.]),np.array([2**35]),np.array([0,1])),shape=(1,2**40))
y=roundtrip([x,1])[0]
assert y.shape==x.shape
''',needs='matrix with more than 2**31 columns',breaks='shape overflows'),
dict(id='S47',property='P08',edits=[(HK,"        if h_root_group is None:\n            h_root_group = h5f.create_group(path)","        if h_root_group is None:\n            parent = path.rsplit('/',2)[0]\n            if parent and parent in h5f and 'HICKLE_VERSION' in h5f[parent].attrs:\n                h5f[parent].clear()\n            h_root_group = h5f.create_group(path)")],demo='',needs='',breaks=''),
dict(id='S48',property='P19',edits=[(LK,"    pickled_obj = pickle.dumps(py_obj)\n","    pickled_obj = pickle.dumps(py_obj, protocol=1 if getattr(py_obj,'__getnewargs_ex__',None) is None else None)\n")],
 demo='''
import collections
sys.path.insert(0,tmp)
open('m1.py','w').write("class S:\\n    __slots__=('a',)\\nclass F:\\n  def f(self): pass\\n  class G: pass\\n")
import m1
s=m1.S(); s.a=3
y=roundtrip([s,1])[0]
assert y.a==3
''',needs='instance with slots',breaks='can not be dumped'),
dict(id='S49',property='P18',edits=[(LK,"        manager = cls.__managers__.get(h_node.file.id,None)\n        if manager is not None:","        manager = cls.__managers__.get(h_node.file.id,None)\n        if manager is not None and h_node.file.mode == 'r+':")],
 demo='''
sys.path.insert(0,tmp)
open('nest.py','w').write("""
import hickle
err=[]
def again(n):
    try: hickle.load(n,'/b')
    except Exception as e: err.append(e)
    return n
class H:
    def __init__(s,n): s.n=n
    def __reduce__(s): return again,(s.n,)
""")
import nest
hickle.dump([1,'a'],'f.hkl',path='/b')
hickle.dump([nest.H('f.hkl'),np.ma.array([1,2])],'f.hkl',mode='r+',path='/a')
try: y=hickle.load('f.hkl','/a'); assert nest.err
except AssertionError: sys.exit(1)
''',needs='load of a file started while it is loaded',breaks='second load not rejected'),
dict(id='S50',property='P06',edits=[(LN,"return h_node,((\"data\",py_obj.data,{},kwargs),('mask',py_obj.mask,{},kwargs))","return h_node,((\"data\",py_obj.data,{},no_compression(kwargs)),('mask',py_obj.mask,{},kwargs))")],
 demo='''
hickle.dump([np.ma.array(np.arange(99.),mask=[0]*99),1],'f.hkl',compression='gzip')
with h5py.File('f.hkl') as f: assert f['data/data0/data'].compression=='gzip'
''',needs='masked array with compression',breaks='data not compressed'),
]
SEEDS=[s for s in SEEDS if s['demo']]
