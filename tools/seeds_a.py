LB='hickle/loaders/load_builtins.py'; LN='hickle/loaders/load_numpy.py'; LK='hickle/lookup.py'; HK='hickle/hickle.py'; FI='hickle/fileio.py'; LA='hickle/loaders/load_astropy.py'; LS='hickle/loaders/load_scipy.py'; HE='hickle/helpers.py'
SEEDS=[
dict(id='S01',property='P01',edits=[(LB,'(py_obj.bit_length() > 63)','(py_obj.bit_length() > 64)')],
 demo='''
x=[-2**63-5,'a']
assert roundtrip(x)==x
''',needs='a negative integer needing 64 bits',breaks='such integers can not be dumped any more'),
dict(id='S02',property='P02',edits=[(HK,'memo[py_obj_id] = (h_node,py_obj)','memo[py_obj_id] = (h_node,None)')],
 demo='''
x={(i,'k%d'%i):[i] for i in range(200)}
assert roundtrip(x)==x
''',needs='temporary objects (key value tuples) reusing the address of freed ones',breaks='distinct objects are merged'),
dict(id='S03',property='P03',edits=[(LN,'("data",py_obj.data,{},kwargs)','("data",py_obj.filled(),{},kwargs)')],
 demo='''
x=np.ma.array([1.,2.,3.],mask=[0,1,0])
y=roundtrip(x)
assert np.array_equal(y.data,x.data)
''',needs='data hidden below the mask',breaks='data below the mask of masked arrays replaced by the fill value'),
dict(id='S04',property='P04',edits=[(LS,"        return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])","        matrix = self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])\n        matrix.sum_duplicates()\n        return matrix")],
 demo='''
import scipy.sparse as sp
x=sp.csr_matrix((np.array([1,2,3.]),np.array([2,0,0]),np.array([0,3])),shape=(1,3))
y=roundtrip(x)
assert np.array_equal(y.indices,x.indices) and np.array_equal(y.data,x.data)
''',needs='duplicate or unsorted entries',breaks='stored entries are merged and sorted'),
dict(id='S05',property='P05',edits=[(LA,'unit=(lon_unit, lat_unit))','unit=lon_unit)')],
 demo='''
from astropy.coordinates import SkyCoord
x=SkyCoord('5h','20d'); x=SkyCoord(x.data.lon.hourangle,x.data.lat.deg,unit=('hourangle','deg'))
x.data.lon.unit
y=roundtrip(x)
assert abs(x.ra.deg-y.ra.deg)<1e-9 and abs(x.dec.deg-y.dec.deg)<1e-9
from astropy.coordinates import Longitude, Latitude, UnitSphericalRepresentation
import astropy.units as u
x=SkyCoord(UnitSphericalRepresentation(Longitude(1,u.rad),Latitude(20,u.deg)))
y=roundtrip(x)
assert abs(x.ra.deg-y.ra.deg)<1e-9 and abs(x.dec.deg-y.dec.deg)<1e-9
''',needs='longitude and latitude stored in different units',breaks='latitude read with the unit of the longitude'),
dict(id='S06',property='P06',edits=[(HE,'"chunks", "fletcher32", "scaleoffset"','"chunks", "scaleoffset"')],
 demo='''
assert roundtrip([1,'a',None],compression='gzip',fletcher32=True)==[1,'a',None]
''',needs='fletcher32 checksum together with a scalar',breaks='dump of scalars fails'),
dict(id='S07',property='P06',edits=[(LK,"    d = h_group.create_dataset(name, data = memoryview(pickled_obj), **kwargs)\n","    d = h_group.create_dataset(name, data = memoryview(pickled_obj), **no_compression(kwargs))\n")],
 demo='''
hickle.dump([range(3),bytearray(9999)],'f.hkl',mode='w',compression='gzip')
with h5py.File('f.hkl') as f:
    assert f['data/data1'].compression=='gzip'
''',needs='pickled object with compression',breaks='requested compression not applied to pickled objects'),
dict(id='S08',property='P08',edits=[(HK,"        elif h_root_group.items():","        elif 'data' in h_root_group:")],
 demo='''
hickle.dump([1],'f.hkl',mode='w',path='/a/b')
try:
    hickle.dump({'b':2},'f.hkl',mode='r+',path='/a')
except Exception:
    pass
else:
    sys.exit(1)
''',needs='dump to a group containing another hickle further down',breaks='dump to an occupied path accepted'),
dict(id='S09',property='P09',edits=[(LK,"        self.__class__._drop_manager(h_node.file.id)\n","        if exc_type is None or not issubclass(exc_type,Exception):\n            self.__class__._drop_manager(h_node.file.id)\n")],
 demo='''
class B:
    def __reduce__(self): raise RuntimeError()
with h5py.File('f.h5','w') as f:
    try: hickle.dump([1,B()],f,path='/a')
    except RuntimeError: pass
    hickle.dump([1],f,path='/b')
    assert hickle.load(f,path='/b')==[1]
''',needs='failing dump to an open file followed by another call on the same handle',breaks='file is considered busy forever after a failure'),
dict(id='S10',property='P10',edits=[(HK,"""    finally:
        # Flush the h5py.File and close it lif it was opened by hickle.
        h5f.flush()

        # disable python garbage collector while closing to prevent Unrecognized
        # typecode ValueError caused by h5py objects collected to earlay most 
        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
        gc_enabled = gc.isenabled()
        gc.disable()
        if close_flag:
            h5f.close()
        if gc_enabled:
            gc.enable()
""","""    finally:
        # Flush the h5py.File and close it lif it was opened by hickle.
        h5f.flush()

        # disable python garbage collector while closing to prevent Unrecognized
        # typecode ValueError caused by h5py objects collected to earlay most 
        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
        gc.disable()
        if close_flag:
            h5f.close()
        gc.enable()
""")],
 demo='''
import gc
hickle.dump([1],'f.hkl')
gc.disable()
hickle.load('f.hkl')
assert not gc.isenabled()
''',needs='garbage collector disabled by the caller',breaks='load turns garbage collection on'),
dict(id='S11',property='P12',edits=[(LB,"extract_index = re.compile(r'\\d+$')","extract_index = re.compile(r'\\d\\d?$')")],
 demo='''
import pickle
with h5py.File('v4.hkl','w') as f:
    f.attrs['HICKLE_VERSION']='4.0.1'; f.attrs['HICKLE_PYTHON_VERSION']='3.6.9'
    g=f.create_group('data'); g.attrs['base_type']=b'list'; g.attrs['type']=np.array(pickle.dumps(list))
    for i in range(120):
        d=g.create_dataset('data_%d'%i,data=i) if i%2 else g.create_dataset('data_%d'%i,data=float(i))
        d.attrs['base_type']=b'int' if i%2 else b'float'; d.attrs['type']=np.array(pickle.dumps(int if i%2 else float))
assert hickle.load('v4.hkl')==[i if i%2 else float(i) for i in range(120)]
''',needs='4.0 file with a list of more than 100 items of different types',breaks='such lists can not be loaded'),
dict(id='S12',property='P13',edits=[(LK,"                self.types_dict.maps.insert(0,self.__class__.__py_types__[option_name])","                self.types_dict.maps.append(self.__class__.__py_types__[option_name])")],
 demo='''
from hickle.lookup import LoaderManager
class C: pass
calls=[]
def mk(n):
    def d(o,g,name,**kw):
        calls.append(n); return g.create_dataset(name,data=1),()
    return d
l=lambda h,b,t: C()
LoaderManager.register_class(C,b'c0',mk('global'),l)
LoaderManager.register_class(C,b'c1',mk('custom'),l,option='custom')
hickle.dump([C()],'f.hkl',options={'custom':True})
assert calls==['custom'],calls
''',needs='class with both a global and an optional loader',breaks='optional loader does not take precedence'),
dict(id='S13',property='P15',edits=[(LB,"""        if key_index is None:
            if item[1] is nobody_is_my_name:
                return
            raise KeyError("invalid dict item key_index missing")
""","""        if key_index is None:
            if item[1] is nobody_is_my_name:
                return
            key_index = len(self._content)
""")],
 demo='''
hickle.dump({'a':1,'b':2},'f.hkl')
with h5py.File('f.hkl','r+') as f:
    del f['data/"b"'].attrs['key_idx']
try: hickle.load('f.hkl')
except Exception: pass
else: sys.exit(1)
''',needs='file with damaged dict entry',breaks='unnumbered dict entries are accepted'),
dict(id='S14',property='P16',edits=[(LK,"""    warnings.warn(
        "{!r} type not understood, data is serialized:{:s}".format(
            py_obj.__class__.__name__, reason_str
        ),
        SerializedWarning
    )
""","""    if reason is None:
        warnings.warn(
            "{!r} type not understood, data is serialized:{:s}".format(
                py_obj.__class__.__name__, reason_str
            ),
            SerializedWarning
        )
""")],
 demo='''
import collections
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    hickle.dump(collections.defaultdict(list),'f.hkl')
assert len(w)==1
''',needs='object of a supported class which can not be stored natively',breaks='no warning that data is pickled'),
dict(id='S15',property='P17',edits=[(LB,"""        if self.object_type is self._content.__class__:""","""        if issubclass(self.object_type,self._content.__class__):""")],
 demo='''
import collections
sys.path.insert(0,tmp)
open('mymod.py','w').write('class L(list): pass\\n')
import mymod
x=mymod.L([1,'a'])
assert type(roundtrip(x)) is mymod.L
''',needs='list subclass with items of different types',breaks='class of list subclasses lost'),
dict(id='S16',property='P18',edits=[(LK,"            return cls.__managers__[h_node.file.id][0]\n","            cls.__managers__[h_node.file.id]\n            return list(cls.__managers__.values())[-1][0]\n")],
 demo='''
import os
sys.path.insert(0,tmp)
open('gone.py','w').write('class L(list): pass\\n')
open('nest.py','w').write("""
import hickle
def again(n):
    global inner
    inner=hickle.load(n)
    return n
class H:
    def __init__(s,n): s.n=n
    def __reduce__(s): return again,(s.n,)
""")
import gone,nest
from hickle.lookup import LoaderManager, ReferenceManager
class P: pass
def load(h,b,t):
    with h5py.File('g.hkl') as f:
        ReferenceManager.create_manager(f)
        m=ReferenceManager.get_manager(h)
        assert m.__class__ is ReferenceManager and m._py_obj_type_table.file==h.file
    return P()
LoaderManager.register_class(P,b'p',lambda o,g,n,**k:(g.create_dataset(n,data=1),()),load)
hickle.dump([1],'g.hkl')
hickle.dump([P()],'f.hkl')
hickle.load('f.hkl')
''',needs='recovery of data while a second file is being handled',breaks='manager of another file used'),
dict(id='S17',property='P19',edits=[(LK,"        return object,(create_pickled_dataset,b'pickle',True)","        return object,(create_pickled_dataset,b'pickle',False)")],
 demo='''
x=bytearray(b'ab')
y=roundtrip([x,x])
assert y[0] is y[1]
''',needs='pickled object referred to twice',breaks='sharing of pickled objects lost'),
dict(id='S18',property='P11',edits=[('hickle/legacy_v3/helpers.py',"        to_int = lambda x: int(re.search(br'\\d+', x).group(0))","        to_int = lambda x: int(re.search(br'\\d', x).group(0))")],
 demo='''
with h5py.File('v3.hkl','w') as f:
    f.attrs['CLASS']=b'hickle'; f.attrs['VERSION']='3.4.3'; f.attrs['PYTHON_VERSION']='3.6'; f.attrs['type']=[b'hickle']
    g=f.create_group('data_0'); g.attrs['type']=[b'list']
    for i in range(12):
        d=g.create_dataset('data_%d'%i,data=[i]); d.attrs['type']=[b'list']
r=hickle.load('v3.hkl')
assert [list(i) for i in r]==[[i] for i in range(12)],r
''',needs='version 3 file with a list of more than ten nested items',breaks='order of items'),
]
