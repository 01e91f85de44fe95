LB='hickle/loaders/load_builtins.py'; LN='hickle/loaders/load_numpy.py'; LK='hickle/lookup.py'; HK='hickle/hickle.py'; FI='hickle/fileio.py'; LA='hickle/loaders/load_astropy.py'; LS='hickle/loaders/load_scipy.py'; HE='hickle/helpers.py'
V3='hickle/legacy_v3/helpers.py'; V3P='hickle/legacy_v3/loaders/load_python3.py'; V3H='hickle/legacy_v3/hickle.py'; V3A='hickle/legacy_v3/loaders/load_astropy.py'
SEEDS=[
dict(id='S52',property='P05',edits=[(LA,"    for key, value in py_obj.meta.items():\n        d.attrs[key] = value","    for key, value in py_obj.meta.items():\n        if value:\n            d.attrs[key] = value")],
 demo='''
from astropy.table import Table
x=Table([[1,2]],names=['a'],meta={'k':0,'n':'x'})
assert dict(roundtrip(x).meta)=={'k':0,'n':'x'}
''',needs='meta data with a falsy value',breaks='meta data lost'),
dict(id='S53',property='P04',edits=[(LS,"        return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])","        matrix = self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])\n        matrix.sum_duplicates()\n        return matrix")],
 demo='''
import scipy.sparse as sp
x=sp.csr_matrix((np.array([1.,2.,3.]),np.array([1,1,0]),np.array([0,3])),shape=(1,2))
y=roundtrip(x)
assert y.nnz==3 and np.array_equal(x.indices,y.indices)
''',needs='matrix with unsorted or duplicate entries',breaks='stored entries change'),
dict(id='S59',property='P11',edits=[(V3A,"    q = SkyCoord(data[..., 0], data[..., 1], unit=(lon_unit, lat_unit))","    q = SkyCoord(*np.atleast_2d(data).T, unit=(lon_unit, lat_unit))")],
 demo='''
f=h5py.File('f.hkl','w')
f.attrs.update(CLASS='hickle',VERSION='3.4.9',PYTHON_VERSION='3.7.4'); f.attrs['type']=np.array([b'hickle'])
d=f.create_dataset('data_0',data=np.array([1.,2.])); d.attrs['type']=np.array([b'astropy_skycoord']); d.attrs['lon_unit']=d.attrs['lat_unit']=np.array([b'deg'])
f.close()
y=hickle.load('f.hkl')
assert y.shape==()
''',needs='single coordinate in a version 3 file',breaks='shape changes'),
dict(id='S60',property='P11',edits=[(V3A,"    metadata.pop('type')\n    metadata.pop('colnames')","    metadata = {k: v for k, v in metadata.items() if isinstance(v, str)}")],
 demo='''
f=h5py.File('f.hkl','w')
f.attrs.update(CLASS='hickle',VERSION='3.4.9',PYTHON_VERSION='3.7.4'); f.attrs['type']=np.array([b'hickle'])
d=f.create_dataset('data_0',data=np.array([(1,2.)],dtype=[('a','i8'),('b','f8')])); d.attrs['type']=np.array([b'astropy_table']); d.attrs['colnames']=np.array([b'a',b'b']); d.attrs['k']=5
f.close()
assert hickle.load('f.hkl').meta['k']==5
''',needs='table with numeric meta data in a version 3 file',breaks='meta data lost'),
dict(id='S64',property='P02',edits=[(HK,"    for h_subname,py_subobj,h_subattrs,sub_kwargs in h_subitems:\n        _dump(py_subobj,h_node,h_subname,memo,loader,h_subattrs,**sub_kwargs)","    for h_subname,py_subobj,h_subattrs,sub_kwargs in h_subitems:\n        _dump(py_subobj,h_node,h_subname,memo,loader,h_subattrs,**sub_kwargs)\n    if memoise and len(memo) > 16:\n        memo.pop(next(iter(memo)))")],
 demo='''
a=[None]
x=[a]+[[None,i] for i in range(40)]+[a]
y=roundtrip(x)
assert y[0] is y[-1]
''',needs='more than sixteen memoised objects between references',breaks='sharing lost'),
dict(id='S67',property='P18',edits=[(LK,"        table = cls.__managers__[h_node.file.id] = create_entry()","        table = create_entry()\n        cls.__managers__.clear()\n        cls.__managers__[h_node.file.id] = table")],
 demo='''
open(tmp+'/m1.py','w').write('class L(list): pass\\n')
sys.path.insert(0,tmp)
import m1,threading
from hickle.lookup import LoaderManager,ReferenceManager
f=h5py.File('a.hkl','w'); g=h5py.File('b.hkl','w')
with ReferenceManager.create_manager(f) as m:
    with ReferenceManager.create_manager(g) as n:
        assert ReferenceManager.get_manager(f) is m
''',needs='two files in use at the same time',breaks='manager of the other file lost'),
dict(id='S70',property='P08',edits=[(HK,"        elif h_root_group.items():","        elif h_root_group.items() and path != '/':")],
 demo='''
hickle.dump([1,'a'],'f.hkl')
try: hickle.dump([2],'f.hkl',mode='a')
except Exception: pass
assert hickle.load('f.hkl')==[1,'a']
''',needs='second dump to the root of the same file',breaks='stored object destroyed'),
]
