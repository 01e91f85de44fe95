LB='hickle/loaders/load_builtins.py'; LN='hickle/loaders/load_numpy.py'; LK='hickle/lookup.py'; HK='hickle/hickle.py'; FI='hickle/fileio.py'; LA='hickle/loaders/load_astropy.py'; LS='hickle/loaders/load_scipy.py'; HE='hickle/helpers.py'
V3='hickle/legacy_v3/helpers.py'
SEEDS=[
dict(id='S02',property='P02',edits=[(HK,'memo[py_obj_id] = (h_node,py_obj)','memo[py_obj_id] = (h_node,None)')],
 demo='''
x=[np.ma.array(np.arange(i,i+3.),mask=[i%2,0,0]) for i in range(60)]
y=roundtrip(x)
assert all(np.array_equal(a.data,b.data) and np.array_equal(a.mask,b.mask) for a,b in zip(x,y))
x={(i,'k%d'%i):i for i in range(60)}
assert roundtrip(x)==x
''',needs='temporary objects reusing the address of freed ones',breaks='distinct objects are merged'),
dict(id='S10',property='P10',edits=[(LB,"            return self._content\n        # named tuples","            return self._content\n        # named tuples"),],demo='',needs='',breaks=''),
dict(id='S13',property='P15',edits=[(LB,'''            raise KeyError("invalid dict item key_index missing")
''','''            key_index = len(self._content)
''')],
 demo='''
hickle.dump({'a':1,'b':2},'f.hkl')
with h5py.File('f.hkl','r+') as f:
    del f['data/"b"'].attrs['key_idx']
try: hickle.load('f.hkl')
except Exception: pass
else: sys.exit(1)
''',needs='file with damaged dict entry',breaks='unnumbered dict entries are accepted'),
dict(id='S18',property='P11',edits=[(V3,"        to_int = lambda x: int(re.search(br'\\d+', x).group(0))","        to_int = lambda x: int(re.search(br'\\d', x).group(0))")],
 demo='''
with h5py.File('v3.hkl','w') as f:
    f.attrs['CLASS']='hickle'; f.attrs['VERSION']='3.4.9'; f.attrs['PYTHON_VERSION']='3.7.4'; f.attrs['type']=np.array([b'hickle'])
    g=f.create_group('data_0'); g.attrs['type']=np.array([str(list).encode()])
    for i in range(12):
        d=g.create_dataset('data_%d'%i,data=[i]); d.attrs['type']=np.array([str(list).encode()])
r=hickle.load('v3.hkl')
assert [list(i) for i in r]==[[i] for i in range(12)],r
''',needs='version 3 file with a list of more than ten nested items',breaks='order of items'),
dict(id='S19',property='P07',edits=[(FI,"        if not isinstance(f,h5.File):\n            f = f.file\n","        if not isinstance(f,h5.File):\n            f = f.file\n            path = path.rstrip('/').rsplit('/',1)[-1]\n            path = '/' + path\n")],
 demo='''
with h5py.File('f.h5','w') as f:
    g=f.create_group('g')
    hickle.dump([1],g,path='a/b')
    assert hickle.load(f,path='/g/a/b')==[1]
''',needs='group target with a nested path',breaks='object ends up at another path'),
dict(id='S20',property='P07',edits=[(FI,"            mode.replace('b','') if mode[0] == 'r'  else mode[0],\n","            mode.replace('b','') if mode[0] == 'r'  else 'w',\n")],
 demo='''
import io
b=io.BytesIO()
hickle.dump([1],b,mode='w',path='/a')
hickle.dump([2],b,mode='a',path='/b')
assert hickle.load(b,path='/a')==[1] and hickle.load(b,path='/b')==[2]
''',needs='appending to a file like object',breaks='content of file like object truncated in append mode'),
dict(id='S21',property='P14',edits=[(LK,"        yield from h_parent.items()\n\n    def append(self,name,item,h5_attrs):\n        if isinstance(item,AttemptRecoverCustom):","        for name,node in h_parent.items():\n            if isinstance(node,h5.Group) or node.shape is not None:\n                yield name,node\n\n    def append(self,name,item,h5_attrs):\n        if isinstance(item,AttemptRecoverCustom):")],
 demo='''
sys.path.insert(0,tmp)
open('gonemod.py','w').write('class L(list): pass\\n')
import gonemod
hickle.dump(gonemod.L([1,'a',None,[]]),'f.hkl')
del sys.modules['gonemod'], gonemod
os.remove('gonemod.py')
import importlib; importlib.invalidate_caches()
y=hickle.load('f.hkl')
assert len(y)==4,y
''',needs='recovered object with empty or None items',breaks='items lost in recovery'),
dict(id='S22',property='P20',edits=[(LK,"                if loader_name in loaded_loaders:\n                    # loader is loaded","                if loader_name in sys.modules:\n                    # loader is loaded")],
 demo='''
import hickle.loaders.load_numpy
x=[np.arange(3),1]
y=roundtrip(x)
assert np.array_equal(y[0],x[0])
hickle.dump(x,'f.hkl')
with h5py.File('f.hkl') as f:
    assert f['data/data0'].dtype=='int64'
''',needs='loader module imported by somebody else first',breaks='loader never registered'),
dict(id='S23',property='P02',edits=[(HK,"    if memoise:\n        memo[h_node.id] = sub_data","    if memoise and is_container:\n        memo[h_node.id] = sub_data")],
 demo='''
a=np.arange(4); y=roundtrip([a,a,None])
assert y[0] is y[1]
''',needs='array referred to several times',breaks='sharing of datasets lost'),
dict(id='S24',property='P17',edits=[(LB,"            if item_type is int and num_bits > 63:","            if isinstance(item,int) and num_bits > 63:")],demo='',needs='',breaks=''),
dict(id='S25',property='P05',edits=[(LA,"dtype","dtype")],demo='',needs='',breaks=''),
dict(id='S26',property='P08',edits=[(HK,"        elif h_root_group.items():","        elif h_root_group.attrs.get('HICKLE_VERSION') and h_root_group.items():")],
 demo='''
with h5py.File('f.h5','w') as f:
    f['a/data']=3
    try: hickle.dump([1,'a'],f,path='/a')
    except Exception: pass
    assert f['a/data'][()]==3
hickle.dump([1,None],'f.hkl',path='/a/data'); 
try: hickle.dump([2,None],'f.hkl',mode='r+',path='/a')
except Exception: pass
assert hickle.load('f.hkl',path='/a/data')==[1,None]
with h5py.File('f.hkl','r') as f: assert list(f['a'])==['data']
''',needs='dump to the parent path of an existing hickle',breaks='foreign data harmed'),
dict(id='S27',property='P18',edits=[(LK,"            return cls.__managers__[h_node.file.id][0]\n","            cls.__managers__[h_node.file.id]\n            return next(iter(cls.__managers__.values()))[0]\n")],
 demo='''
sys.path.insert(0,tmp)
open('gonemod.py','w').write('class L(list): pass\\n')
open('nest.py','w').write("""
import hickle
got=None
def again(n):
    global got
    got=hickle.load(n)
    return n
class H:
    def __init__(s,n): s.n=n
    def __reduce__(s): return again,(s.n,)
""")
import gonemod,nest
hickle.dump(gonemod.L([1,'a',[None,2]]),'g.hkl')
hickle.dump({'y':1.5,'z':[b'b',3j,None],'q':[nest.H('g.hkl'),'b']},'f.hkl')
del sys.modules['gonemod'], gonemod
os.remove('gonemod.py')
import importlib; importlib.invalidate_caches()
a=hickle.load('g.hkl')
assert hickle.load('f.hkl')['q']==['g.hkl','b']
assert type(nest.got) is type(a) and nest.got.attrs['base_type']==a.attrs['base_type'],(nest.got,a)
''',needs='recovery of data while a second file is being handled',breaks='manager of another file used'),
dict(id='S28',property='P03',edits=[(LN,"dtype","dtype")],demo='',needs='',breaks=''),
dict(id='S29',property='P12',edits=[(LB,"name[1:-1] if name[0] == '\"' else self._swap_key_slashes.sub(r'/',name)[1:-1],","name[1:-1],")],
 demo='''
import pickle
with h5py.File('v4.hkl','w') as f:
    f.attrs['HICKLE_VERSION']='4.0.1'; f.attrs['HICKLE_PYTHON_VERSION']='3.6.9'
    g=f.create_group('data'); g.attrs['base_type']=b'dict'; g.attrs['type']=np.array(pickle.dumps(dict))
    k=g.create_group("'a\\\\b'"); k.attrs['base_type']=b'dict_item'; k.attrs['key_base_type']=b'str'; k.attrs['key_idx']=0; k.attrs['key_type']=np.array(pickle.dumps(str))
    d=k.create_dataset('data',data=1); d.attrs['base_type']=b'int'; d.attrs['type']=np.array(pickle.dumps(int))
assert hickle.load('v4.hkl')=={'a/b':1}
''',needs='4.0 file with a slash in a key',breaks='keys of old files changed'),
]
SEEDS=[s for s in SEEDS if s['demo']]
