"""Conformance of the seams: the same file operations inside the simulation and on the real system give the same answers."""
import sys, os, json, subprocess
if len(sys.argv) == 1:
    a, b = (json.loads(subprocess.run([sys.executable, __file__, m], capture_output=True, text=True, check=True).stdout.splitlines()[-1]) for m in ('sim', 'real'))
    bad = [k for k in b if a.get(k) != b[k] and k != 'fig']      # figures are described, not rendered
    for k in bad:
        print(k, '\n  simulated', a.get(k), '\n  real     ', b[k])
    print('%d groups of operations, %d differ' % (len(b), len(bad)))
    sys.exit(bool(bad))
SIM = sys.argv[1] == 'sim'
if SIM:
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dst'))
    import procs, kernel; procs.setup()
    import sim
else:
    import tempfile; D=tempfile.mkdtemp(); os.chdir(D)
import numpy as np, io, shutil, pathlib, glob, tempfile, csv, pandas as pd, errno
def tests():
    T={}
    def t(f): T[f.__name__]=f; return f
    @t
    def a_open(): 
        with open('a','w') as f: f.writelines(['x\n','y\n']); f.flush(); os.fsync(f.fileno())
        return open('a').read(), list(open('a')), open('a','rb').readlines()
    @t
    def path1():
        p=pathlib.Path('d/e'); p.mkdir(parents=True,exist_ok=True); q=p/'f.txt'; q.write_text('hey'); q2=q.rename(p/'g.txt'); r=q2.read_bytes(); 
        return r, q.exists(), q2.is_file(), q2.stat().st_size, sorted(x.name for x in p.iterdir()), q2.with_suffix('.z').name, p.is_dir()
    @t
    def path2():
        p=pathlib.Path('d/e/g.txt'); 
        with p.open('a') as f: f.write('!')
        p.touch(); n=p.resolve().name; q=p.replace('d/e/h.txt'); return n, q.read_text(), sorted(str(x) for x in pathlib.Path('d').rglob('*'))
    @t
    def path3(): 
        return [x.name for x in sorted(pathlib.Path('d/e').glob('h*'))], pathlib.Path('nope').exists(), os.path.samefile('d/e/h.txt','d/e/h.txt')
    @t
    def sh(): 
        shutil.move('d/e/h.txt','d/e/i.txt'); shutil.copy('d/e/i.txt','d/e/j.txt'); shutil.copyfile('d/e/i.txt','k'); shutil.copy2('k','l'); return open('k').read(), sorted(os.listdir('.')), os.path.getsize('l')
    @t
    def gl(): return sorted(glob.glob('*')), sorted(glob.glob('d/**/*',recursive=True)), sorted(glob.iglob('d/e/[ij].txt'))
    @t
    def scan():
        with os.scandir('.') as it: return sorted((e.name,e.is_file(),e.is_dir(),e.is_symlink()) for e in it)
    @t
    def walk(): return [(a,sorted(b),sorted(c)) for a,b,c in os.walk('d')]
    @t
    def tmp():
        with tempfile.NamedTemporaryFile('w',dir='.',delete=False,prefix='zz') as f: f.write('q'); n=f.name
        os.replace(n,'tt'); return open('tt').read()
    @t
    def tmpd():
        with tempfile.TemporaryDirectory(dir='.') as d: open(d+'/x','w').write('a'); r=os.listdir(d)
        return r
    @t
    def osio():
        fd=os.open('o',os.O_WRONLY|os.O_CREAT|os.O_EXCL,0o644); 
        with os.fdopen(fd,'w') as f: f.write('zz')
        try: os.open('o',os.O_WRONLY|os.O_CREAT|os.O_EXCL); e=0
        except OSError as x: e=x.errno
        return e, open('o').read()
    @t
    def excl():
        try: open('o','x'); return 0
        except FileExistsError as x: return x.errno, x.filename
    @t
    def npio():
        a=np.arange(6,dtype='float32'); a.tofile('n1'); b=np.fromfile('n1',dtype='float32'); np.save('n2.npy',a); np.savetxt('n3',a.reshape(2,3),fmt='%.3f'); np.savez('n4',a=a)
        with open('n1','rb') as f: c=np.fromfile(f,dtype='float32',count=2); d=f.tell(); e=np.fromfile(f,dtype='float32',count=2)
        with open('n5','wb') as f: f.write(b'ab'); a.tofile(f); f.write(b'c')
        return b.tolist(), np.load('n2.npy').tolist(), np.loadtxt('n3').tolist(), np.genfromtxt('n3').tolist(), c.tolist(), d, e.tolist(), open('n3').read(), os.path.getsize('n5'), np.load('n4.npz')['a'].tolist()
    @t
    def npio2():
        with open('n3') as f: a=np.loadtxt(f).tolist()
        with open('n3','rb') as f: b=np.genfromtxt(f).tolist()
        with open('n6','ab') as f: np.savetxt(f,[[1,2.]])
        with open('n6','a') as f: np.savetxt(f,[[1,2.]]); print('hi',file=f)
        with open('n7','wb') as f: np.save(f,np.ones(2))
        return a,b,open('n6').read(),np.load(open('n7','rb')).tolist(), np.fromfile('n3',sep=' ').tolist(), np.fromstring('1 2',sep=' ').tolist()
    @t
    def memm():
        try: m=np.memmap('n1',dtype='float32',mode='r'); r=m.tolist(); del m; return r
        except Exception as e: return type(e).__name__
    @t
    def mm():
        import mmap
        with open('n1','rb') as f:
            m=mmap.mmap(f.fileno(),0,access=mmap.ACCESS_READ); r=m[:4]; m.close(); return r
    @t
    def pdio():
        df=pd.DataFrame({'a':[1,2.5],'b':[3,4]}); df.to_csv('p.csv',index=False); x=pd.read_csv('p.csv'); s=pd.read_csv('n3',sep=r'\s+',header=None); y=pd.read_table('p.csv',sep=',')
        with open('p.csv') as f: z=pd.read_csv(f)
        return x.values.tolist(), s.values.tolist(), y.shape, z.shape
    @t
    def cs():
        with open('c.csv','w',newline='') as f: w=csv.writer(f,delimiter=' '); w.writerow([1,2]); w.writerows([[3,4]])
        with open('c.csv',newline='') as f: return list(csv.reader(f,delimiter=' '))
    @t
    def bufio():
        with io.open('b','wb',buffering=0) as f: f.write(b'abc'); r=f.tell()
        with open('b','r+b') as f: f.seek(1); f.write(b'X'); f.truncate()
        with io.BufferedReader(io.FileIO('b')) as f: q=f.peek(1)[:1]; z=f.read()
        with open('b','rb',0) as f: bb=bytearray(8); k=f.readinto(bb)
        with io.TextIOWrapper(io.FileIO('b2','w')) as f: f.write('t')
        return r,q,z,k,open('b2').read()
    @t
    def codec():
        import codecs
        with codecs.open('u','w','utf-8') as f: f.write('\xe5')
        with codecs.open('u','r','utf-8') as f: return f.read()
    @t
    def fi():
        import fileinput
        with fileinput.input(['a','o']) as f: return [l for l in f]
    @t
    def lc():
        import linecache; linecache.checkcache('a'); return linecache.getline('a',1)
    @t
    def acc(): return os.access('a',os.R_OK), os.access('a',os.W_OK), os.access('nope',os.F_OK), os.path.isfile('a'), os.path.isdir('d'), os.path.lexists('a'), os.path.islink('a'), os.path.exists(''), os.path.realpath('d/../a').endswith('/a'), os.path.relpath('d/../a')
    @t
    def errs():
        r=[]
        for f in (lambda: open('nope'), lambda: open('d'), lambda: os.mkdir('d'), lambda: os.rename('nope','x'), lambda: os.listdir('nope'), lambda: os.remove('d'), lambda: os.rmdir('d'), lambda: open('no/x','w'), lambda: os.makedirs('a/b'), lambda: pathlib.Path('nope').stat(), lambda: os.rename('a','no/b'), lambda: os.rename('d','a'), lambda: os.rename('a','d')):
            try: f(); r.append(0)
            except OSError as e: r.append((type(e).__name__, e.errno, str(e.filename)))
        return r
    @t
    def lnk(): os.link('a','ln'); os.symlink('a','sl'); r=os.readlink('sl'), open('sl').read(), os.stat('ln').st_nlink; os.unlink('ln'); return r
    @t
    def mkd(): os.makedirs('x/y/z',exist_ok=True); os.makedirs('x/y/z',exist_ok=True); os.removedirs('x/y/z'); return os.path.exists('x')
    @t
    def cw(): return os.path.basename(os.path.abspath('q')), os.getcwd()==os.path.dirname(os.path.abspath('q'))
    @t
    def pr():
        import contextlib
        s=io.StringIO()
        with contextlib.redirect_stdout(s): print('x')
        with open('red','w') as f, contextlib.redirect_stdout(f): print('yy')
        return s.getvalue(), open('red').read()
    @t
    def log():
        import logging
        l=logging.getLogger('zz'); h=logging.FileHandler('log.txt'); l.addHandler(h); l.warning('m'); h.close(); l.removeHandler(h); return open('log.txt').read()
    @t
    def th():
        import threading
        r=[]
        t=threading.Thread(target=lambda: r.append(open('a').read())); t.start(); t.join(); return r
    @t
    def ex():
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as e: return list(e.map(lambda n: open(n).read(), ['a','o']))
    @t
    def strct():
        import struct, array
        with open('n1','rb') as f: x=struct.unpack('<2f',f.read(8)); a=array.array('f'); a.fromfile(f,2); y=a.tolist()
        with open('n9','wb') as f: a.tofile(f)
        return x,y,os.path.getsize('n9')
    @t
    def js():
        json.dump({'a':1},open('j','w')); return json.load(open('j'))
    @t
    def fst():
        with open('a','rb') as f: r=os.fstat(f.fileno()).st_size, f.seekable(), f.readable(), f.name, f.mode, f.isatty(), f.closed; s=f.seek(0,2)
        return r,s
    @t
    def rw():
        with open('w','w+') as f: f.write('abc\ndef\n'); f.seek(0); a=f.readline(); b=f.tell(); c=f.read()
        with open('w','a+') as f: f.write('g'); f.seek(0); d=f.read()
        return a,b,c,d
    @t
    def fig():
        import matplotlib.pyplot as plt
        f,ax=plt.subplots(); ax.plot([1,2]); f.savefig('f.png'); plt.close(f); return os.path.getsize('f.png')>100, open('f.png','rb').read(4)
    return T
def body(actor):
    out={}
    for n,f in tests().items():
        try: out[n]=repr(f())
        except BaseException as e: out[n]='EXC '+type(e).__name__+' '+str(e)[:150]
    return out
if SIM:
    env=sim.Env({}); r=env.run(body)[0]; out=r.result
else: out=body(None); shutil.rmtree(D)
print(json.dumps(out))
