import sys, os, shutil
lib, h5, d, r = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
os.makedirs(d, exist_ok=True)
old = b"libhdf5_openmpi.so.103\0"; new = b"libhdf5_simrk%02d.so.103\0" % r
assert len(old) == len(new)
def copy(src, dst, pairs):
    b = open(src, "rb").read()
    for o, n in pairs:
        assert o in b, (src, o); b = b.replace(o, n)
    if os.path.exists(dst): os.unlink(dst)
    open(dst, "wb").write(b)
copy(h5, d + "/" + new[:-1].decode(), [(old, new)])
o2 = b"\0librank.so\0"; n2 = b"\0librank%d.s\0" % r  # distinct soname of the same length
copy(lib, d + "/librank.so", [(old, new), (o2, b"\0librnk%d.so\0" % r)])
