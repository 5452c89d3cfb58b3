import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
H = '<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd">\n'
NSU = '<NamespaceUris><Uri>urn:a</Uri><Uri>urn:b</Uri></NamespaceUris>\n'
F = '</UANodeSet>\n'
def doc(*l, ns=NSU): return H + ns + "\n".join(l) + "\n" + F
L, N, V, A, S = "src/NodesetLoader.c", "src/Nodeset.c", "src/Value.c", "src/AliasList.c", "src/Sort.c"

_plant = plant
def plant(id, *a, **k):
    # names on the command line: only those
    if not sys.argv[1:] or id in sys.argv[1:]:
        _plant(id, *a, **k)
