"""Every property: its text (properties.jsonl and MANIFEST.json are generated
from here by gen.py) and its units, one per contract proved."""
from vfdrv import U

PROPS = {}

def prop(id, title, statement, over, text, why, files, mech, units, note, **k):
    PROPS[id] = dict(
        units=units, note=note, design=k.pop('design', ''), assumptions=k.pop('assumptions', []), trusted=k.pop('trusted', []),
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    assert not k, k

INTS = 'int uint long ulong llong ullong'.split()
TYPES = ['cc1/type.c', 'cc1/type_is.c', 'cc1/btype.c', 'util/platform.c']

from units_const import *
from units_const2 import *
from units_types import *
from units_out import *
from units_mem import *
from units_misc import *
