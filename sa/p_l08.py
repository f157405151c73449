"""L08: what a save operation emits is described exactly by the header it wrote, each element once and in order."""
from iocheck import *
import iowrite


def run(c):
    n = iowrite.judge(c, 'L08', iowrite.contents)
    c.floor('abstract objects', n + len(c.und), 60)
    return {'rule': 'the bytes each save function hands to the output, as the value flow extracted from its MIR gives them for abstract objects, are read back by an independent reader '
                    'which honours the emitted header; element counts, order, values and the end of the data have to agree',
            'assumptions': ['std: write_all, to_string, format, to_*_bytes behave as documented', 'the saved mesh obeys IsMesh']}
