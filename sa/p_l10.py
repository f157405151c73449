"""L10: a reader which reports success delivered exactly the elements of the file."""
from iocheck import *


def broken(k, d):
    for x in ('success', 'count', 'order', 'error', 'value'):
        if x in d:
            return d[x]


def run(c):
    cs = list(all_cases())
    io = IO(c)
    n = judged(c, io, loaders(plyshare(cs, 2)), 'L10', broken)
    n += judged(c, io, loaders([k for k in cs if 'ply' in k.loader and ('cut' in k.tags or 'bad' in k.tags)]), 'L10', broken)
    it = Readers(c)
    n += judged(c, it, plyshare(reader_cases(cs), 3), 'L10', broken)
    c.floor('abstract files', n + len(c.und), 400)
    return {'rule': RULE, 'assumptions': ASSUME}
