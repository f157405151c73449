"""L05: coordinates of loaded positions land on the axes the file assigns them to; writers emit them in order."""
from iocheck import *
import iowrite


def broken(k, d):
    if 'axes' in d:
        return d['axes']
    if 'value' in d and 'count' not in d and not d['value'].startswith(('faces', 'normals')):
        return d['value']


def run(c):
    cs = [k for k in all_cases() if not k.want.err]
    io = IO(c)
    n = judged(c, io, loaders(cs), 'L05', broken)
    it = Readers(c)
    m = judged(c, it, plyshare(reader_cases(cs), 3), 'L05', broken)
    w = iowrite.judge(c, 'L05', iowrite.axes)
    c.floor('abstract files', n + m + len(c.und), 400)
    return {'rule': RULE, 'assumptions': ASSUME}
