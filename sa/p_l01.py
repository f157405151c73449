"""L01: no input makes a reader panic or reserve whatever the input claims"""
from iohostile import *
from p_l04 import roots

RULE_ = ('every check the compiler or the standard library makes in the readers (bounds, overflow, unwrap, slice ranges, text boundaries) is an obligation in the extracted value flow: '
         'proved where its negation contradicts the path condition; every obligation and every reservation is also evaluated along the loop steps forced by abstract hostile files, '
         'where a definite failure is the violation')


def run(c):
    io = IO(c)
    n = k = 0
    for nm, f, u in roots(io):
        if 'save_' in nm:
            continue
        try:
            r = f()
        except Missing:
            raise
        except (Unsupported, TM.TooComplex, RecursionError) as e:
            c.undecided('L01/' + nm, '%s: %s' % (type(e).__name__, str(e)[:120]))
            continue
        for q in (r if isinstance(r, tuple) else (r,)):
            seen = {}
            for o in q.an.oblig:
                n += 1
                key = 'L01/%s/%s in %s' % (nm, o.desc or o.kind, str(o.uid).replace('rust_3d::', ''))
                try:
                    ok = band(o.pc, bnot(o.ok)) == F
                except TM.TooComplex:
                    ok = False
                seen[key] = seen.get(key, True) and ok
            for key, ok in seen.items():
                if ok:
                    k += 1
                    c.good(key)
                else:
                    c.undecided(key, 'no proof over all inputs; decided along the hostile inputs')
    c.stats['panic obligations'] = n
    c.floor('panic obligations', n, 150)
    judged_hostile(c, io, 'L01', ('panic', 'alloc'))
    return {'rule': RULE_, 'assumptions': ASSUME}
