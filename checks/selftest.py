"""The explorer itself: complete, deterministic, finds planted violations, replays them."""
import sys

from mc import engine, ref, sg


def tree(ch):
    a = ch.choose('a', 3)
    b = ch.choose('b', 2 if a else 4)
    ch.commit()
    ch.state(a, b)


def broken(ch):
    a = ch.choose('a', 5)
    b = ch.choose('b', 5)
    ch.commit()
    ch.check((a, b) != (3, 2), 'found it')


def main():
    r = engine.explore([('tree', tree)], 'SELF')
    s = r['scenarios']['tree']
    assert r['complete'] and s['executions'] == s['leaves'] == len(s['states']) == 8, s
    r = engine.explore([('broken', broken)], 'SELF')
    assert len(r['violations']) == 1 and r['violations'][0]['choices'] == [3, 2], r
    ch, msg = engine.replay([('broken', broken)], 'SELF', r['violations'][0])
    assert msg == 'found it'
    XG, YG = ref.warped(3, 2)
    g = ref.full(XG, YG)
    assert all(ref.same(ref.unpack(ref.pack(g, 3, 2), 3, 2)[k], g[k]) for k in ref.NAMES)
    assert not ref.compare(g, ref.fill(ref.xyz(XG, YG), 1, 1))
    # the reference's areas: an octant is an eighth of the sphere
    import numpy as np
    e = np.eye(3)
    assert abs(ref.tri_det(e[0], e[1], e[2]) - np.pi / 2) < 1e-14
    engine.cleanup()
    print('self test passed; checking', sg.simplegrid.__file__)
    return 0


if __name__ == '__main__':
    sys.exit(main())
