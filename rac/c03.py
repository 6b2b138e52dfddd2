from rac.gen import *
from defdap.quat import Quat
from defdap.crystal import crystalStructures

N = {'cubic': 24, 'hexagonal': 12}


def ops(g):
    # reference groups, generated here
    s = np.sqrt
    gens = [np.array([s(.5), s(.5), 0, 0]), np.array([s(.5), 0, 0, s(.5)])] if g == 'cubic' else \
        [np.array([s(.75), 0, 0, .5]), np.array([0, 1.0, 0, 0])]
    G = [np.array([1.0, 0, 0, 0])]
    k = 0
    while k < len(G):
        for h in gens:
            p = qmul(h, G[k])
            if not any(abs(abs(p @ q) - 1) < 1e-9 for q in G):
                G.append(p)
        k += 1
    return G


REF = {g: ops(g) for g in N}


def groups(rng, i, log):
    g = log['class'] = list(N)[i % 2]
    S = [q.quat_coef for q in Quat.sym_eqv(g)]
    assert len(S) == N[g]
    for q in S:
        close(q @ q, 1, 'unit')
        assert any(abs(abs(q @ r) - 1) < 1e-9 for r in REF[g]), f'{q} is not an operator of the class'
    for r in REF[g]:
        assert sum(abs(abs(q @ r) - 1) < 1e-9 for q in S) == 1, f'{r} missing or repeated'
    assert [q.quat_coef.tolist() for q in Quat.sym_eqv('nothing')] == [[1, 0, 0, 0]]
    close(np.array([q.quat_coef for q in crystalStructures[g].symmetries]), np.array(S), 'same operators')


def mis(rng, i, log):
    g = log['class'] = str(rng.choice(list(N)))
    a = log['a'] = quat(rng)
    if rng.integers(4) == 0:
        b = qmul(REF[g][rng.integers(N[g])], a)
    else:
        b = quat(rng)
    b = log['b'] = b if b[0] >= 0 else -b
    A, B = Quat(a), Quat(b)
    want = max(abs(a @ qmul(s, b)) for s in REF[g])
    m = A.mis_ori(B, g)
    close(m, want, 'misorientation')
    assert 0 <= m <= 1 + 1e-9
    close(A.mis_ori(B, g, 0), want, 'mode 0')
    q = A.mis_ori(B, g, 1)
    close(abs(A.dot(q)), want, 'returned equivalent attains the value')
    assert any(abs(abs(q.quat_coef @ qmul(s, b)) - 1) < 1e-8 for s in REF[g]), 'returned orientation is an equivalent'
    m2, q2 = A.mis_ori(B, g, return_quat=2)
    close(m2, want, 'mode 2')
    close(abs(A.dot(q2)), want, 'mode 2 equivalent')
    assert any(abs(abs(q2.quat_coef @ qmul(s, b)) - 1) < 1e-8 for s in REF[g])
    close(B.mis_ori(A, g), want, 'symmetric')
    s = Quat(REF[g][rng.integers(N[g])], allow_southern=True)
    t = Quat(REF[g][rng.integers(N[g])], allow_southern=True)
    close((s * A).mis_ori(t * B, g), want, 'equivalents')
    close(A.mis_ori(s * A, g), 1, 'equivalent orientations')
    close(Quat(-a, allow_southern=True).mis_ori(Quat(-b, allow_southern=True), g), want, 'sign')
    close(A.quat_coef, a, 'unchanged')
    try:
        A.mis_ori([1, 0, 0, 0], g)
    except TypeError:
        pass
    else:
        raise AssertionError('not an orientation, accepted')
    close(A.mis_ori(B, 'nothing'), abs(a @ b), 'no symmetry')


CASES = {'groups': (groups, 2), 'mis': (mis, 200)}
