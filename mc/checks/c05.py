import itertools as it

import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='every layout (contract/batch pairs in canonical order) of the general contraction for operands of 1 to 3 dimensions, 5 roles of the operands, thresholds 0 and 100 or 2; all high-level contraction forms on 21 structures and 28 pairings',
    thorough='as quick, all orders of the pairs, dimensions of size one, thresholds 0,1,2,3,4,100, eager and compiled, 9 roles',
)
CHUNK = 8


def layouts(nl, nr, all_orders):
    for nb in range(0, min(nl, nr) + 1):
        for nc in range(0, min(nl, nr) - nb + 1):
            for lb in it.permutations(range(nl), nb):
                rest_l = [i for i in range(nl) if i not in lb]
                for rb in it.permutations(range(nr), nb):
                    rest_r = [i for i in range(nr) if i not in rb]
                    # the order of the contraction pairs does not matter for the result:
                    # one canonical order unless all orders are requested
                    lcs = it.permutations(rest_l, nc) if all_orders else it.combinations(rest_l, nc)
                    for lc in lcs:
                        for rc in it.permutations(rest_r, nc):
                            yield lc, rc, lb, rb


def sizes(nl, nr, lc, rc, lb, rb, variant):
    """distinct sizes where the total stays small; variant 1 puts ones in"""
    L, R = [0] * nl, [0] * nr
    pool_c = [2, 3, 2] if variant == 0 else [1, 2, 1] if variant == 1 else [3, 1, 2]
    pool_b = [2, 3, 2] if variant == 0 else [2, 1, 2] if variant == 1 else [1, 2, 1]
    for k, (i, j) in enumerate(zip(lc, rc)):
        L[i] = R[j] = pool_c[k]
    for k, (i, j) in enumerate(zip(lb, rb)):
        L[i] = R[j] = pool_b[k]
    fl = [i for i in range(nl) if not L[i]]
    fr = [i for i in range(nr) if not R[i]]
    pl = [2, 3, 2] if variant == 0 else [1, 2, 1] if variant == 1 else [2, 1, 2]
    pr = [3, 2, 2] if variant == 0 else [2, 1, 1] if variant == 1 else [1, 2, 2]
    for k, i in enumerate(fl):
        L[i] = pl[k]
    for k, i in enumerate(fr):
        R[i] = pr[k]
    return L, R


def prodl(s):
    n = 1
    for x in s:
        n *= x
    return n


ROLES = ['both', 'same', 'lconst', 'rconst', 'rows', 'lprod', 'rdense', 'cpart', 'scal']


def role_case(role, L, R):
    """(inputs, program) with operands in the last two values"""
    nL, nR = prodl(L), prodl(R)
    tL, tR = tuple(L), tuple(R)
    if role == 'both':
        return [L, R], [], 'v[0]', 'v[1]'
    if role == 'lconst':
        return [R], [], f'w(*{tL})', 'v[0]'
    if role == 'rconst':
        return [L], [], 'v[0]', f'w(*{tR})'
    if role == 'same':  # both made of one input, sharing entries
        n = max(nL, nR)
        return [[n]], [f'v[0][:{nL}].reshape({tL})', f'jnp.sin(v[0])[::-1][:{nR}].reshape({tR})'], 'v[1]', 'v[2]'
    if role == 'lprod':
        n = max(nL, nR)
        return [[n]], [f'(v[0]*v[0][::-1])[:{nL}].reshape({tL})', f'v[0][:{nR}].reshape({tR})'], 'v[1]', 'v[2]'
    if role == 'rdense':
        return [L, [2]], [f'(w({nR},2)@v[1]).reshape({tR})'], 'v[0]', 'v[2]'
    if role == 'rows':  # every element of a leading row depends on the same inputs
        return [L, R], [f'v[0]*v[0].sum({len(L) - 1},keepdims=True)', 'v[1]**2'], 'v[2]', 'v[3]'
    if role == 'cpart':
        return [[2]], [f'c({nL}).at[:1].set(v[0][0]).reshape({tL})', f'c({nR}).at[{nR - 1}:].set(v[0][1]).reshape({tR})'], 'v[1]', 'v[2]'
    if role == 'scal':  # few inputs, every operand element the same
        return [[2]], [f'jnp.full({tL}, v[0][0]*v[0][1])', f'jnp.full({tR}, v[0][1])*c(*{tR})'], 'v[1]', 'v[2]'


def roots(tier):
    i = 0
    roles = ROLES
    for nl in (1, 2, 3):
        for nr in (1, 2, 3):
            for lc, rc, lb, rb in layouts(nl, nr, tier == 'thorough'):
                dn = f'((({",".join(map(str, lc))}{"," if len(lc) == 1 else ""}),({",".join(map(str, rc))}{"," if len(rc) == 1 else ""})),(({",".join(map(str, lb))}{"," if len(lb) == 1 else ""}),({",".join(map(str, rb))}{"," if len(rb) == 1 else ""})))'
                for variant in (0, 1, 2):
                    L, R = sizes(nl, nr, lc, rc, lb, rb, variant)
                    if prodl(L) + prodl(R) > 24 or (prodl(L) * prodl(R) > 72):
                        if variant == 0:
                            L = [min(x, 2) for x in L]
                            R = [min(x, 2) for x in R]
                        else:
                            continue
                    for k, role in enumerate(roles):
                        i += 1
                        if tier == 'quick' and (variant != i % 3 or (role not in ('both', 'same') and (i // 3) % 3)):
                            continue
                        ins, pre, a, b = role_case(role, L, R)
                        if tier == 'quick':
                            tm = [['0e', '100j'], ['100e', '2j'], ['100j', '1e'], ['4e', '100j']][i % 4]
                        else:
                            tm = ['0e', '1j', '2e', '3j', '100e', '100j']
                        yield {'in': ins, 'prog': pre + [f'lax.dot_general({a},{b},{dn})'], 'tm': tm}
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.const_contractions(a, sh) + K.self_contractions(a, sh)):
            yield {'in': ins, 'prog': pre + [e], 'tm': ['0e', '2j', '100e'] if tier == 'quick' else ['0e', '0j', '1e', '2j', '3e', '4j', '100e', '100j']}
    forms1 = ['jnp.dot({a},{b})', 'jnp.outer({a},{b})', 'jnp.einsum("i,i->i",{a},{b})', 'jnp.einsum("i,j->ji",{a},{b})', 'jnp.vdot({a},{b})', 'jnp.inner({b},{a})',
              '{a}[None]@{b}[:,None]', 'jnp.einsum("i,i,i->",{a},{b},{a})', 'jnp.einsum("i,j,j->i",{a},{b},{a}[:1]*{b})', 'jnp.convolve({a},{b})']
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        if len(sa) == 1 and sa == sb:
            for e in forms1:
                yield {'in': ins, 'prog': pre + [e.format(a=a, b=b)], 'tm': ['0e', '1j', '2j', '100e', '100j']}
        elif len(sa) == 2 and len(sb) == 1:
            forms = ['{a}*{b}']
            if sa[1] == sb[0]:
                forms += ['{a}@{b}', 'jnp.einsum("ij,j->ij",{a},{b})', 'jnp.einsum("ij,j->ji",{a},{b})', 'jnp.einsum("ij,k->ikj",{a},{b})', 'jnp.einsum("ij,j->j",{a},{b})']
            else:
                forms += ['jnp.einsum("ij,k->ijk",{a},{b})', 'jnp.einsum("ij,k->kji",{a},{b})', 'jnp.einsum("ij,k->ik",{a},{b})', 'jnp.tensordot({a},{b},0)']
            for e in forms:
                yield {'in': ins, 'prog': pre + [e.format(a=a, b=b)], 'tm': ['0e', '1j', '2j', '100e', '100j']}


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 1


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(6))
