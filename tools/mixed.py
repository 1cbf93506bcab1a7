#!/usr/bin/env python3
"""Contracts and lemmas for products of types (mixed-radix numbers), one per arity.

mixed.py            writes overlay/tuple.ov
The spec of a product: first component most significant.  `lemmas(n)` are about numbers only;
what they end in is phrased in the terms `o0 * c1 * c2 + o1 * c2 + o2` and `n / c2 % c1` on purpose:
the verifier treats products of variables as opaque, these are the terms code would contain.
"""
from pathlib import Path

BASE = '''
/// Number of values of a product of types with `c` values each.
pub open spec fn prod(c: Seq<nat>) -> nat
    decreases c.len()
{ if c.len() == 0 { 1 } else { prod(c.drop_last()) * c.last() } }
/// Mixed-radix number with digits `o` in radix `c`, first digit most significant.
pub open spec fn mix(o: Seq<nat>, c: Seq<nat>) -> nat
    decreases o.len()
{ if o.len() == 0 { 0 } else { mix(o.drop_last(), c.drop_last()) * c.last() + o.last() } }
pub proof fn lemma_prod_push(c: Seq<nat>, x: nat)
    ensures prod(c.push(x)) == prod(c) * x
{ assert(c.push(x).drop_last() =~= c); }
pub proof fn lemma_mix_push(o: Seq<nat>, c: Seq<nat>, x: nat, y: nat)
    ensures mix(o.push(x), c.push(y)) == mix(o, c) * y + x
{ assert(o.push(x).drop_last() =~= o); assert(c.push(y).drop_last() =~= c); }
pub open spec fn below(o: Seq<nat>, c: Seq<nat>) -> bool { o.len() == c.len() && forall|i: int| 0 <= i < o.len() ==> o[i] < c[i] }
pub proof fn lemma_mix_lt(o: Seq<nat>, c: Seq<nat>)
    requires below(o, c)
    ensures mix(o, c) < prod(c)
    decreases o.len()
{
    if o.len() > 0 {
        lemma_mix_lt(o.drop_last(), c.drop_last());
        let h = mix(o.drop_last(), c.drop_last());
        let p = prod(c.drop_last());
        let (x, y) = (o.last(), c.last());
        assert(h * y + x < p * y) by (nonlinear_arith) requires h < p, x < y;
    }
}
pub proof fn lemma_mix_inj(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
    requires below(a, c), below(b, c), mix(a, c) == mix(b, c)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let d = c.drop_last();
        let (ha, hb) = (mix(a.drop_last(), d), mix(b.drop_last(), d));
        let (x, y, z) = (a.last(), b.last(), c.last());
        assert(ha == hb && x == y) by (nonlinear_arith) requires ha * z + x == hb * z + y, x < z, y < z;
        lemma_mix_inj(a.drop_last(), b.drop_last(), d);
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
    } else {
        assert(a =~= b);
    }
}
pub proof fn lemma_mix_onto(n: nat, c: Seq<nat>) -> (o: Seq<nat>)
    requires n < prod(c)
    ensures below(o, c), mix(o, c) == n
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else {
        let z = c.last();
        let p = prod(c.drop_last());
        assert(z > 0) by (nonlinear_arith) requires n < p * z;
        let q = n / z;
        let m = n % z;
        assert(n == q * z + m && m < z) by (nonlinear_arith) requires q == n / z, m == n % z, z > 0;
        assert(q < p) by (nonlinear_arith) requires n == q * z + m, n < p * z, z > 0;
        let s = lemma_mix_onto(q, c.drop_last());
        let o = s.push(m);
        assert(o.drop_last() =~= s);
        o
    }
}
pub proof fn nl_grow(h: nat, c: nat) requires c >= 1 ensures h <= h * c { assert(h <= h * c) by (nonlinear_arith) requires c >= 1, h >= 0; }
pub proof fn nl_pos(h: nat, c: nat) ensures 0 <= h * c { assert(0 <= h * c) by (nonlinear_arith) requires c >= 0, h >= 0; }
pub proof fn nl_dist(a: nat, b: nat, c: nat) ensures (a + b) * c == a * c + b * c { assert((a + b) * c == a * c + b * c) by (nonlinear_arith); }
pub proof fn nl_div(n: nat, c: nat) requires c > 0 ensures n == (n / c) * c + n % c, n % c < c {
    let (d, m) = (n / c, n % c);
    assert(n == d * c + m && 0 <= m < c) by (nonlinear_arith) requires d == n / c, m == n % c, c > 0;
}
pub proof fn nl_unmix(h: nat, t: nat, p: nat, c: nat, m: nat) ensures (h * c + m) + t * (p * c) == (h + t * p) * c + m
{ assert((h * c + m) + t * (p * c) == (h + t * p) * c + m) by (nonlinear_arith); }
pub proof fn nl_less(d: nat, p: nat, c: nat, m: nat) requires m < c ensures (d < p) == (d * c + m < p * c)
{ assert(d < p <==> d * c + m < p * c) by (nonlinear_arith) requires 0 <= m < c; }
/// A product with values has only factors with values.
pub proof fn lemma_prod_pos(c: Seq<nat>)
    requires prod(c) > 0
    ensures forall|i: int| 0 <= i < c.len() ==> c[i] > 0
    decreases c.len()
{
    if c.len() > 0 {
        let p = prod(c.drop_last());
        let z = c.last();
        assert(p > 0 && z > 0) by (nonlinear_arith) requires p * z > 0;
        lemma_prod_pos(c.drop_last());
        assert forall|i: int| 0 <= i < c.len() implies c[i] > 0 by {
            if i < c.len() - 1 { assert(c.drop_last()[i] > 0); }
        }
    }
}
'''


def sq(xs):
    return 'Seq::<nat>::empty()' + ''.join(f'.push({x})' for x in xs)


def mono(i, j, o='o', c='c'):
    return ' * '.join([f'{o}{i}'] + [f'{c}{k}' for k in range(i + 1, j + 1)])


def horner(k):
    t = 'o0'
    for j in range(1, k + 1):
        t = f'({t}) * c{j} + o{j}' if j > 1 else f'{t} * c{j} + o{j}'
    return t


def q(k, n, top='n'):
    """n / c(n-1) / ... / c(k)"""
    return top + ''.join(f' / c{j}' for j in range(n - 1, k - 1, -1))


def par(names, ty='nat'):
    return ', '.join(f'{x}: {ty}' for x in names)


def os(n, o='o'): return [f'{o}{i}' for i in range(n)]


def lemmas(n):
    O, C = os(n), os(n, 'c')
    s = ''
    so, sc = sq(O), sq(C)
    # product
    s += f'pub proof fn prod_{n}({par(C)})\n    ensures prod({sc}) == {" * ".join(C) or "1"}\n{{\n'
    if n:
        s += f'    lemma_prod_push({sq(C[:-1])}, c{n-1});\n    prod_{n-1}({", ".join(C[:-1])});\n'
        if n == 1:
            s += '    assert(1 * c0 == c0);\n'
    s += '}\n'
    # positive
    if n:
        s += f'pub proof fn pos_{n}({par(C)})\n    requires prod({sc}) > 0\n    ensures {", ".join(c + " > 0" for c in C)}\n{{\n    let c = {sc};\n    lemma_prod_pos(c);\n'
        for i in range(n):
            s += f'    assert(c[{i}] == c{i});\n'
        s += '}\n'
    if n == 0:
        return s
    # mix
    M = lambda i, j: f'm{i}_{j}'
    lets = []
    for i in range(n):
        lets.append(f'let {M(i, i)} = o{i};')
        lets += [f'let {M(i, j)} = {M(i, j - 1)} * c{j};' for j in range(i + 1, n)]
    lets.append(f'let w = mix({so}, {sc});')
    ens = [f'w == ' + ' + '.join(M(i, n - 1) for i in range(n))]
    ens += [f'0 <= {M(i, j)} <= w' for i in range(n) for j in range(i, n)]
    if n > 2:
        # the same in nested form
        lets.append('let h0 = o0;')
        for k in range(1, n):
            lets += [f'let g{k} = h{k-1} * c{k};', f'let h{k} = g{k} + o{k};']
            ens += [f'0 <= g{k} <= w', f'0 <= h{k} <= w']
        ens.append(f'w == h{n-1}')
    s += f'pub proof fn mix_{n}({par(O)}, {par(C)})\n    requires {", ".join(f"o{i} < c{i}" for i in range(n))}\n    ensures ({{\n        ' + '\n        '.join(lets) + '\n        &&& ' + '\n        &&& '.join(ens) + '\n    })\n{\n'
    s += f'    lemma_mix_push({sq(O[:-1])}, {sq(C[:-1])}, o{n-1}, c{n-1});\n'
    if n == 1:
        s += '    assert(0 * c0 == 0);\n'
    else:
        l = n - 1
        s += f'    mix_{n-1}({", ".join(O[:-1])}, {", ".join(C[:-1])});\n    let h = mix({sq(O[:-1])}, {sq(C[:-1])});\n'
        s += f'    nl_grow(h, c{l});\n'
        for i in range(l):
            for k in range(i, l):
                s += f'    let {M(i, k)} = ' + (f'o{i}' if k == i else f'{M(i, k-1)} * c{k}') + ';\n'
            s += f'    let x{i} = {M(i, l - 1)};\n    nl_pos(x{i}, c{l});\n'
        # distribute one at a time
        acc = 'x0'
        for i in range(1, l):
            s += f'    let a{i} = {acc};\n    nl_dist(a{i}, x{i}, c{l});\n'
            acc = f'(a{i} + x{i})'
        s += '' if l < 2 else f'    assert(h == {acc});\n'
    s += '}\n'
    # unmix
    lets = [f'let q{n} = n;']
    for k in range(n - 1, -1, -1):
        lets += [f'let d{k} = q{k+1} % c{k};', f'let q{k} = q{k+1} / c{k};']
    sd = sq(os(n, 'd'))
    ens = [f'0 <= d{k} < c{k}' for k in range(n)] + [f'mix({sd}, {sc}) + q0 * prod({sc}) == n',
           f'(q0 == 0) == (n < prod({sc}))', f'q0 == 0 ==> mix({sd}, {sc}) == n', f'q0 >= 0']
    s += f'pub proof fn unmix_{n}(n: nat, {par(C)})\n    requires {", ".join(c + " > 0" for c in C)}\n    ensures ({{\n        ' + '\n        '.join(lets) + '\n        &&& ' + '\n        &&& '.join(ens) + '\n    })\n{\n'
    l = n - 1
    s += ''.join('    ' + x + '\n' for x in lets)
    s += f'    let qq = n / c{l};\n    let m = n % c{l};\n    nl_div(n, c{l});\n'
    s += f'    lemma_mix_push({sq(os(l, "d"))}, {sq(C[:-1])}, m, c{l});\n    lemma_prod_push({sq(C[:-1])}, c{l});\n'
    if n == 1:
        s += '    assert(0 * c0 == 0);\n    assert(1 * c0 == c0);\n    nl_less(qq, 1, c0, m);\n    assert(prod(Seq::<nat>::empty()) == 1);\n'
        s += '    if qq == 0 { assert(0 * (1 * c0) == 0); }\n'
    else:
        s += f'    unmix_{n-1}(qq, {", ".join(C[:-1])});\n'
        s += f'    let h = mix({sq(os(l, "d"))}, {sq(C[:-1])});\n    let p = prod({sq(C[:-1])});\n    let t = q0;\n'
        s += f'    nl_unmix(h, t, p, c{l}, m);\n'
        s += f'    nl_less(qq, p, c{l}, m);\n'
        s += f'    if t == 0 {{ assert(0 * (p * c{l}) == 0); }}\n'
    s += '}\n'
    return s


def tuple_impl(n):
    T = [chr(65 + i) for i in range(n)]
    C = [f'{t}::count()' for t in T]
    o = lambda who: sq(f'{who}.{i}.ord()' for i in range(n))
    c = sq(C)
    fits = ' && '.join([f'{t}::fits()' for t in T] + [f'prod({c}) <= usize::MAX'])
    nl = '\n        '
    s = f'@impl Ordinal for Tuple{n}\n'
    s += f'    open spec fn count() -> nat {{ prod({c}) }}\n    open spec fn fits() -> bool {{ {fits} }}\n'
    s += f'    open spec fn ord(&self) -> nat {{ mix({o("self")}, {c}) }}\n    proof fn count_bound() {{}}\n'
    def below(who, var):
        return ''.join(f'{who}.{i}.ord_range(); ' for i in range(n)) + nl + f'let {var} = {o(who)};' + nl + \
            ''.join(f'assert({var}[{i}] == {who}.{i}.ord()); assert(c[{i}] == {C[i]}); ' for i in range(n))
    s += f'    proof fn ord_range(&self) {{{nl}let c = {c};{nl}{below("self", "o")}{nl}lemma_mix_lt(o, c);\n    }}\n'
    s += f'    proof fn ord_inj(&self, other: &Self) {{{nl}let c = {c};{nl}{below("self", "a")}{nl}{below("other", "b")}{nl}lemma_mix_inj(a, b, c);{nl}'
    s += ''.join(f'self.{i}.ord_inj(&other.{i}); ' for i in range(n)) + '\n    }\n'
    s += f'    proof fn ord_onto(n: nat) -> (r: Self) {{{nl}let c = {c};{nl}let d = lemma_mix_onto(n, c);{nl}'
    s += ''.join(f'assert(c[{i}] == {C[i]}); let x{i} = {T[i]}::ord_onto(d[{i}]); ' for i in range(n))
    tup = '(' + ''.join(f'x{i}, ' for i in range(n)) + ')'
    s += f'{nl}let r: Self = {tup};{nl}let o = {o("r")};{nl}assert(o =~= d);{nl}r\n    }}\n'
    args = ', '.join(C)
    s += f'@fn Ordinal for Tuple{n}::ORDINAL_SIZE -> r C04\n@pre\nproof {{ prod_{n}({args}); }}\n'
    oa = ', '.join(f'self.{i}.ord()' for i in range(n))
    s += f'@fn Ordinal for Tuple{n}::ordinal -> r C04\n@pre\nproof {{ self.ord_range(); ' + ''.join(f'self.{i}.ord_range(); ' for i in range(n)) + (f'mix_{n}({oa}, {args}); ' if n else '') + '}\n'
    s += f'@fn Ordinal for Tuple{n}::from_ordinal -> r C04\n@pre\nproof {{ '
    if n:
        s += f'if prod({c}) > 0 {{ pos_{n}({args}); unmix_{n}(ordinal as nat, {args}); }} '
    s += '}\n'
    return s


def overlay():
    s = '@file ordinal/impls/tuple.rs\n@use\nuse crate::ordinal::traits::group_ordinal;\n@mod' + BASE
    for n in range(17):
        s += lemmas(n)
    for n in range(17):
        s += tuple_impl(n)
    return s


if __name__ == '__main__':
    (Path(__file__).resolve().parent.parent / 'overlay/tuple.ov').write_text(overlay())
