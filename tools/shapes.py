#!/usr/bin/env python3
"""Writes declarations deriving Ordinal, each with an independent specification of its numbering.

shapes.py <out.rs> <seed> <number of random shapes>
"""
import random, sys

PRELUDE = '''// Generated by tools/shapes.py; not committed.
'''

LEAVES = ['bool', '()', 'K<0>', 'K<1>', 'K<2>', 'K<3>', 'K<5>', 'Rev<4>', 'Option<bool>', '[bool; 2]', 'std::convert::Infallible', 'u8', '(K<3>, bool)', 'Box<K<2>>']
NAMES = ['a', 'b', 'x', 'y', 'rem', 'ordinal', 'size', 'value', 'f0', 'f1', 'r#type', 'r#match', '__ordinal_map_rem', 'index', 'r#fn', 'data', 'None_', 'std_', 'count', 'res', 'ord', '_check_overflow', 'first', 'rest']


class Shape:
    def __init__(self, name, kind, variants, generics='', args='', where='', attrs='', bounds=''):
        self.name, self.kind, self.variants = name, kind, variants  # variant: (name, style, [(field, type)], disc)
        self.generics, self.args, self.where, self.attrs, self.bounds = generics, args, where, attrs, bounds

    def decl(self):
        def body(style, fields):
            if style == 'unit':
                return ''
            if style == 'tuple':
                return '(' + ', '.join(t for _, t in fields) + ')'
            return ' { ' + ', '.join(f'{n}: {t}' for n, t in fields) + ' }'
        if self.kind == 'struct':
            _, style, fields, _ = self.variants[0]
            end = '' if style == 'record' else ';'
            if style == 'record':
                core = f'struct {self.name}{self.generics}{self.where}{body(style, fields)}'
            else:
                core = f'struct {self.name}{self.generics}{body(style, fields)}{self.where};'
        else:
            vs = ', '.join(n + body(s, f) + (f' = {d}' if d is not None else '') for n, s, f, d in self.variants)
            core = f'enum {self.name}{self.generics}{self.where} {{ {vs} }}'
        return f'#[derive(Ordinal, Clone, Debug, PartialEq)]\n{self.attrs}pub {core}\n'

    def spec(self):
        counts, arms = [], []
        for n, style, fields, _ in self.variants:
            radix = '[' + ', '.join(f'<{t} as Spec>::count()' for _, t in fields) + ']'
            counts.append(f'product(&{radix})')
            path = self.name if self.kind == 'struct' else f'{self.name}::{n}'
            vals = [f'<{t} as Spec>::nth(d[{k}])?' for k, (_, t) in enumerate(fields)]
            if style == 'unit':
                e = path
            elif style == 'tuple':
                e = path + '(' + ', '.join(vals) + ')'
            else:
                e = path + ' { ' + ', '.join(f'{f}: {v}' for (f, _), v in zip(fields, vals)) + ' }'
            arms.append(f'        let radix: Vec<u128> = vec!{radix};\n        let c = product(&radix);\n        if i < c {{\n            let d = digits(i, &radix);\n            return Some({e});\n        }}\n        i -= c;\n')
        total = ' + '.join(counts) or '0'
        g = self.bounds or self.generics
        return (f'impl{g} Spec for {self.name}{self.args}{self.where} {{\n    fn count() -> u128 {{ {total} }}\n'
                f'    #[allow(unused)]\n    fn nth(i: u128) -> Option<Self> {{\n        let mut i = i;\n' + ''.join(arms) + '        None\n    }\n}\n')


def fixed():
    S = Shape
    F = lambda *ts: [(f'f{i}', t) for i, t in enumerate(ts)]
    R = lambda *ps: list(ps)
    out = [
        (S('Unit', 'struct', [('', 'unit', [], None)]), ['Unit']),
        (S('EmptyTuple', 'struct', [('', 'tuple', [], None)]), ['EmptyTuple']),
        (S('EmptyRecord', 'struct', [('', 'record', [], None)]), ['EmptyRecord']),
        (S('Wrap', 'struct', [('', 'tuple', F('u8'), None)]), ['Wrap']),
        (S('Mixed3', 'struct', [('', 'tuple', F('K<2>', 'K<3>', 'K<5>'), None)]), ['Mixed3']),
        (S('Rec4', 'struct', [('', 'record', R(('rem', 'K<2>'), ('ordinal', 'K<3>'), ('__ordinal_map_rem', 'K<5>'), ('r#type', 'bool')), None)]), ['Rec4']),
        (S('Rec2', 'struct', [('', 'record', R(('b', 'K<3>'), ('a', 'K<2>')), None)]), ['Rec2']),
        (S('HasEmpty', 'struct', [('', 'record', R(('a', 'K<3>'), ('b', 'K<0>'), ('c', 'bool')), None)]), ['HasEmpty']),
        (S('Nothing', 'enum', []), ['Nothing']),
        (S('One', 'enum', [('A', 'unit', [], None)]), ['One']),
        (S('Disc', 'enum', [('A', 'unit', [], 5), ('B', 'unit', [], -1), ('C', 'unit', [], 9)], attrs='#[repr(i8)]\n'), ['Disc']),
        (S('Lead', 'enum', [('A', 'tuple', F('K<0>'), None), ('B', 'unit', [], None), ('C', 'tuple', F('bool'), None)]), ['Lead']),
        (S('Middle', 'enum', [('A', 'unit', [], None), ('B', 'tuple', F('bool', 'Nothing'), None), ('C', 'tuple', F('K<3>'), None)]), ['Middle']),
        (S('Trail', 'enum', [('A', 'tuple', F('K<3>'), None), ('B', 'unit', [], None), ('C', 'record', R(('x', 'Nothing')), None)]), ['Trail']),
        (S('AllEmpty', 'enum', [('A', 'tuple', F('Nothing'), None), ('B', 'tuple', F('K<0>', 'u8'), None)]), ['AllEmpty']),
        (S('UnitsFirst', 'enum', [('A', 'unit', [], None), ('B', 'unit', [], None), ('C', 'tuple', F('K<3>', 'bool'), None), ('D', 'record', R(('ordinal', 'bool'), ('rem', 'K<3>')), None)]), ['UnitsFirst']),
        (S('UnitsLast', 'enum', [('C', 'tuple', F('K<3>', 'bool'), None), ('D', 'record', R(('y', 'bool'), ('x', 'K<3>')), None), ('A', 'unit', [], None), ('B', 'unit', [], None)]), ['UnitsLast']),
        (S('Braces', 'enum', [('A', 'tuple', [], None), ('B', 'record', [], None), ('C', 'unit', [], None), ('D', 'tuple', F('bool'), None)]), ['Braces']),
        (S('Fours', 'enum', [('A', 'tuple', F('K<2>', 'K<3>', 'K<2>', 'K<5>'), None), ('B', 'tuple', F('K<3>', 'K<2>', 'K<5>', 'K<2>'), None)]), ['Fours']),
        (S('Gen', 'struct', [('', 'record', R(('a', 'T'), ('b', 'bool')), None)], '<T: Ordinal>', '<T>', bounds='<T: Ordinal + Spec>'), ['Gen<K<3>>', 'Gen<K<0>>', 'Gen<Option<u8>>']),
        (S('GenWhere', 'enum', [('A', 'tuple', F('T', 'U'), None), ('B', 'tuple', F('U'), None), ('C', 'unit', [], None)], '<T, U>', '<T, U>', ' where T: Ordinal + Spec, U: Ordinal + Spec'), ['GenWhere<bool, K<3>>', 'GenWhere<K<0>, K<2>>', 'GenWhere<(), ()>']),
        (S('GenConst', 'struct', [('', 'tuple', F('[K<3>; N]', 'bool'), None)], '<const N: usize>', '<N>'), ['GenConst<0>', 'GenConst<1>', 'GenConst<4>']),
        (S('GenEnum', 'enum', [('A', 'tuple', F('[T; N]'), None), ('B', 'record', R(('x', 'Option<T>'), ('y', '[bool; N]')), None)], '<T: Ordinal, const N: usize>', '<T, N>', bounds='<T: Ordinal + Spec, const N: usize>'), ['GenEnum<K<2>, 3>', 'GenEnum<K<0>, 1>', 'GenEnum<K<0>, 0>']),
        (S('Huge', 'enum', [('A', 'tuple', F('K<{ usize::MAX - 7 }>'), None), ('B', 'unit', [], None), ('C', 'tuple', F('K<3>', 'bool'), None)]), ['Huge']),
        (S('HugeLast', 'enum', [('B', 'unit', [], None), ('C', 'tuple', F('K<3>', 'bool'), None), ('A', 'tuple', F('K<{ usize::MAX - 7 }>'), None)]), ['HugeLast']),
        (S('HugeProduct', 'struct', [('', 'tuple', F('u32', 'K<{ (1 << 32) - 1 }>'), None)]), ['HugeProduct']),
        (S('Wide', 'enum', [(f'V{i}', 'unit', [], None) for i in range(300)]), ['Wide']),
        (S('Long', 'struct', [('', 'tuple', F(*(['bool'] * 11 + ['K<3>'] + ['bool'] * 8)), None)]), ['Long']),
        (S('Option_', 'enum', [('None', 'unit', [], None), ('Some', 'tuple', F('bool'), None), ('Ok', 'record', R(('std_', 'bool')), None)]), ['Option_']),
    ]
    return out


def count_of(t, known):
    base = {'bool': 2, '()': 1, 'K<0>': 0, 'K<1>': 1, 'K<2>': 2, 'K<3>': 3, 'K<5>': 5, 'Rev<4>': 4, 'Option<bool>': 3, '[bool; 2]': 4,
            'std::convert::Infallible': 0, 'u8': 256, '(K<3>, bool)': 6, 'Box<K<2>>': 2}
    return base.get(t, known.get(t))


def randoms(rng, n):
    out, known = [], {}
    for k in range(n):
        name = f'R{k}'
        kind = 'struct' if rng.random() < 0.35 else 'enum'
        nv = 1 if kind == 'struct' else rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        variants, total = [], 0
        for v in range(nv):
            style = rng.choice(['unit', 'tuple', 'tuple', 'record', 'record'])
            nf = 0 if style == 'unit' else rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
            names = rng.sample(NAMES, nf)
            fields, c = [], 1
            for f in range(nf):
                pool = LEAVES + list(known) * 2
                # types with no values only now and then
                t = rng.choice(pool)
                if count_of(t, known) == 0 and rng.random() < 0.6:
                    t = 'K<3>'
                if c * count_of(t, known) > 20000:
                    t = 'bool'
                c *= count_of(t, known)
                fields.append((names[f], t))
            total += c
            variants.append((f'V{v}', style, fields, None))
        if total > 30000:
            variants, total = variants[:1] if kind == 'struct' else [('V0', 'unit', [], None)], None
            if kind == 'struct':
                variants = [('', 'unit', [], None)]
            total = 1
        known[name] = total
        out.append((Shape(name, kind, variants), [name]))
    return out


def main():
    path, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    shapes = fixed() + randoms(rng, n)
    s = PRELUDE
    for sh, _ in shapes:
        s += sh.decl() + sh.spec()
    s += 'pub fn run_shapes(r: &mut Run, ex: usize, rnd: usize) {\n'
    for _, insts in shapes:
        for t in insts:
            s += f'    check_type::<{t}>(r, "{t}", ex, rnd);\n'
    s += '}\n'
    try:
        with open(path) as f:
            if f.read() == s:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
