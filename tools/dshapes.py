#!/usr/bin/env python3
"""Declarations deriving Ordinal over generic field types, with the contract of each.

write(dir, seed, n): crate dir/shapes (source the derive macro is expanded in) and dir/shapes.ov
(the contracts).  Every field has a type parameter for type, so the proof of one declaration
covers all field types; the declarations themselves are a bounded family: every struct with up to
8 fields, every enum with up to 3 variants of up to 2 fields, some fixed ones, n random ones.
"""
import itertools, random
from pathlib import Path
import mixed
from mixed import sq

GROUPS = 6
MODULES = ['shapes'] + [f'shapes::g{i}' for i in range(GROUPS)]
FIELD_NAMES = ['a', 'b', 'x', 'y', 'ordinal', 'size', 'value', 'f0', 'f1', 'index', 'data', 'count', 'res', 'first', 'rest', 'k', 'v', 'i', 'other']


class Shape:
    """variants: [(name, style, [(field name, type)])]; a struct is one variant without a name."""
    def __init__(self, name, kind, variants, where=False, extra=''):
        self.name, self.kind, self.variants, self.where, self.extra = name, kind, variants, where, extra
        ps = []
        for _, _, fs in variants:
            for _, t in fs:
                p = t.strip('&')
                for c in p.replace('<', ' ').replace('>', ' ').replace(',', ' ').replace('[', ' ').replace(';', ' ').split():
                    if c[0] == 'T' and c[1:].isdigit() and c not in ps:
                        ps.append(c)
        self.params = sorted(ps, key=lambda p: int(p[1:]))

    def decl(self):
        def body(style, fs):
            if style == 'unit': return ''
            if style == 'tuple': return '(' + ', '.join(('pub ' if self.kind == 'struct' else '') + t for _, t in fs) + ')'
            return ' { ' + ', '.join(('pub ' if self.kind == 'struct' else '') + f'{n}: {t}' for n, t in fs) + ' }'
        bounds = [f'{p}: Ordinal' for p in self.params]
        consts = ['const N: usize'] if any('; N' in t for _, _, fs in self.variants for _, t in fs) else []
        g = '<' + ', '.join((self.params if self.where else bounds) + consts) + '>' if bounds or consts else ''
        w = ' where ' + ', '.join(bounds) if self.where and bounds else ''
        if self.kind == 'struct':
            _, st, fs = self.variants[0]
            core = f'struct {self.name}{g}{w}{body(st, fs)}' if st == 'record' else f'struct {self.name}{g}{body(st, fs)}{w};'
        else:
            vs = ', '.join(n + body(st, fs) for n, st, fs in self.variants)
            core = f'enum {self.name}{g}{w} {{ {vs} }}'
        return f'#[derive(Ordinal)] pub {core}\n'

    # ---- contract
    def types(self, v): return [t for _, t in self.variants[v][2]]
    def counts(self, v): return [f'{self.ty(t)}::count()' for t in self.types(v)]
    def ty(self, t): return t if t.isalnum() else f'<{t}>'
    def prod(self, v): return f'prod({sq(self.counts(v))})'
    def off(self, v): return ' + '.join(self.prod(i) for i in range(v)) or '0'
    def pat(self, v, x):
        n, st, fs = self.variants[v]
        path = self.name if self.kind == 'struct' else f'{self.name}::{n}'
        if st == 'unit': return path
        if st == 'tuple': return path + '(' + ', '.join(f'{x}{i}' for i in range(len(fs))) + ')'
        return path + ' { ' + ', '.join(f'{f}: {x}{i}' for i, (f, _) in enumerate(fs)) + ' }'
    def mix(self, v, x):
        n = len(self.types(v))
        return f'mix({sq(f"{x}{i}.ord()" for i in range(n))}, {sq(self.counts(v))})'

    def contract(self):
        V = range(len(self.variants))
        k = self.name
        cnt = ' + '.join(self.prod(v) for v in V) or '0'
        fits = [f'{self.ty(t)}::fits()' for t in dict.fromkeys(t for v in V for t in self.types(v))]
        # the constant is computed one factor at a time
        for v in V:
            c = self.counts(v)
            fits += [' * '.join(c[:j]) + ' <= usize::MAX' for j in range(2, len(c))]
        fits.append(f'{cnt} <= usize::MAX')
        nl = '\n        '
        def below(v, x, o):
            c = self.counts(v)
            return (f'let c = {sq(c)}; let {o} = {sq(f"{x}{i}.ord()" for i in range(len(c)))}; '
                    + ''.join(f'{x}{i}.ord_range(); assert({o}[{i}] == {x}{i}.ord()); assert(c[{i}] == {c[i]}); ' for i in range(len(c))))
        def match(who, arm, empty='{}'):
            if not V: return f'(*{who}).never_{k}();' if False else 'vstd::pervasive::arbitrary::<()>();'
            return f'match {who} {{' + nl + (',' + nl).join(arm(v) for v in V) + nl + '}'
        s = f'@impl Ordinal for {k}\n'
        s += f'    open spec fn count() -> nat {{ ({cnt}) as nat }}\n    open spec fn fits() -> bool {{ {" && ".join("(" + f + ")" for f in fits)} }}\n'
        if V:
            s += '    open spec fn ord(&self) -> nat { match self {' + nl + (',' + nl).join(f'{self.pat(v, "f")} => ({self.off(v)} + {self.mix(v, "f")}) as nat' for v in V) + nl + '} }\n'
        else:
            s += '    open spec fn ord(&self) -> nat { 0 }\n'
        s += '    proof fn count_bound() {}\n'
        if V:
            lt = lambda who, x: match(who, lambda v: f'{self.pat(v, x)} => {{ {below(v, x, "o")} lemma_mix_lt(o, c); }}')
            s += f'    proof fn ord_range(&self) {{ {lt("self", "f")} }}\n'
            s += f'    proof fn ord_inj(&self, other: &Self) {{{nl}{lt("self", "f")}{nl}{lt("other", "f")}{nl}match (self, other) {{{nl}'
            for v in V:
                n = len(self.types(v))
                s += (f'({self.pat(v, "f")}, {self.pat(v, "g")}) => {{ {below(v, "f", "a")} {below(v, "g", "b")} lemma_mix_inj(a, b, c); '
                      + ''.join(f'f{i}.ord_inj(g{i}); ' for i in range(n)) + f'}},{nl}')
            s += ('_ => {}' if len(V) > 1 else '') + '}\n    }\n'
            s += '    proof fn ord_onto(n: nat) -> (r: Self) {' + nl
            for v in V:
                c = self.counts(v)
                t = self.types(v)
                bodyv = f'let c = {sq(c)}; let d = lemma_mix_onto((n - ({self.off(v)})) as nat, c); '
                bodyv += ''.join(f'assert(c[{i}] == {c[i]}); let x{i} = {self.ty(t[i])}::ord_onto(d[{i}]); ' for i in range(len(c)))
                bodyv += f'assert({sq(f"x{i}.ord()" for i in range(len(c)))} =~= d); let r: Self = {self.pat(v, "x")}; r'
                if v < len(V) - 1:
                    s += f'if n < {self.off(v + 1)} {{ {bodyv} }} else {{{nl}'
                else:
                    s += bodyv + ' ' + '}' * (len(V) - 1)
            s += '\n    }\n'
        else:
            s += f'    proof fn ord_range(&self) {{ never_{k}(self); }}\n    proof fn ord_inj(&self, other: &Self) {{ never_{k}(self); }}\n'
            s += '    proof fn ord_onto(n: nat) -> (r: Self) { vstd::pervasive::proof_from_false() }\n'
        prods = ''.join(f'prod_{len(self.types(v))}({", ".join(self.counts(v))}); ' for v in V)
        s += f'@fn Ordinal for {k}::ORDINAL_SIZE -> r C05\n@pre\nproof {{ {prods} }}\n'
        s += f'@fn Ordinal for {k}::ordinal -> r C05\n@pre\nproof {{ {prods}'
        if V:
            def arm(v):
                n = len(self.types(v))
                a = ', '.join([f'f{i}.ord()' for i in range(n)] + self.counts(v))
                return f'{self.pat(v, "f")} => {{ ' + ''.join(f'f{i}.ord_range(); ' for i in range(n)) + (f'mix_{n}({a}); ' if n else '') + '}'
            s += 'self.ord_range(); ' + match('self', arm)
        else:
            s += f'never_{k}(self);'
        s += f' }}\n@fn Ordinal for {k}::from_ordinal -> r C05\n@pre\nproof {{ {prods}'
        for v in V:
            n = len(self.types(v))
            if n:
                a = ', '.join(self.counts(v))
                s += f'if {self.prod(v)} > 0 && ordinal >= {self.off(v)} {{ pos_{n}({a}); unmix_{n}((ordinal - ({self.off(v)})) as nat, {a}); }}{nl}'
        s += '}\n'
        return s


def family(seed, n):
    rng = random.Random(seed)
    out = []
    P = lambda i: f'T{i}'
    # structs
    for k in range(9):
        st = 'tuple' if k % 2 else 'record'
        fs = [(FIELD_NAMES[i], P(i)) for i in range(k)]
        out.append(Shape(f'S{k}', 'struct', [('', st, fs)]))
        out.append(Shape(f'Z{k}', 'struct', [('', 'record' if st == 'tuple' else 'tuple', fs)], where=k % 3 == 1))
    out.append(Shape('SUnit', 'struct', [('', 'unit', [])]))
    out.append(Shape('SSame', 'struct', [('', 'tuple', [('a', 'T0')] * 4)]))
    out.append(Shape('SNest', 'struct', [('', 'record', [('b', 'Option<T1>'), ('a', 'Result<T0, T1>'), ('c', 'Box<T0>'), ('d', '[T0; N]')])]))
    out.append(Shape('SLong', 'struct', [('', 'tuple', [(f'f{i}', P(i)) for i in range(13)])]))
    # every enum with up to 3 variants of up to 2 fields
    styles = itertools.cycle(['tuple', 'record'])
    units = itertools.cycle(['unit', 'unit', 'tuple', 'unit', 'record'])
    for nv in (1, 2, 3):
        for shape in itertools.product((0, 1, 2), repeat=nv):
            vs, p = [], 0
            for i, c in enumerate(shape):
                st = next(styles) if c else next(units)
                names = rng.sample(FIELD_NAMES, c)
                vs.append((f'V{i}', st, [(names[j], P(p + j)) for j in range(c)]))
                p += c
            out.append(Shape(f'E{nv}_' + ''.join(map(str, shape)), 'enum', vs, where=rng.random() < 0.3))
    out.append(Shape('EWide', 'enum', [(f'V{i}', 'unit', []) for i in range(24)]))
    out.append(Shape('ENest', 'enum', [('A', 'tuple', [('a', 'Option<T0>'), ('b', '[T1; N]')]), ('B', 'unit', []), ('C', 'record', [('x', 'Box<T1>')])]))
    # random ones
    for k in range(n):
        vs, p, np = [], 0, rng.choice([1, 2, 3, 5])
        for i in range(rng.choice([2, 3, 4, 5, 6])):
            c = rng.choice([0, 0, 1, 1, 2, 3, 4])
            st = rng.choice(['tuple', 'record'] + (['unit'] * 3 if c == 0 else []))
            names = rng.sample(FIELD_NAMES, c)
            ts = [rng.choice([P(rng.randrange(np)), P(rng.randrange(np)), f'Option<{P(rng.randrange(np))}>']) for _ in range(c)]
            vs.append((f'W{i}', st, list(zip(names, ts))))
        out.append(Shape(f'R{k}', 'enum', vs, where=rng.random() < 0.5))
    return out


def write(d, repo, seed, n):
    d = Path(d)
    (d / 'shapes/src').mkdir(parents=True, exist_ok=True)
    shapes = family(seed, n)
    (d / 'shapes/Cargo.toml').write_text(
        '[package]\nname = "shapes_crate"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[lib]\npath = "src/lib.rs"\n\n'
        f'[dependencies]\nordinal-map = {{ path = "{repo}/ordinal-map" }}\n\n[workspace]\n')
    # one module per group, so that the verifier can work on them in parallel
    groups = [shapes[i::GROUPS] for i in range(GROUPS)]
    src = '#![allow(dead_code)]\npub mod shapes {\n'
    arity = max(len(f) for s in shapes for _, _, f in s.variants)
    ov = '@file shapes.rs\n@mod' + mixed.BASE + ''.join(mixed.lemmas(k) for k in range(arity + 1))
    for i, g in enumerate(groups):
        src += f'pub mod g{i} {{\nuse ordinal_map::Ordinal;\n' + ''.join(s.decl() for s in g) + '}\n'
        ov += f'@file shapes.rs::g{i}\n@use\nuse crate::shapes::*;\n' + ''.join(s.contract() for s in g)
    (d / 'shapes/src/lib.rs').write_text(src + '}\n')
    (d / 'shapes.ov').write_text(ov)
    return shapes
