#!/usr/bin/env python3
"""Writes types/src/gen.rs and js/props/types.json: types deriving AutoJsJson (fixed seed; both files are committed)."""
import json, os, random

R = random.Random(20240607)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIMS = ['String', 'u64', 'i64', 'u32', 'i32', 'bool', '()', 'DateTime', 'NaiveDate']
# names that could clash with those the derived code uses, keywords and other scripts
FIELDS = ['name', 'age', 'value', 'json', 'context', 'ctx', 'fields', 'fields_rev', 'f_0', 'f_1', 'result', 'simple_variant', 'compound_variant', 'x', 'item', 'r#type', 'r#match', 'r#fn', 'żółw', 'имя',
          'camelCase', 'UPPER', '_hidden', 'a1', 'self_', 'vertigo_', 'list', 'data', 'root', 'default', 'ok', 'err', 'some', 'none', 'len', 'get_property', 'to_json', 'from_json']
VARIANTS = ['A', 'B', 'Nothing', 'Point', 'Tuple', 'String', 'Some', 'None', 'Ok', 'Err', 'Vec', 'r#type', 'lower', 'Żółw', 'Object', 'List', 'X1', 'Default', 'JsJson', 'Number']
types = []  # [name, kind, ...]
nullable = set()


def named():
    return [t for t in types]


def ty(depth, key=True):
    k = R.choices(['prim', 'named', 'opt', 'vec', 'map'], [6, 4 if types else 0, 2 if depth else 0, 2 if depth else 0, 1.5 if depth else 0])[0]
    if k == 'prim':
        return R.choice(PRIMS)
    if k == 'named':
        return ['named', R.choice(types)[0]]
    if k == 'opt':
        while True:
            t = ty(depth - 1)
            if not (isinstance(t, list) and (t[0] == 'opt' or (t[0] == 'named' and t[1] in nullable))):
                return ['opt', t]
    if k == 'vec':
        return ['vec', ty(depth - 1)]
    return [R.choice(['hm', 'bm']), ty(depth - 1)]


def default_for(t):
    """an expression and the tree of its value"""
    if t == 'String':
        return '"dflt".to_string()', 'dflt'
    if t in ('u64', 'u32', 'i32', 'i64'):
        return '7', 7
    if t == 'bool':
        return 'true', 1
    if isinstance(t, list) and t[0] == 'opt':
        if t[1] == 'String' and R.random() < 0.5:
            return 'Some("x".into())', ['x']
        return 'None', []
    if isinstance(t, list) and t[0] in ('vec', 'hm', 'bm'):
        return ('Vec::new()' if t[0] == 'vec' else 'Default::default()'), []
    return None


def fields(n, defaults=True):
    out = []
    for f in R.sample(FIELDS, n):
        t = ty(2)
        d = default_for(t) if defaults and R.random() < 0.35 else None
        out.append([f, t, d])
    return out


def make(name, kind=None):
    kind = kind or R.choices(['struct', 'tuple', 'newtype', 'unit', 'enum'], [5, 2, 2, 0.4, 5])[0]
    if kind == 'struct':
        return [name, 'struct', fields(R.choice([0, 1, 1, 2, 3, 4, 6, 9]))]
    if kind == 'tuple':
        return [name, 'tuple', [ty(2) for _ in range(R.choice([0, 2, 2, 3, 4, 7]))]]
    if kind == 'newtype':
        t = ty(2)
        if isinstance(t, list) and (t[0] == 'opt' or (t[0] == 'named' and t[1] in nullable)):
            nullable.add(name)
        return [name, 'newtype', t]
    if kind == 'unit':
        return [name, 'unit']
    vs = []
    for v in R.sample(VARIANTS, R.choice([1, 2, 3, 4, 6])):
        k = R.choice(['unit', 'unit', 'tuple', 'struct'])
        if k == 'unit':
            vs.append([v, 'unit', []])
        elif k == 'tuple':
            vs.append([v, 'tuple', [ty(2) for _ in range(R.choice([0, 1, 1, 2, 3, 5]))]])
        else:
            vs.append([v, 'struct', [[f, t] for f, t, _ in fields(R.choice([0, 1, 2, 3, 5]), False)]])
    return [name, 'enum', vs]


fixed = ['struct', 'struct', 'struct', 'tuple', 'newtype', 'unit', 'enum', 'enum', 'enum']
for i in range(60):
    types.append(make(f'T{i}', fixed[i] if i < len(fixed) else None))
# recursive ones, and every variant shape in one type
types.append(['Tree', 'struct', [['value', 'i32', None], ['children', ['vec', ['named', 'Tree']], None]]])
types.append(['Expr', 'enum', [['Num', 'tuple', ['i32']], ['Add', 'tuple', [['vec', ['named', 'Expr']], ['vec', ['named', 'Expr']]]], ['Let', 'struct', [['name', 'String'], ['value', ['vec', ['named', 'Expr']]], ['env', ['hm', ['named', 'Expr']]]]], ['Unit', 'unit', []], ['Empty', 'tuple', []], ['Nil', 'struct', []]]])
types.append(['Deep', 'struct', [['a', ['vec', ['hm', ['vec', ['opt', ['bm', ['named', 'Expr']]]]]], None], ['b', ['opt', ['vec', ['opt', 'DateTime']]], ['None', []]]]])


def rust(t):
    if isinstance(t, str):
        return {'DateTime': 'chrono::DateTime<chrono::Utc>', 'NaiveDate': 'chrono::NaiveDate'}.get(t, t)
    k, x = t
    if k == 'named':
        return x
    return {'opt': 'Option<%s>', 'vec': 'Vec<%s>', 'hm': 'HashMap<String, %s>', 'bm': 'BTreeMap<String, %s>'}[k] % rust(x)


out = ['// Written by tools/gen_types.py.', 'use crate::n::N;', 'use crate::nl;', 'use crate::{run, Shown};', 'use std::collections::{BTreeMap, HashMap};', 'use vertigo::AutoJsJson;', '']
for t in types:
    name, kind = t[0], t[1]
    out.append('#[derive(AutoJsJson, Clone, PartialEq)]')
    if kind == 'struct':
        out.append(f'pub struct {name} {{')
        for f, ft, d in t[2]:
            if d:
                out.append(f'    #[js_json(default = {d[0]})]')
            out.append(f'    pub {f}: {rust(ft)},')
        out.append('}')
        show = 'nl![' + ', '.join(f'self.{f}.show()' for f, _, _ in t[2]) + ']' if t[2] else 'N::L(vec![])'
        build = 'Self { ' + ', '.join(f'{f}: Shown::build(n.at({i}))' for i, (f, _, _) in enumerate(t[2])) + ' }'
    elif kind == 'unit':
        out.append(f'pub struct {name};')
        show, build = 'N::L(vec![])', name
    elif kind in ('tuple', 'newtype'):
        ts = t[2] if kind == 'tuple' else [t[2]]
        out.append(f'pub struct {name}(' + ', '.join('pub ' + rust(x) for x in ts) + ');')
        show = 'nl![' + ', '.join(f'self.{i}.show()' for i in range(len(ts))) + ']' if ts else 'N::L(vec![])'
        build = f'Self(' + ', '.join(f'Shown::build(n.at({i}))' for i in range(len(ts))) + ')'
    else:
        out.append(f'pub enum {name} {{')
        s, b = [], []
        for i, (v, k, fs) in enumerate(t[2]):
            if k == 'unit':
                out.append(f'    {v},')
                s.append(f'            Self::{v} => nl![{i}i64],')
                b.append(f'            {i} => Self::{v},')
            elif k == 'tuple':
                out.append(f'    {v}(' + ', '.join(rust(x) for x in fs) + '),')
                vs = [f'v{j}' for j in range(len(fs))]
                s.append(f'            Self::{v}(' + ', '.join(vs) + f') => nl![{i}i64' + ''.join(f', {x}.show()' for x in vs) + '],')
                b.append(f'            {i} => Self::{v}(' + ', '.join(f'Shown::build(n.at({j + 1}))' for j in range(len(fs))) + '),')
            else:
                out.append(f'    {v} {{ ' + ', '.join(f'{f}: {rust(x)}' for f, x in fs) + ' },')
                s.append(f'            Self::{v} {{ ' + ', '.join(f'{f}: v{j}' for j, (f, _) in enumerate(fs)) + f' }} => nl![{i}i64' + ''.join(f', v{j}.show()' for j in range(len(fs))) + '],')
                b.append(f'            {i} => Self::{v} {{ ' + ', '.join(f'{f}: Shown::build(n.at({j + 1}))' for j, (f, _) in enumerate(fs)) + ' },')
        out.append('}')
        show = 'match self {\n' + '\n'.join(s) + '\n        }'
        build = 'match n.at(0).i() {\n' + '\n'.join(b) + '\n            _ => panic!("harness: variant"),\n        }'
    out += [f'impl Shown for {name} {{', '    fn show(&self) -> N {', '        ' + show, '    }', '    #[allow(unused_variables)]', '    fn build(n: &N) -> Self {', '        ' + build, '    }', '}', '']
roots = [['T', ['named', t[0]]] for t in types]
extra = ['String', 'u64', 'i64', 'u32', 'i32', 'bool', '()', 'DateTime', 'NaiveDate', ['vec', 'String'], ['vec', ['vec', 'u32']], ['opt', 'i64'], ['hm', 'bool'], ['bm', ['opt', 'String']], ['vec', ['opt', '()']], ['hm', ['hm', 'NaiveDate']]]
out += ['pub fn dispatch(req: &N) -> N {', '    match req.at(1).s() {']
for t in types:
    out.append(f'        "{t[0]}" => run::<{t[0]}>(req),')
for i, t in enumerate(extra):
    out.append(f'        "X{i}" => run::<{rust(t)}>(req),')
out += ['        other => panic!("harness: type {other}"),', '    }', '}', '']
open(root + '/types/src/gen.rs', 'w').write('\n'.join(out))
js = {'types': {}, 'roots': [[t[0], ['named', t[0]]] for t in types] + [[f'X{i}', t] for i, t in enumerate(extra)]}
un = lambda s: s[2:] if s.startswith('r#') else s
for t in types:
    if t[1] == 'struct':
        js['types'][t[0]] = ['struct', [[un(f), x, None if d is None else [d[1]]] for f, x, d in t[2]]]
    elif t[1] == 'enum':
        js['types'][t[0]] = ['enum', [[un(v), k, [[un(f), x] for f, x in fs] if k == 'struct' else fs] for v, k, fs in t[2]]]
    else:
        js['types'][t[0]] = t[1:]
json.dump(js, open(root + '/js/props/types.json', 'w'), ensure_ascii=False, indent=0)
print(len(types), 'types')
