#!/usr/bin/env python3
"""Generates harness/src/registry.rs: one uniform entry per public scalar function of the single-chain API
(free function, method reached through the nested model structs, and extern "C" symbol).
Run by hand against the pinned tree; the output is committed (the public API is what the properties are about)."""
import re, os, sys
root = '/repo/src/physics/single_chain'
fnre = re.compile(r'^( *)pub (?:extern )?fn (\w+)\(([^)]*)\)\s*->\s*f64', re.M)
roots = {'ideal':('ideal::Ideal','e0'),'fjc':('fjc::FJC','e0'),'efjc':('efjc::EFJC','ls'),'swfjc':('swfjc::SWFJC','ww'),'wlc':('wlc::WLC','lp'),
 'ufjc/log_squared':('ufjc::log_squared::','ls'),'ufjc/morse':('ufjc::morse::','ls,le'),'ufjc/lennard_jones':('ufjc::lennard_jones::','ls')}
short = {'number_of_links':'nl','link_length':'ll','hinge_mass':'hm','link_stiffness':'ls','link_energy':'le','well_width':'ww','persistance_length':'lp',
 'temperature':'t','force':'f','end_to_end_length':'xi','potential_distance':'pd','potential_stiffness':'pk','nondimensional_force':'nf',
 'nondimensional_end_to_end_length_per_link':'g','nondimensional_link_stiffness':'nls','nondimensional_link_energy':'nle','nondimensional_persistance_length':'nlp',
 'nondimensional_potential_distance':'npd','nondimensional_potential_stiffness':'npk','normalization_nondimensional_equilibrium_distribution':'norm'}
out = []
ents = {}
fields = []
makers = {}
for d, _, fs in sorted(os.walk(root)):
    rel = d[len(root)+1:]
    if 'monte_carlo' in rel or not rel: continue
    key = next((k for k in roots if rel == k or rel.startswith(k+'/')), None)
    if key is None: continue
    mods = open(d+'/mod.rs').read()
    st = re.search(r'pub struct (\w+)', mods)
    rp, extra = roots[key]
    rootstruct = re.search(r'pub struct (\w+)', open(f'{root}/{key}/mod.rs').read()).group(1)
    rustroot = 'polymers::physics::single_chain::' + key.replace('/', '::') + '::' + rootstruct
    init = {'e0':'p.nl,p.ll,p.hm','ls':'p.nl,p.ll,p.hm,p.ls','ww':'p.nl,p.ll,p.hm,p.ww','lp':'p.nl,p.ll,p.hm,p.lp','ls,le':'p.nl,p.ll,p.hm,p.ls,p.le'}[extra]
    nest = rel[len(key)+1:].replace('/', '.')
    stb = re.search(r'pub struct \w+[^{]*\{(.*?)\n\}', mods, re.S)
    for fm in re.finditer(r'^ *pub (\w+): (f64|u8)', stb.group(1) if stb else '', re.M):
        if fm.group(1) in short:
            inst0 = f"{rustroot}::init({init})" + ('.' + nest if nest else '')
            fields.append((rel, fm.group(1), f"({inst0}.{fm.group(1)} as f64, p.{short[fm.group(1)]} as f64)"))
            if nest: fields.append((rel, fm.group(1), f"(polymers::physics::single_chain::{rel.replace('/', '::')}::{st.group(1)}::init({init}).{fm.group(1)} as f64, p.{short[fm.group(1)]} as f64)"))
        else: print('field', rel, fm.group(1), file=sys.stderr)
    mpath = 'polymers::physics::single_chain::' + rel.replace('/', '::')
    for m in fnre.finditer(mods):
        ind, name, args = m.groups()
        al = [a.strip() for a in args.split(',') if a.strip()]
        e = ents.setdefault((rel, name), {})
        if not ind:
            names = [a.split(':')[0] for a in al]
            e['free'] = (names, f"{mpath}::{name}({','.join('&p.'+short[n] for n in names)})")
        else:
            assert al[0] == '&self', al
            names = [a.split(':')[0] for a in al[1:]]
            inst = f"{rustroot}::init({init})" + ('.' + nest if nest else '')
            e['meth'] = (names, f"{inst}.{name}({','.join('&p.'+short[n] for n in names)})")
            own = mpath + '::' + st.group(1)
            e['own'] = f"{own}::init({init}).{name}({','.join('&p.'+short[n] for n in names)})"
            e['on'] = f"o.get::<{rustroot}>()" + ('.' + nest if nest else '') + f".{name}({','.join('&p.'+short[n] for n in names)})"
            makers[key] = (rustroot, f"{rustroot}::init({init})")
    if os.path.exists(d+'/ex.rs'):
        exs = open(d+'/ex.rs').read()
        pre = 'physics_single_chain_' + rel.replace('/', '_') + '_'
        for m in fnre.finditer(exs):
            name, args = m.group(2), m.group(3)
            if not name.startswith(pre): print('odd ex name', rel, name, file=sys.stderr)
            n2 = name[len(pre):]
            names = [a.strip().split(':')[0] for a in args.split(',') if a.strip()]
            tys = [a.strip().split(':')[1].strip() for a in args.split(',') if a.strip()]
            e = ents.setdefault((rel, n2), {})
            e['ext'] = (names, name, tys)
print('entries', len(ents), file=sys.stderr)
from collections import Counter
print(Counter(tuple(sorted(v)) for v in ents.values()), file=sys.stderr)
for k, v in ents.items():
    if 'meth' not in v: print('no method', k, list(v), file=sys.stderr)
o = ['// @generated by tools/gen_registry.py', '#![allow(improper_ctypes)]', 'use crate::params::P;', 'use crate::reg::{Entry, Obj};', 'extern "C" {']
for k, v in sorted(ents.items()):
    if 'ext' in v: o.append(f"  fn {v['ext'][1]}({','.join('a%d:%s'%(i,t) for i,t in enumerate(v['ext'][2]))})->f64;")
o.append('}')
o.append('pub static ENTRIES: &[Entry] = &[')
def opt(s): return f'Some(|p:&P| {s})' if s else 'None'
for (rel, name), v in sorted(ents.items()):
    fr = v.get('free'); me = v.get('meth'); ex = v.get('ext')
    exs = f"unsafe{{{ex[1]}({','.join('p.'+short[n] for n in ex[0])})}}" if ex else None
    alln = (fr or ex or me)[0]
    o.append(f'Entry{{module:"{rel}",func:"{name}",free_args:&[{",".join(chr(34)+short[n]+chr(34) for n in alln)}],meth_args:&[{",".join(chr(34)+short[n]+chr(34) for n in (me[0] if me else []))}],free:{opt(fr and fr[1])},meth:{opt(me and v['own'])},root:{opt(me and me[1])},ext:{opt(exs)},on:{('Some(|o:&Obj,p:&P| '+v['on']+')') if 'on' in v else 'None'}}},')
o.append('];')
o.append('/// every public parameter field of every nested model object: (module, field, |p| (value, expected))')
o.append('pub static FIELDS: &[(&str, &str, fn(&P) -> (f64, f64))] = &[')
for r, f, e in fields: o.append(f'("{r}","{f}",|p:&P| {e}),')
o.append('];')
o.append('/// a model object of a family')
o.append('pub fn make(module: &str, p: &P) -> Obj {')
for k, (t, e) in sorted(makers.items()): o.append(f'    if module == "{k}" || module.starts_with("{k}/") {{ return crate::obj!({t}, {e}); }}')
o.append('    panic!("no model {module}")\n}')
print('fields', len(fields), file=sys.stderr)
open('/verif/harness/src/registry.rs', 'w').write('\n'.join(o)+'\n')
