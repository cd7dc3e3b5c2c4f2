#!/usr/bin/env python3
"""Writes the committed oracle tables native/src/{flags_list,enums_list}.rs from the tree they were reviewed on
(run by hand, never by a check: the checks compare the current tree against the committed tables)."""
import glob, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gen = os.path.dirname(sorted(glob.glob('/repo/target/debug/build/dxf-*/out/generated/tables.rs'), key=os.path.getmtime)[-1])
out = []
for mod, path in (('dxf::entities', gen + '/entities.rs'), ('dxf::objects', gen + '/objects.rs'), ('dxf', gen + '/header.rs')):
    s = open(path).read()
    for m in re.finditer(r'^impl (\w+) \{\n(.*?)^\}', s, re.S | re.M):
        acc = re.findall(r'pub fn (\w+)\(&self\) -> bool \{\s*self\.(\w+) & (\d+) != 0\s*\}', m.group(2))
        acc = [a for a in acc if 'fn set_%s(' % a[0] in m.group(2)]
        if acc:
            out.append((mod + '::' + m.group(1), acc))
for mod, path, name, field in (('dxf', 'class.rs', 'Class', 'proxy_capability_flags'), ('dxf', 'block.rs', 'Block', 'flags'), ('dxf::enums', 'enums.rs', 'ViewMode', 'raw()')):
    s = open('/repo/src/' + path).read()
    acc = [(a, field, str(int(b, 0))) for a, b in re.findall(r'pub fn (\w+)\(&?self\) -> bool \{\s*self\.flag\((\w+)\)\s*\}', s)]
    out.append((mod + '::' + name, acc))
t = '// generated by tools/gen_lists.py, reviewed, committed: accessor, bit of the DXF flag word\n#[macro_export]\nmacro_rules! flag_lists { ($m:ident, $c:expr) => {\n'
for ty, acc in out:
    t += '    $m!($c, %s, [%s]);\n' % (ty, ', '.join('(%s, set_%s, %s, |v| v.%s as i64)' % (a, a, b, f) for a, f, b in acc))
t += '} }\n'
open(ROOT + '/native/src/flags_list.rs', 'w').write(t)
s = open('/repo/src/enums.rs').read()
en = []
for m in re.finditer(r'pub enum (\w+)\s*\{(.*?)\n\}', s, re.S):
    if m.group(1) == 'AcadVersion':
        continue
    vs, n = [], 0
    body = re.sub(r'//.*', '', m.group(2))
    body = re.sub(r'#\[[^\]]*\]', '', body)
    for v in body.split(','):
        v = v.strip()
        if not v:
            continue
        k = re.match(r'(\w+)\s*(?:=\s*(-?\w+))?$', v)
        if k.group(2):
            n = int(k.group(2), 0)
        vs.append((k.group(1), n))
        n += 1
    en.append((m.group(1), vs))
t = '// generated by tools/gen_lists.py, reviewed, committed: every enumeration with the DXF number of each value\n#[macro_export]\nmacro_rules! enum_lists { ($m:ident, $c:expr) => {\n'
for e, vs in en:
    t += '    $m!($c, %s, [%s]);\n' % (e, ', '.join('(%s, %d)' % v for v in vs))
t += '} }\n'
open(ROOT + '/native/src/enums_list.rs', 'w').write(t)
print(len(out), 'flag structs', sum(len(a) for _, a in out), 'flags;', len(en), 'enums', sum(len(v) for _, v in en), 'values')
