"""Color, LineWeight, layer colours"""
import re
from pieces import Module, Source, LostAnchor, item_text, project, generated_dir


def build(repo, spec):
    m = Module(repo, spec)
    cs, ls, hf = (Source(repo + '/src/%s.rs' % n) for n in ('color', 'line_weight', 'helper_functions'))
    m.raw('''
pub open spec fn sat_abs(v: int) -> int { if v == -32768 { 32767 } else if v < 0 { -v } else { v } }
#[verifier::external_body]
pub fn x_saturating_abs(v: i16) -> (r: i16) ensures r == sat_abs(v as int), { v.saturating_abs() }
''')
    for s, t in ((cs, 'Color'), (ls, 'LineWeight')):
        m.raw(re.sub(r'(\braw_value:)', r'pub \1', item_text(s, 'struct', t)))
    m.raw(project(Source(generated_dir() + '/tables.rs'), 'Layer', ['is_layer_on']))

    def fn(s, name, sig_rx, sig, ens, ty):
        f = s.fn('%s::%s' % (ty, name)).expect_sig(sig_rx)
        f.rewrite(r'i16::from\((\w+)\)', r'(\1 as i16)', 'lossless i16::from(u8) -> as')
        f.rewrite(r'(\w+(?:\.\w+\(\))?)\.saturating_abs\(\)', r'x_saturating_abs(\1)', 'saturating_abs -> assumed contract')
        m.fn(f, sig, ens, ty)
    Q = [('is_by_layer', '== 256'), ('is_by_entity', '== 257'), ('is_by_block', '== 0'), ('is_turned_off', '< 0')]
    for n, c in Q:
        fn(cs, n, r'fn %s\(&self\) -> bool' % n, 'pub fn %s(&self) -> (r: bool)' % n, 'ensures r == (self.raw_value %s),' % c, 'Color')
    fn(cs, 'is_index', r'fn is_index\(&self\) -> bool', 'pub fn is_index(&self) -> (r: bool)', 'ensures r == (1 <= self.raw_value <= 255),', 'Color')
    fn(cs, 'index', r'fn index\(&self\) -> Option<u8>', 'pub fn index(&self) -> (r: Option<u8>)', 'ensures r is Some == (1 <= self.raw_value <= 255), r is Some ==> r->Some_0 == self.raw_value,', 'Color')
    fn(cs, 'raw_value', r'fn raw_value\(&self\) -> i16', 'pub fn raw_value(&self) -> (r: i16)', 'ensures r == self.raw_value,', 'Color')
    fn(cs, 'from_raw_value', r'fn from_raw_value\(val: i16\) -> Color', 'pub fn from_raw_value(val: i16) -> (r: Color)', 'ensures r.raw_value == val,', 'Color')
    for n, v in (('by_layer', 256), ('by_block', 0), ('by_entity', 257)):
        fn(cs, 'set_' + n, r'fn set_%s\(&mut self\)' % n, 'pub fn set_%s(&mut self)' % n, 'ensures final(self).raw_value == %d,' % v, 'Color')
        fn(cs, n, r'fn %s\(\) -> Color' % n, 'pub fn %s() -> (r: Color)' % n, 'ensures r.raw_value == %d,' % v, 'Color')
    fn(cs, 'turn_off', r'fn turn_off\(&mut self\)', 'pub fn turn_off(&mut self)', 'ensures final(self).raw_value < 0,', 'Color')
    fn(cs, 'from_index', r'fn from_index\(i: u8\) -> Color', 'pub fn from_index(i: u8) -> (r: Color)', 'ensures r.raw_value == i,', 'Color')
    fn(cs, 'writable_color_value', r'fn writable_color_value\(&self, layer: &Layer\) -> i16', 'pub fn writable_color_value(&self, layer: &Layer) -> (r: i16)',
       'ensures r == (if layer.is_layer_on { sat_abs(self.raw_value as int) } else { -sat_abs(self.raw_value as int) }),', 'Color')
    f = hf.fn('read_color_value').expect_sig(r'fn read_color_value\(layer: &mut Layer, color: i16\) -> Color')
    f.rewrite(r'(\w+(?:\.\w+\(\))?)\.saturating_abs\(\)', r'x_saturating_abs(\1)', 'saturating_abs -> assumed contract')
    m.fn(f, 'pub fn read_color_value(layer: &mut Layer, color: i16) -> (r: Color)', 'ensures final(layer).is_layer_on == (color >= 0), r.raw_value == sat_abs(color as int),')
    for n, v in (('by_block', -1), ('by_layer', -2)):
        pass
    fn(ls, 'from_raw_value', r'fn from_raw_value\(v: i16\) -> LineWeight', 'pub fn from_raw_value(v: i16) -> (r: LineWeight)', 'ensures r.raw_value == v,', 'LineWeight')
    fn(ls, 'raw_value', r'fn raw_value\(&self\) -> i16', 'pub fn raw_value(&self) -> (r: i16)', 'ensures r == self.raw_value,', 'LineWeight')
    for n, v in (('by_block', -1), ('by_layer', -2)):
        fn(ls, n, r'fn %s\(\) -> LineWeight' % n, 'pub fn %s() -> (r: LineWeight)' % n, 'ensures r.raw_value == %d,' % v, 'LineWeight')
        fn(ls, 'is_' + n, r'fn is_%s\(&self\) -> bool' % n, 'pub fn is_%s(&self) -> (r: bool)' % n, 'ensures r == (self.raw_value == %d),' % v, 'LineWeight')
    m.raw('''
// THEOREM: a colour read from its raw value is that colour; exactly one meaning holds for every raw value the reference defines
fn meanings(v: i16, i: u8) {
    let c = Color::from_raw_value(v);
    let (a, b, d, o, x) = (c.is_by_layer(), c.is_by_block(), c.is_by_entity(), c.is_turned_off(), c.is_index());
    assert(v <= 257 ==> (a as int) + (b as int) + (d as int) + (o as int) + (x as int) == 1);
    assert(c.raw_value == v);
    let n = Color::from_index(i);
    let j = n.index();
    assert(i > 0 ==> j == Some(i));
    let (p, q, r) = (Color::by_layer().is_by_layer(), Color::by_block().is_by_block(), Color::by_entity().is_by_entity());
    assert(p && q && r);
    let mut e = Color::from_raw_value(v);
    e.set_by_layer(); let s1 = e.is_by_layer();
    e.set_by_block(); let s2 = e.is_by_block();
    e.set_by_entity(); let s3 = e.is_by_entity();
    e.turn_off(); let s4 = e.is_turned_off();
    assert(s1 && s2 && s3 && s4);
    let w = LineWeight::from_raw_value(v).raw_value();
    assert(w == v);
    let (w1, w2) = (LineWeight::by_block().is_by_block(), LineWeight::by_layer().is_by_layer());
    assert(w1 && w2);
    /*CANARY*/
}
// THEOREM: a layer's colour and on/off state survive writing and reading (an off layer needs a non-zero colour)
fn layer_colour(c: Color, layer: Layer, l2: &mut Layer) requires 0 <= c.raw_value, c.raw_value > 0 || layer.is_layer_on {
    let w = c.writable_color_value(&layer);
    let r = read_color_value(l2, w);
    assert(r == c && l2.is_layer_on == layer.is_layer_on);
    /*CANARY*/
}
''')
    return m.done()
