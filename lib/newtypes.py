"""Models of the repository's integer newtypes for the Verus units. Every operation of them that a unit uses is proved
to agree with the real one by the Kani contracts of contracts/kani/bases__types__*.rs."""

# name -> (base, is it u64-like with `new`)


def ops(a, b, out, base, op, req, val, tr):
    return f"""
impl {tr}SpecImpl<{b}> for {a} {{
    open spec fn obeys_{op}_spec() -> bool {{ true }}
    open spec fn {op}_req(self, rhs: {b}) -> bool {{ {req} }}
    open spec fn {op}_spec(self, rhs: {b}) -> {out} {{ {val} }}
}}
impl std::ops::{tr}<{b}> for {a} {{
    type Output = {out};
    #[verifier::external_body]
    fn {op}(self, rhs: {b}) -> {out} {{ unimplemented!() }}
}}"""


def assign(a, b, op, req, val, tr):
    return f"""
impl {tr}AssignSpecImpl<{b}> for {a} {{
    open spec fn obeys_{op}_assign_spec() -> bool {{ true }}
    open spec fn {op}_assign_req(&self, rhs: {b}) -> bool {{ {req} }}
    open spec fn {op}_assign_spec(&self, rhs: {b}) -> &{a} {{ &{val} }}
}}
impl std::ops::{tr}Assign<{b}> for {a} {{
    #[verifier::external_body]
    fn {op}_assign(&mut self, rhs: {b}) {{ unimplemented!() }}
}}"""


def conv(frm, to, val):
    return f"""
impl FromSpecImpl<{frm}> for {to} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: {frm}) -> {to} {{ {val} }}
}}
impl From<{frm}> for {to} {{
    #[verifier::external_body]
    fn from(v: {frm}) -> {to} {{ unimplemented!() }}
}}"""


def order(a):
    return f"""
impl PartialEqSpecImpl for {a} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &{a}) -> bool {{ self.0 == o.0 }}
}}
impl PartialEq for {a} {{
    #[verifier::external_body]
    fn eq(&self, o: &{a}) -> bool {{ unimplemented!() }}
}}
impl PartialOrdSpecImpl for {a} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{a}) -> Option<std::cmp::Ordering> {{
        Some(if self.0 < o.0 {{ std::cmp::Ordering::Less }} else if self.0 == o.0 {{ std::cmp::Ordering::Equal }} else {{ std::cmp::Ordering::Greater }})
    }}
}}
impl PartialOrd for {a} {{
    #[verifier::external_body]
    fn partial_cmp(&self, o: &{a}) -> Option<std::cmp::Ordering> {{ unimplemented!() }}
}}
impl Eq for {a} {{}}
impl OrdSpecImpl for {a} {{
    open spec fn obeys_cmp_spec() -> bool {{ true }}
    open spec fn cmp_spec(&self, o: &{a}) -> std::cmp::Ordering {{
        if self.0 < o.0 {{ std::cmp::Ordering::Less }} else if self.0 == o.0 {{ std::cmp::Ordering::Equal }} else {{ std::cmp::Ordering::Greater }}
    }}
}}
impl Ord for {a} {{
    #[verifier::external_body]
    fn cmp(&self, o: &{a}) -> std::cmp::Ordering {{ unimplemented!() }}
}}"""


def into(a, *tys):
    s = ""
    for t in tys:
        s += f"""
    #[verifier::external_body]
    pub fn into_{t}(self) -> (r: {t}) ensures r == self.0 {{ unimplemented!() }}"""
    return f"impl {a} {{{s}\n}}"


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}


def pair(idx, count, base, sized):
    wide = [t for t in ("u8", "u16", "u32", "u64") if BITS[t] >= BITS[base]]
    it = f"{idx}Iter"
    return f"""
#[derive(Clone, Copy)] pub struct {idx}(pub {base});
#[derive(Clone, Copy)] pub struct {count}(pub {base});
""" + order(idx) + order(count) + \
        ops(idx, count, idx, base, "add", f"self.0 + rhs.0 <= {base}::MAX", f"{idx}((self.0 + rhs.0) as {base})", "Add") + \
        ops(idx, idx, idx, base, "add", f"self.0 + rhs.0 <= {base}::MAX", f"{idx}((self.0 + rhs.0) as {base})", "Add") + \
        ops(idx, idx, count, base, "sub", "self.0 >= rhs.0", f"{count}((self.0 - rhs.0) as {base})", "Sub") + \
        ops(count, base, count, base, "div", "rhs != 0", f"{count}((self.0 as int / rhs as int) as {base})", "Div") + \
        ops(count, base, count, base, "add", f"self.0 + rhs <= {base}::MAX", f"{count}((self.0 + rhs) as {base})", "Add") + \
        assign(count, base, "add", f"self.0 + rhs <= {base}::MAX", f"{count}((self.0 + rhs) as {base})", "Add") + \
        assign(idx, base, "add", f"self.0 + rhs <= {base}::MAX", f"{idx}((self.0 + rhs) as {base})", "Add") + \
        (ops(count, "Size", "Size", base, "mul", "self.0 as int * rhs.0 as int <= u64::MAX", "Size((self.0 as int * rhs.0 as int) as u64)", "Mul") if sized else "") + \
        conv(base, idx, f"{idx}(v)") + conv(base, count, f"{count}(v)") + \
        into(idx, *wide, "usize") + into(count, *wide, "usize") + f"""
pub struct {it} {{ pub cur: {base}, pub end: {base} }}
impl IteratorSpecImpl for {it} {{
    open spec fn obeys_prophetic_iter_laws(&self) -> bool {{ true }}
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<{idx}> {{ Seq::new((self.end - self.cur) as nat, |i: int| {idx}((self.cur + i) as {base})) }}
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool {{ true }}
    open spec fn decrease(&self) -> Option<nat> {{ Some((self.end - self.cur) as nat) }}
    open spec fn peek(&self, i: int) -> Option<{idx}> {{ if 0 <= i < self.end - self.cur {{ Some({idx}((self.cur + i) as {base})) }} else {{ None }} }}
}}
impl Iterator for {it} {{
    type Item = {idx};
    #[verifier::external_body]
    fn next(&mut self) -> Option<{idx}> {{ unimplemented!() }}
}}
impl IntoIterator for {count} {{
    type Item = {idx};
    type IntoIter = {it};
    #[verifier::external_body]
    fn into_iter(self) -> (r: {it}) ensures r.cur == 0, r.end == self.0 {{ unimplemented!() }}
}}
impl {idx} {{
    #[verifier::external_body]
    pub fn is_valid(&self, c: {count}Inner) -> (r: bool) ensures r == (self.0 < c.0) {{ unimplemented!() }}
}}
#[derive(Clone, Copy)] pub struct {count}Inner(pub {base});
impl std::ops::Deref for {count} {{
    type Target = {count}Inner;
    #[verifier::external_body]
    fn deref(&self) -> (r: &{count}Inner) ensures r.0 == self.0 {{ unimplemented!() }}
}}
#[derive(Clone, Copy)] pub struct {idx}Inner(pub {base});
impl std::ops::Deref for {idx} {{
    type Target = {idx}Inner;
    #[verifier::external_body]
    fn deref(&self) -> (r: &{idx}Inner) ensures r.0 == self.0 {{ unimplemented!() }}
}}
"""


HEAD = """
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::*;
global size_of usize == 8;
"""


def sizes():
    """Size, Offset, ASize"""
    b = "u64"
    s = "#[derive(Clone, Copy)] pub struct Size(pub u64);\n#[derive(Clone, Copy)] pub struct Offset(pub u64);\n#[derive(Clone, Copy)] pub struct ASize(pub usize);\n"
    s += order("Size") + order("Offset") + order("ASize")
    add = lambda a, c, o: ops(a, c, o, b, "add", f"self.0 + rhs.0 <= {b}::MAX", f"{o}((self.0 + rhs.0) as {b})", "Add")
    s += add("Size", "Size", "Size") + add("Offset", "Size", "Offset") + add("Offset", "Offset", "Offset")
    s += ops("Size", "Size", "Size", b, "sub", "self.0 >= rhs.0", "Size((self.0 - rhs.0) as u64)", "Sub")
    s += ops("Offset", "Offset", "Size", b, "sub", "self.0 >= rhs.0", "Size((self.0 - rhs.0) as u64)", "Sub")
    for a, c, v in (("Offset", "usize", "rhs"), ("Offset", "Size", "rhs.0"), ("Offset", "ASize", "rhs.0"), ("Offset", "Offset", "rhs.0"), ("Size", "u64", "rhs"), ("Size", "usize", "rhs")):
        s += assign(a, c, "add", f"self.0 + {v} <= u64::MAX", f"{a}((self.0 + {v}) as u64)", "Add")
    s += conv("u64", "Size", "Size(v)") + conv("usize", "Size", "Size(v as u64)") + conv("u64", "Offset", "Offset(v)")
    s += conv("usize", "Offset", "Offset(v as u64)") + conv("usize", "ASize", "ASize(v)") + conv("ASize", "Size", "Size(v.0 as u64)")
    s += conv("u16", "Size", "Size(v as u64)") + conv("Size", "Offset", "Offset(v.0)") + conv("Offset", "Size", "Size(v.0)") + conv("ASize", "Offset", "Offset(v.0 as u64)")
    s += ops("Offset", "Size", "Offset", b, "sub", "self.0 >= rhs.0", "Offset((self.0 - rhs.0) as u64)", "Sub")
    s += add("Offset", "ASize", "Offset") + add("Offset", "usize", "Offset").replace("rhs.0", "rhs")
    s += ops("ASize", "ASize", "ASize", b, "sub", "self.0 >= rhs.0", "ASize((self.0 - rhs.0) as usize)", "Sub")
    s += into("Size", "u64") + into("Offset", "u64") + """
impl Offset {
    #[verifier::external_body]
    pub fn zero() -> (r: Offset) ensures r.0 == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_valid(&self, s: Size) -> (r: bool) ensures r == (self.0 <= s.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn force_into_usize(self) -> (r: usize) ensures r == self.0 { unimplemented!() }
}
impl Size {
    pub const fn new(v: u64) -> (r: Size) ensures r.0 == v { Size(v) }
    #[verifier::external_body]
    pub fn zero() -> (r: Size) ensures r.0 == 0 { unimplemented!() }
}
impl ASize {
    pub const fn new(v: usize) -> (r: ASize) ensures r.0 == v { ASize(v) }
    #[verifier::external_body]
    pub fn into_usize(self) -> (r: usize) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_u64(self) -> (r: u64) ensures r == self.0 { unimplemented!() }
}
"""
    return s


def expand(args):
    out = HEAD
    i = 0
    while i < len(args):
        if args[i] == "sizes":
            out += sizes()
            i += 1
        elif args[i] == "head":
            i += 1
        else:
            out += pair(*args[i:i + 3], "sizes" in args)
            i += 3
    return out
