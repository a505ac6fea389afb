// ---- text formatting: format!("..{}..", x) is the concatenation of its pieces
pub open spec fn digit(n: nat) -> char { (('0' as u32 + n) as u32) as char }
#[verifier::opaque]
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn dec_int(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) } }
pub trait VxDisplay { spec fn disp(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp(); }
impl VxDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for i64 { open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for i32 { open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl VxDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { self.to_string() } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_to_string(&self) -> String { (**self).vx_to_string() } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a mut T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } #[verifier::external_body] fn vx_to_string(&self) -> String { (**self).vx_to_string() } }
pub uninterp spec fn quoted(t: Seq<char>) -> Seq<char>;
pub trait VxDebug { spec fn dbg(&self) -> Seq<char>; }
impl VxDebug for str { open spec fn dbg(&self) -> Seq<char> { quoted(self@) } }
impl VxDebug for String { open spec fn dbg(&self) -> Seq<char> { quoted(self@) } }
impl<'a, T: VxDebug + ?Sized> VxDebug for &'a T { open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } }
pub fn vx_d<T: VxDisplay + ?Sized>(t: &T) -> (r: String) ensures r@ == t.disp() { t.vx_to_string() }
#[verifier::external_body]
pub fn vx_dbg<T: VxDebug + ?Sized>(t: &T) -> (r: String) ensures r@ == t.dbg() { unimplemented!() }
#[verifier::external_body]
pub fn vx_s(t: &str) -> (r: String) ensures r@ == t@ { t.to_string() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
/// std::fmt::Formatter as the text written to it
pub struct VxFmt { pub s: String }
pub struct VxFmtError;
pub fn vx_write(f: &mut VxFmt, s: String) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(f).s@ == old(f).s@ + s@ {
    let t = vx_cat(f.s.vx_clone(), s);
    f.s = t;
    Ok(())
}
