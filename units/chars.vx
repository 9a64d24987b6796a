// Character predicates of the standard library. The ones given by Unicode
// tables are not interpreted.
//@ map .is_whitespace => vx_is_whitespace
//@ library
pub uninterp spec fn u_alphabetic(c: char) -> bool;
pub uninterp spec fn u_numeric(c: char) -> bool;
pub uninterp spec fn u_whitespace(c: char) -> bool;
pub uninterp spec fn u_alphanumeric(c: char) -> bool;
pub uninterp spec fn u_lowercase(c: char) -> bool;
pub uninterp spec fn u_uppercase(c: char) -> bool;
pub uninterp spec fn u_control(c: char) -> bool;
pub open spec fn s_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn s_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn s_lower(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn s_upper(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn s_ascii_whitespace(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c as u32 == 12 }
pub assume_specification[char::is_alphabetic](c: char) -> (r: bool) ensures r == u_alphabetic(c);
pub assume_specification[char::is_numeric](c: char) -> (r: bool) ensures r == u_numeric(c);
trait VxChar { fn vx_is_whitespace(self) -> (r: bool) ensures r == u_whitespace(self.vx_char()); spec fn vx_char(self) -> char; }
impl VxChar for char {
    spec fn vx_char(self) -> char { self }
    #[verifier::external_body]
    fn vx_is_whitespace(self) -> (r: bool) { unimplemented!() }
}
pub assume_specification[char::is_alphanumeric](c: char) -> (r: bool) ensures r == (u_alphabetic(c) || u_numeric(c));
pub assume_specification[char::is_lowercase](c: char) -> (r: bool) ensures r == u_lowercase(c);
pub assume_specification[char::is_uppercase](c: char) -> (r: bool) ensures r == u_uppercase(c);
pub assume_specification[char::is_control](c: char) -> (r: bool) ensures r == u_control(c);
pub assume_specification[char::is_ascii](c: &char) -> (r: bool) ensures r == s_ascii(*c);
pub assume_specification[char::is_ascii_digit](c: &char) -> (r: bool) ensures r == s_digit(*c);
pub assume_specification[char::is_ascii_lowercase](c: &char) -> (r: bool) ensures r == s_lower(*c);
pub assume_specification[char::is_ascii_uppercase](c: &char) -> (r: bool) ensures r == s_upper(*c);
pub assume_specification[char::is_ascii_alphabetic](c: &char) -> (r: bool) ensures r == (s_lower(*c) || s_upper(*c));
pub assume_specification[char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == (s_lower(*c) || s_upper(*c) || s_digit(*c));
pub assume_specification[char::is_ascii_whitespace](c: &char) -> (r: bool) ensures r == s_ascii_whitespace(*c);
pub open spec fn s_hexdigit(c: char) -> bool { s_digit(c) || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub assume_specification[char::is_ascii_hexdigit](c: &char) -> (r: bool) ensures r == s_hexdigit(*c);
pub open spec fn s_digit_value(c: char) -> int {
    if s_digit(c) { c as int - '0' as int } else if s_lower(c) { c as int - 'a' as int + 10 } else { c as int - 'A' as int + 10 }
}
pub open spec fn s_to_digit(c: char, radix: int) -> Option<u32> {
    if (s_digit(c) || s_lower(c) || s_upper(c)) && s_digit_value(c) < radix { Some(s_digit_value(c) as u32) } else { None }
}
pub assume_specification[char::to_digit](c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures r == s_to_digit(c, radix as int);
pub open spec fn s_scalar(n: u32) -> bool { n < 0xd800 || 0xe000 <= n <= 0x10ffff }
/// Characters and the numbers that are scalar values correspond one to one.
pub uninterp spec fn s_char(n: u32) -> char;
broadcast axiom fn s_char_value(n: u32) requires s_scalar(n) ensures #[trigger] s_char(n) as u32 == n;
broadcast axiom fn s_value_char(c: char) ensures s_scalar(c as u32), #[trigger] s_char(c as u32) == c;
broadcast use s_char_value;
broadcast use s_value_char;
pub assume_specification[char::from_u32](n: u32) -> (r: Option<char>)
    ensures r == (if s_scalar(n) { Some(s_char(n)) } else { None });
trait VxBool: Sized { spec fn vx_bool(self) -> bool; fn vx_truth(self) -> (r: bool) ensures r == self.vx_bool(); }
impl VxBool for bool { spec fn vx_bool(self) -> bool { self } fn vx_truth(self) -> (r: bool) { self } }
impl VxBool for &bool { spec fn vx_bool(self) -> bool { *self } fn vx_truth(self) -> (r: bool) { *self } }
fn vx_xor<A: VxBool, B: VxBool>(a: A, b: B) -> (r: bool) ensures r == (a.vx_bool() != b.vx_bool()) { a.vx_truth() != b.vx_truth() }
