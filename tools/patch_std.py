#!/usr/bin/env python3
"""Derives /verif/cosmwasm-std (symbolic numbers under Uint128/256/512) from the pristine
cosmwasm-std 1.5.5 sources. Every edit must match exactly once or the script fails."""
import re, sys, shutil, os, glob
src = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/cosmwasm-std-1.5.5'))[0]
dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cosmwasm-std')
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.cargo*', 'testdata', 'tests', 'benches', 'Cargo.toml.orig'))
M = dst + '/src/math/'
def edit(f, pairs):
    s = open(f).read()
    for a, b, *n in pairs:
        n = n[0] if n else 1
        if s.count(a) != n:
            sys.exit(f'{f}: {s.count(a)} matches (want {n}) of {a!r}')
        s = s.replace(a, b)
    open(f, 'w').write(s)

ORD = '''
impl PartialOrd for %(T)s {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.0.cmp(&o.0)) }
    fn lt(&self, o: &Self) -> bool { self.0 < o.0 }
    fn le(&self, o: &Self) -> bool { self.0 <= o.0 }
    fn gt(&self, o: &Self) -> bool { self.0 > o.0 }
    fn ge(&self, o: &Self) -> bool { self.0 >= o.0 }
}
impl Ord for %(T)s {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) }
    fn max(self, o: Self) -> Self { if o < self { self } else { o } }
    fn min(self, o: Self) -> Self { if o < self { o } else { self } }
}
'''
for T in ['Uint256', 'Uint512']:
    f = M + T.lower() + '.rs'
    W = T.replace('Uint', 'U')
    edit(f, [
        (f'use bnum::types::{W};', f'use symrt::{W};'),
        ('#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, JsonSchema)]',
         '#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, JsonSchema)]'),
        (f'forward_ref_partial_eq!({T}, {T});', f'forward_ref_partial_eq!({T}, {T});\n' + ORD % {'T': T}),
        (f'forward_try_from!({T}, Uint64);', f'forward_try_from!({T}, Uint64);'),
    ])
edit(M + 'uint256.rs', [('''        let bytes = num.to_le_bytes();

        Self::from_le_bytes([
            bytes[0], bytes[1], bytes[2], bytes[3], bytes[4], bytes[5], bytes[6], bytes[7],
            bytes[8], bytes[9], bytes[10], bytes[11], bytes[12], bytes[13], bytes[14], bytes[15],
            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        ])''', '        Self(U256::from_u128(num))')])
edit(M + 'uint512.rs', [('''        let mut bytes = [0u8; 64];
        bytes[32..].copy_from_slice(&val.to_be_bytes());

        Self::from_be_bytes(bytes)
''', '        Uint512(val.0.into())\n'),
('''        let bytes = value.to_be_bytes();
        let (first_bytes, last_bytes) = bytes.split_at(32);

        if first_bytes != [0u8; 32] {
            return Err(ConversionOverflowError::new(
                "Uint512",
                "Uint256",
                value.to_string(),
            ));
        }

        Ok(Self::from_be_bytes(last_bytes.try_into().unwrap()))
''', '''        symrt::U256::try_from(value.0)
            .map(Self)
            .map_err(|_| ConversionOverflowError::new("Uint512", "Uint256", value.to_string()))
''')])
# ---- Uint128 ----
f = M + 'uint128.rs'
edit(f, [
    ('#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, JsonSchema)]\npub struct Uint128(#[schemars(with = "String")] pub(crate) u128);',
     '#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, JsonSchema)]\npub struct Uint128(#[schemars(with = "String")] pub(crate) U128);\nuse symrt::U128;\n' + ORD % {'T': 'Uint128'}),
    ('Self(u128::MAX)', 'Self(U128::MAX)'),
    ('Self(u128::MIN)', 'Self(U128::MIN)'),
    ('        Uint128(value)\n', '        Uint128(U128(value))\n'),
    ('        Uint128(0)\n', '        Uint128(U128(0))\n'),
    ('        Self(1)\n', '        Self(U128(1))\n'),
    ('    pub const fn u128(&self) -> u128 {\n        self.0\n', '    pub const fn u128(&self) -> u128 {\n        self.0.get()\n'),
    ('        self.0 == 0\n', '        self.0.is_zero()\n'),
    ('self.0.checked_add(rhs.u128())', 'self.0.checked_add(rhs.0)'),
    ('self.0.checked_sub(other.u128())', 'self.0.checked_sub(other.0)'),
    ('''        Self(if self.0 < other.0 {
            other.0 - self.0
        } else {
            self.0 - other.0
        })''', '        Self(self.0.abs_diff(other.0))'),
    ('        if denominator == 0 {\n', '        if Uint128(U128(denominator)).is_zero() {\n'),
    ('        Uint128(val)\n', '        Uint128(U128(val))\n'),
    ('        Uint128(val.into())\n', '        Uint128(U128(val.into()))\n', 4),
    ('        original.0\n', '        original.0.get()\n'),
    ('match s.parse::<u128>() {', 'match s.parse::<U128>() {'),
    ('match v.parse::<u128>() {', 'match v.parse::<U128>() {'),
    ('self.u128()\n                .checked_mul(rhs.u128())', 'self.0\n                .checked_mul(rhs.0)'),
    ('self.u128()\n                .checked_div(rhs.u128())', 'self.0\n                .checked_div(rhs.0)'),
    ('self.u128()\n                .checked_shr(rhs)', 'self.0\n                .checked_shr(rhs)'),
    ('self.u128()\n                .checked_shl(rhs)', 'self.0\n                .checked_shl(rhs)'),
    ('forward_try_from!(Uint128, Uint64);', 'forward_try_from!(Uint128, Uint64);'),
    # conversions from signed types: concrete only
    ('forward_try_from!(Int64, Uint128);\nforward_try_from!(Int128, Uint128);\nforward_try_from!(Int256, Uint128);\nforward_try_from!(Int512, Uint128);',
     '''macro_rules! from_signed { ($I:ty) => {
        impl TryFrom<$I> for Uint128 {
            type Error = crate::ConversionOverflowError;
            fn try_from(value: $I) -> Result<Self, Self::Error> {
                u128::try_from(value.0).map(|v| Self(U128(v)))
                    .map_err(|_| Self::Error::new(stringify!($I), "Uint128", value))
            }
        }
    } }
from_signed!(Int64);
from_signed!(Int128);
from_signed!(Int256);
from_signed!(Int512);'''),
])
edit(M + 'int128.rs', [
    ('Uint128(self.0.abs_diff(other.0))', 'Uint128::new(self.0.abs_diff(other.0))'),
    ('Uint128(self.0.unsigned_abs())', 'Uint128::new(self.0.unsigned_abs())'),
    ('forward_try_from!(Uint128, Int128);', '''impl TryFrom<Uint128> for Int128 {
    type Error = crate::ConversionOverflowError;
    fn try_from(value: Uint128) -> Result<Self, Self::Error> {
        if value.0.handle().is_some() { symrt::unsupported("Int128 from a symbolic number"); }
        value.u128().try_into().map(Self).map_err(|_| Self::Error::new("Uint128", "Int128", value))
    }
}'''),
])
edit(M + 'int64.rs', [
    ('forward_try_from!(Uint128, Int64);', '''impl TryFrom<Uint128> for Int64 {
    type Error = crate::ConversionOverflowError;
    fn try_from(value: Uint128) -> Result<Self, Self::Error> {
        if value.0.handle().is_some() { symrt::unsupported("Int64 from a symbolic number"); }
        value.u128().try_into().map(Self).map_err(|_| Self::Error::new("Uint128", "Int64", value))
    }
}'''),
])
for T in ['int256', 'int512']:
    B = T.replace('int', '')
    s = open(M + T + '.rs').read()
    s = s.replace(f'use bnum::types::{{I{B}, U{B}}};', f'use bnum::types::{{I{B}, U{B}}};')
    a = '        val.u128().into()\n'
    assert s.count(a) == 1
    s = s.replace(a, '        if symrt::Num::sym(val.u128()).is_some() { symrt::unsupported("signed from a symbolic number"); }\n' + a)
    for a, b in [('(self.0.abs_diff(other.0))', f'(symrt::U{B}(self.0.abs_diff(other.0)))'), ('(self.0.unsigned_abs())', f'(symrt::U{B}(self.0.unsigned_abs()))')]:
        assert s.count(f'Uint{B}' + a) == 1
        s = s.replace(f'Uint{B}' + a, f'Uint{B}' + b)
    open(M + T + '.rs', 'w').write(s)
# ---- decimals ----
for T, U in [('Decimal256', 'Uint256'), ('Decimal', 'Uint128')]:
    f = M + T.lower() + '.rs'
    edit(f, [
        ('#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, JsonSchema)]', '#[derive(Copy, Clone, Default, PartialEq, Eq, JsonSchema)]'),
        (f'forward_ref_partial_eq!({T}, {T});', f'forward_ref_partial_eq!({T}, {T});\n' + ORD % {'T': T}),
        (f'impl fmt::Display for {T} {{\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{\n',
         f'impl fmt::Display for {T} {{\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{\n        if let Some(i) = self.0 .0.handle() {{\n            return write!(f, "@d{{i}}");\n        }}\n'),
        ('    fn from_str(input: &str) -> Result<Self, Self::Err> {\n',
         f'    fn from_str(input: &str) -> Result<Self, Self::Err> {{\n        if let Some(i) = input.strip_prefix("@d").and_then(|r| r.parse().ok()) {{\n            return Ok({T}({U}(symrt::Num::boxed(i))));\n        }}\n'),
    ])
t = open(dst + '/Cargo.toml').read()
t = re.sub(r'\[dev-dependencies(.|\n)*?\n(?=\[features)', '', t)
t = t.replace('[dependencies.bnum]', '[dependencies.symrt]\npath = "../symrt"\n\n[dependencies.bnum]')
open(dst + '/Cargo.toml', 'w').write(t)
