//! Text codec used by the native replayer (not part of what is encoded).
use oraiswap_v3::ContractError;

pub trait Arg {
    fn dec(s: &str) -> Self;
}
macro_rules! ints { ($($t:ty)*) => { $(
    impl Arg for $t { fn dec(s: &str) -> Self { s.parse().unwrap() } }
    impl Enc for $t { fn enc(&self) -> String { self.to_string() } }
)* } }
pub trait Enc {
    fn enc(&self) -> String;
}
ints!(u8 u16 u32 u64 u128 usize i32 i64 i128);
impl Arg for bool {
    fn dec(s: &str) -> Self {
        s == "1"
    }
}
impl Enc for bool {
    fn enc(&self) -> String {
        if *self { "True".into() } else { "False".into() }
    }
}
impl Arg for String {
    fn dec(s: &str) -> Self {
        String::from_utf8(<Vec<u8> as Arg>::dec(s)).unwrap()
    }
}
impl<T: Arg> Arg for Vec<T> {
    fn dec(s: &str) -> Self {
        if s.is_empty() {
            return vec![];
        }
        s.split(',').map(|x| T::dec(x)).collect()
    }
}
impl Enc for String {
    fn enc(&self) -> String {
        self.as_bytes().to_vec().enc()
    }
}
impl Enc for () {
    fn enc(&self) -> String {
        "()".into()
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.enc()).collect::<Vec<_>>().join(","))
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("('some',{})", x.enc()),
        }
    }
}
impl<T: Enc, E: Enc> Enc for Result<T, E> {
    fn enc(&self) -> String {
        match self {
            Err(e) => format!("('err',{})", e.enc()),
            Ok(x) => format!("('ok',{})", x.enc()),
        }
    }
}
impl Enc for ContractError {
    fn enc(&self) -> String {
        format!("{:?}", self.to_string())
    }
}
macro_rules! tuples { ($($($n:ident $i:tt),+;)*) => { $(
    impl<$($n: Enc),+> Enc for ($($n,)+) { fn enc(&self) -> String { let mut s = String::from("("); $(s += &self.$i.enc(); s += ",";)+ s += ")"; s } }
)* } }
tuples! {
    A 0;
    A 0, B 1;
    A 0, B 1, C 2;
    A 0, B 1, C 2, D 3;
    A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11;
}

#[macro_export]
macro_rules! roots {
    ($disp:ident; $( fn $name:ident ( $s:ident $(, $a:ident : $t:ty)* $(,)? ) -> $r:ty $body:block )*) => {
        $( pub fn $name($s: &mut dyn cosmwasm_std::Storage $(, $a: $t)*) -> $r $body )*
        pub fn $disp(name: &str, args: &[&str]) -> Option<String> {
            let mut st = cosmwasm_std::MemoryStorage::new();
            match name {
                $( stringify!($name) => {
                    let mut it = args.iter();
                    $( let $a = <$t as $crate::codec::Arg>::dec(it.next().unwrap()); )*
                    Some($crate::codec::Enc::enc(&$name(&mut st $(, $a)*)))
                } )*
                _ => None,
            }
        }
    };
}
