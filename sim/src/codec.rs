//! Plans are written to replay files as a list of integers.
pub struct Dec<'a>(pub std::slice::Iter<'a, i64>);

pub trait Codec: Sized {
    fn enc(&self, o: &mut Vec<i64>);
    fn dec(d: &mut Dec) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Codec for $t {
            fn enc(&self, o: &mut Vec<i64>) { o.push(*self as i64) }
            fn dec(d: &mut Dec) -> Option<Self> { d.0.next().map(|v| *v as $t) }
        }
    )*};
}
ints!(u8, u16, u32, u64, i32, i64, i16, usize);
impl Codec for bool {
    fn enc(&self, o: &mut Vec<i64>) {
        o.push(*self as i64)
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        d.0.next().map(|v| *v != 0)
    }
}
impl<T: Codec> Codec for Vec<T> {
    fn enc(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        self.iter().for_each(|x| x.enc(o));
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        let n = *d.0.next()?;
        (0..n).map(|_| T::dec(d)).collect()
    }
}
impl<T: Codec> Codec for Option<T> {
    fn enc(&self, o: &mut Vec<i64>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.enc(o)
            }
        }
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        Some(match *d.0.next()? {
            0 => None,
            _ => Some(T::dec(d)?),
        })
    }
}
impl<A: Codec, B: Codec> Codec for (A, B) {
    fn enc(&self, o: &mut Vec<i64>) {
        self.0.enc(o);
        self.1.enc(o);
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        Some((A::dec(d)?, B::dec(d)?))
    }
}
impl<A: Codec, B: Codec, C: Codec> Codec for (A, B, C) {
    fn enc(&self, o: &mut Vec<i64>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        Some((A::dec(d)?, B::dec(d)?, C::dec(d)?))
    }
}
impl<T: Codec + Default + Copy, const N: usize> Codec for [T; N] {
    fn enc(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.enc(o));
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        let mut a = [T::default(); N];
        for x in a.iter_mut() {
            *x = T::dec(d)?;
        }
        Some(a)
    }
}

macro_rules! codec_struct {
    ($n:ident { $($(#[$m:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct $n { $($(#[$m])* pub $f: $t),* }
        impl $crate::codec::Codec for $n {
            #[allow(unused_variables)]
            fn enc(&self, o: &mut Vec<i64>) { $(self.$f.enc(o);)* }
            fn dec(d: &mut $crate::codec::Dec) -> Option<Self> {
                Some($n { $($f: <$t as $crate::codec::Codec>::dec(d)?),* })
            }
        }
    };
}
macro_rules! codec_enum {
    ($n:ident { $($(#[$m:meta])* $v:ident { $($f:ident : $t:ty),* $(,)? } = $k:expr),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum $n { $($(#[$m])* $v { $($f: $t),* }),* }
        impl $crate::codec::Codec for $n {
            fn enc(&self, o: &mut Vec<i64>) {
                match self { $($n::$v { $($f),* } => { o.push($k); $($f.enc(o);)* }),* }
            }
            fn dec(d: &mut $crate::codec::Dec) -> Option<Self> {
                match *d.0.next()? {
                    $($k => Some($n::$v { $($f: <$t as $crate::codec::Codec>::dec(d)?),* }),)*
                    _ => None,
                }
            }
        }
    };
}
