pub use vcoll;
#[macro_export]
macro_rules! btreemap {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = $crate::vcoll::BTreeMap::new();
        $( m.insert($k, $v); )*
        m
    }};
}
#[macro_export]
macro_rules! btreeset {
    ($($k:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = $crate::vcoll::BTreeSet::new();
        $( m.insert($k); )*
        m
    }};
}
