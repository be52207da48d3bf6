//! The four configurations of the crate under test.
use mc_core::abs::B;

macro_rules! text {
    ($t:ty, $make:ident) => {
        pub type Ms = $t;
        fn ms(b: &super::B) -> Ms {
            mc_core::store::$make(b)
        }
        fn mb(s: &Ms) -> super::B {
            super::B::copy_from_slice(s.as_bytes())
        }
        const UTF8: bool = true;
    };
}
pub mod default {
    use mqtt_bytes_v5 as sut;
    text!(String, string);
    const NAME: &str = "default";
    include!("bind_impl.rs");
}
pub mod cow {
    use sut_cow as sut;
    text!(std::borrow::Cow<'static, str>, cow);
    const NAME: &str = "cow_string";
    include!("bind_impl.rs");
}
pub mod boxed {
    use sut_boxed as sut;
    text!(Box<str>, boxed);
    const NAME: &str = "boxed_string";
    include!("bind_impl.rs");
}
pub mod binary {
    use sut_binary as sut;
    pub type Ms = bytes::Bytes;
    fn ms(b: &super::B) -> Ms {
        mc_core::store::bytes(b)
    }
    fn mb(s: &Ms) -> super::B {
        s.clone()
    }
    const UTF8: bool = false;
    const NAME: &str = "binary_string";
    include!("bind_impl.rs");
}
