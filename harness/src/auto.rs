//! Auto traits of the crate's types, found out without demanding them at
//! compile time: a type that lost one is an observation, not a build failure.
/// Whether a concrete type has a trait.
#[macro_export]
macro_rules! has_trait {
    ($t:ty, $tr:path) => {{
        #[allow(dead_code)]
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for P<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> P<T> {
            const YES: bool = true;
        }
        <P<$t>>::YES
    }};
}
/// Moves to or is shared with another thread; made only after `has_trait!`
/// has said that this is allowed.
pub struct Forced<T>(pub T);
unsafe impl<T> Send for Forced<T> {}
unsafe impl<T> Sync for Forced<T> {}
impl<T> Forced<T> {
    pub fn get(self) -> T {
        self.0
    }
    pub fn view(&self) -> &T {
        &self.0
    }
}
/// Name, Send, Sync
pub fn table() -> Vec<(&'static str, bool, bool)> {
    macro_rules! row {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), has_trait!($t, Send), has_trait!($t, Sync))),*] };
    }
    row![serde_yaml::Error, serde_yaml::Value, serde_yaml::Number, serde_yaml::Mapping, serde_yaml::Sequence, serde_yaml::Location, serde_yaml::value::Tag, serde_yaml::value::TaggedValue]
}
pub fn threads_ok() -> bool {
    table().iter().all(|t| t.1 && t.2)
}
impl<T: std::fmt::Debug> std::fmt::Debug for Forced<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: std::fmt::Display> std::fmt::Display for Forced<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: std::error::Error> std::error::Error for Forced<T> {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.0.source()
    }
}
