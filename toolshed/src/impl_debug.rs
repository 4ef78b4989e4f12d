use std::fmt::{self, Debug};
use list::{List, GrowableList, ListBuilder};
use map::{Map, BloomMap};
use set::{Set, BloomSet};

impl<'arena, T> Debug for List<'arena, T>
where
    T: Debug,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}

impl<'arena, T> Debug for GrowableList<'arena, T>
where
    T: Debug,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.as_list().fmt(f)
    }
}

impl<'arena, T> Debug for ListBuilder<'arena, T>
where
    T: Debug,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.as_list().fmt(f)
    }
}

impl<'arena, K, V> Debug for Map<'arena, K, V>
where
    K: Debug,
    V: Debug + Copy,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

impl<'arena, K, V> Debug for BloomMap<'arena, K, V>
where
    K: Debug,
    V: Debug + Copy,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

impl<'arena, I> Debug for Set<'arena, I>
where
    I: Debug,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}

impl<'arena, I> Debug for BloomSet<'arena, I>
where
    I: Debug,
{
    #[inline]
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
