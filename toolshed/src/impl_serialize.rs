use serde::ser::{Serialize, Serializer};
use list::List;
use map::{Map, BloomMap};
use set::{Set, BloomSet};

impl<'arena, T> Serialize for List<'arena, T>
where
    T: Serialize
{
    #[inline]
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer
    {
        serializer.collect_seq(self.iter())
    }
}

impl<'arena, K, V> Serialize for Map<'arena, K, V>
where
    K: Serialize,
    V: Serialize + Copy,
{
    #[inline]
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer
    {
        serializer.collect_map(self.iter())
    }
}

impl<'arena, K, V> Serialize for BloomMap<'arena, K, V>
where
    K: Serialize,
    V: Serialize + Copy,
{
    #[inline]
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer
    {
        serializer.collect_map(self.iter())
    }
}

impl<'arena, I> Serialize for Set<'arena, I>
where
    I: Serialize,
{
    #[inline]
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer
    {
        serializer.collect_seq(self.iter())
    }
}

impl<'arena, I> Serialize for BloomSet<'arena, I>
where
    I: Serialize,
{
    #[inline]
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer
    {
        serializer.collect_seq(self.iter())
    }
}
