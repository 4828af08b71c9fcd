//! Stand-in for hashbrown's set: members in the order of their arrival.  The order of a hash set
//! is any, so nothing that uses it may rely on one; the checks compare without order.
#[derive(Clone, Debug)]
pub struct HashSet<T>(Vec<T>);
impl<T> Default for HashSet<T> {
    fn default() -> Self {
        HashSet(Vec::new())
    }
}
impl<T: PartialEq> HashSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, t: T) -> bool {
        let new = !self.0.contains(&t);
        if new {
            self.0.push(t);
        }
        new
    }
    pub fn contains(&self, t: &T) -> bool {
        self.0.contains(t)
    }
    pub fn remove(&mut self, t: &T) -> bool {
        let n = self.0.len();
        self.0.retain(|x| x != t);
        n != self.0.len()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
}
impl<T: PartialEq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for t in i {
            self.insert(t);
        }
    }
}
impl<T: PartialEq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self::default();
        s.extend(i);
        s
    }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
