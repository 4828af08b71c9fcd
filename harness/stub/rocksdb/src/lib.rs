//! Stand-in for rocksdb 0.19: an ordered list of pairs, any of which may be a read error.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub struct DB {
    pairs: Vec<(Vec<u8>, Result<Vec<u8>, Error>)>,
}
pub type KVBytes = (Box<[u8]>, Box<[u8]>);
#[derive(Copy, Clone)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Copy, Clone)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
impl DB {
    /// pairs in the order of their keys
    pub fn of(mut pairs: Vec<(Vec<u8>, Result<Vec<u8>, Error>)>) -> Self {
        pairs.sort_by(|a, b| a.0.cmp(&b.0));
        DB { pairs }
    }
    /// from the first key not below the prefix to the end (no prefix extractor is configured)
    pub fn prefix_iterator<'a, P: AsRef<[u8]>>(&'a self, prefix: P) -> DBIterator<'a> {
        self.from(prefix.as_ref())
    }
    fn from(&self, k: &[u8]) -> DBIterator<'_> {
        let n = self.pairs.iter().take_while(|(x, _)| &x[..] < k).count();
        DBIterator { rest: self.pairs[n..].to_vec().into_iter(), _p: std::marker::PhantomData }
    }
    pub fn iterator<'a>(&'a self, mode: IteratorMode) -> DBIterator<'a> {
        match mode {
            IteratorMode::Start | IteratorMode::From(_, Direction::Reverse) => self.from(&[]),
            IteratorMode::From(k, Direction::Forward) => self.from(k),
            IteratorMode::End => {
                let mut v = self.pairs.clone();
                v.reverse();
                DBIterator { rest: v.into_iter(), _p: std::marker::PhantomData }
            }
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        match self.pairs.iter().find(|(x, _)| &x[..] == k.as_ref()) {
            Some((_, r)) => r.clone().map(Some),
            None => Ok(None),
        }
    }
}
pub struct DBIterator<'a> {
    rest: std::vec::IntoIter<(Vec<u8>, Result<Vec<u8>, Error>)>,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> Iterator for DBIterator<'a> {
    type Item = Result<KVBytes, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.rest.next().map(|(k, r)| r.map(|v| (k.into_boxed_slice(), v.into_boxed_slice())))
    }
}
