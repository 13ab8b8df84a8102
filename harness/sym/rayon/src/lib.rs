//! sequential stand-in for rayon: kogsym records one thread; the results of rayon's own combinators do not depend on the schedule
pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) {
    let x = a();
    let y = b();
    (x, y)
}
pub fn current_num_threads() -> usize {
    8
}
pub struct Scope;
impl Scope {
    pub fn spawn<F: FnOnce(&Scope)>(&self, f: F) {
        f(self)
    }
}
pub fn scope<F: FnOnce(&Scope) -> R, R>(f: F) -> R {
    f(&Scope)
}
pub mod prelude {
    pub trait IntoParallelIterator: Sized {
        type I;
        fn into_par_iter(self) -> Self::I;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type I = T::IntoIter;
        fn into_par_iter(self) -> T::IntoIter {
            self.into_iter()
        }
    }
    pub trait ParallelSlice<T> {
        fn par_iter(&self) -> std::slice::Iter<'_, T>;
        fn par_iter_mut(&mut self) -> std::slice::IterMut<'_, T>;
        fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T>;
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_iter(&self) -> std::slice::Iter<'_, T> {
            self.iter()
        }
        fn par_iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
            self.iter_mut()
        }
        fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T> {
            self.chunks(n)
        }
        fn par_chunks_mut(&mut self, n: usize) -> std::slice::ChunksMut<'_, T> {
            self.chunks_mut(n)
        }
    }
}
