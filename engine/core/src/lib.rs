pub mod int;
pub mod poly;
pub mod solver;
pub mod eng;
pub mod explore;
pub mod fl;
pub mod alloc;
