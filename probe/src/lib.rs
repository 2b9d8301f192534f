pub use pomelo::pomelo;
