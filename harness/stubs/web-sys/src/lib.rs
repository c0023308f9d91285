//! Not used by the code under test.
