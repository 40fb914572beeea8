//! Not used by the code under proof.
