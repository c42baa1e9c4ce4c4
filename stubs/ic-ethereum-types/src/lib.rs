//! Declared by the minter's manifest but not used by its code.
