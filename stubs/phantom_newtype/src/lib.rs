use candid::types::{Serializer, Type};
use candid::CandidType;
use serde::{Deserialize, Deserializer, Serialize};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

macro_rules! newtype {
    ($name:ident) => {
        pub struct $name<Tag, Repr>(Repr, PhantomData<std::sync::Mutex<Tag>>);

        impl<Tag, Repr> $name<Tag, Repr> {
            pub const fn new(repr: Repr) -> Self {
                Self(repr, PhantomData)
            }
            pub const fn get_ref(&self) -> &Repr {
                &self.0
            }
        }
        impl<Tag, Repr: Copy> $name<Tag, Repr> {
            pub const fn get(&self) -> Repr {
                self.0
            }
        }
        impl<Tag, Repr> AsRef<Repr> for $name<Tag, Repr> {
            fn as_ref(&self) -> &Repr {
                &self.0
            }
        }
        impl<Tag, Repr> From<Repr> for $name<Tag, Repr> {
            fn from(repr: Repr) -> Self {
                Self::new(repr)
            }
        }
        impl<Tag, Repr: Clone> Clone for $name<Tag, Repr> {
            fn clone(&self) -> Self {
                Self(self.0.clone(), PhantomData)
            }
        }
        impl<Tag, Repr: Copy> Copy for $name<Tag, Repr> {}
        impl<Tag, Repr: PartialEq> PartialEq for $name<Tag, Repr> {
            fn eq(&self, rhs: &Self) -> bool {
                self.0.eq(&rhs.0)
            }
        }
        impl<Tag, Repr: Eq> Eq for $name<Tag, Repr> {}
        impl<Tag, Repr: PartialOrd> PartialOrd for $name<Tag, Repr> {
            fn partial_cmp(&self, rhs: &Self) -> Option<Ordering> {
                self.0.partial_cmp(&rhs.0)
            }
        }
        impl<Tag, Repr: Ord> Ord for $name<Tag, Repr> {
            fn cmp(&self, rhs: &Self) -> Ordering {
                self.0.cmp(&rhs.0)
            }
        }
        impl<Tag, Repr: Hash> Hash for $name<Tag, Repr> {
            fn hash<H: Hasher>(&self, state: &mut H) {
                self.0.hash(state)
            }
        }
        impl<Tag, Repr: Default> Default for $name<Tag, Repr> {
            fn default() -> Self {
                Self::new(Repr::default())
            }
        }
        impl<Tag, Repr: fmt::Debug> fmt::Debug for $name<Tag, Repr> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl<Tag, Repr: fmt::Display> fmt::Display for $name<Tag, Repr> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl<Tag, Repr: Serialize> Serialize for $name<Tag, Repr> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl<'de, Tag, Repr: Deserialize<'de>> Deserialize<'de> for $name<Tag, Repr> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Repr::deserialize(d).map(Self::new)
            }
        }
        impl<Tag, Repr: CandidType> CandidType for $name<Tag, Repr> {
            fn _ty() -> Type {
                Repr::_ty()
            }
            fn idl_serialize<S: Serializer>(&self, s: S) -> Result<(), S::Error> {
                self.0.idl_serialize(s)
            }
        }
    };
}

newtype!(Id);
newtype!(AmountOf);

impl<Tag, Repr: std::ops::Add<Output = Repr>> std::ops::Add for AmountOf<Tag, Repr> {
    type Output = Self;
    fn add(self, rhs: Self) -> Self {
        Self::new(self.0 + rhs.0)
    }
}
impl<Tag, Repr: std::ops::Sub<Output = Repr>> std::ops::Sub for AmountOf<Tag, Repr> {
    type Output = Self;
    fn sub(self, rhs: Self) -> Self {
        Self::new(self.0 - rhs.0)
    }
}
